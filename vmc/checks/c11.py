"""C11 -- unstructured grids: editing a grid never leaves a stale answer.

Explicit-state search over edit/build/query histories.  After every operation
the real grid must answer exactly as a model that holds only the current
arrays (and so as a grid freshly built from them) would.
"""
import itertools
from collections import Counter

import numpy as np

from .. import meshes as M
from ..core import Space, expect
from .c10 import edges_of

import os

NODES = {
    "A": [(0, 0), (4, 0), (4, 4), (0, 4), (8, 4)],
    "B": [(0, 0), (8, 0), (4, 4), (-4, 4), (12, 8)],
    "C": [(10, 10), (14, 10), (14, 14), (10, 14), (18, 14), (10, 18)],
}
FACES = {
    "P": [(0, 1, 2), (0, 2, 3), (1, 4, 2)],
    "Q": [(0, 1, 3), (1, 2, 3)],
    "R": [(0, 1, 2, 3)],
}
QS = [(x, y) for y in range(-1, 20, 2) for x in range(-5, 20, 2)] + [(1, 2), (3, 1)]
DATA = [1.0, 10.0, 100.0, 1000.0, 10000.0, 5.0]

OPS = (
    [("nodes", k) for k in "ABC"]
    + [("faces", k) for k in "PQR"]
    + [("faces", None), ("del", "faces"), ("del", "nodes"), ("del", "edges"), ("del", "boundaries")]
    + [("build", b) for b in ("edges", "face_face_connectivity", "boundaries", "face_edge_connectivity", "face_coordinates", "edge_coordinates", "boundary_coordinates")]
    + [("edges", "turned"), ("edges", "plain")]
    + [("query", "locate"), ("query", "interp"), ("query", "near"), ("query", "facedata"), ("query", "single")]
)


class Model:
    def __init__(self):
        self.n, self.f = "A", "P"
        self.edges = self.bounds = self.ff = self.fe = None
        # representative coordinates: None, "unknown" or (nodes, what they were built for)
        self.fc = self.ec = self.bc = None

    def key(self):
        return (self.n, self.f, self.edges, self.bounds, self.ff, self.fe, self.fc, self.ec, self.bc)

    def enabled(self, op):
        kind, a = op
        if kind == "nodes":
            return True
        if kind == "faces":
            return a is None or self.n is not None
        if kind == "edges":
            return self.f is not None and self.n is not None
        if kind == "build":
            if self.f is None or self.n is None:
                return False
            if a == "face_edge_connectivity":
                return self.edges is not None and self.edges == self.f
            if a == "edge_coordinates":
                return self.edges is not None
            if a == "boundary_coordinates":
                return self.bounds is not None
            return True
        if kind == "query":
            if self.n is None:
                return False
            if a == "near":
                return True
            if self.f is None:
                return False
            return a != "interp" or self.f != "R"
        return True

    def apply(self, op):
        kind, a = op
        if kind == "nodes":
            self.n = a
            self.fc, self.ec, self.bc = (x and "unknown" for x in (self.fc, self.ec, self.bc))
        elif kind == "faces" or op == ("del", "faces"):
            self.f = a if kind == "faces" else None
            self.ff = self.fe = None
            # assigning faces may keep or drop coordinates that the user may have supplied
            self.fc = None if kind == "del" or self.fc is None else "unknown"
            self.ec = self.ec and "unknown"
        elif kind == "edges":
            self.edges = self.f
            self.ec = self.ec and "unknown"
            self.fe = self.fe and "unknown"
        elif op == ("del", "nodes"):
            self.n = self.f = self.edges = self.bounds = None
            self.ff = self.fe = self.fc = self.ec = self.bc = None
        elif op == ("del", "edges"):
            self.edges = self.fe = self.ec = None
        elif op == ("del", "boundaries"):
            self.bounds = self.bc = None
        elif kind == "build":
            if a == "edges":
                self.edges = self.f
                self.ec = self.ec and "unknown"
                self.fe = self.fe and "unknown"
            elif a == "face_face_connectivity":
                self.ff = self.f
            elif a == "boundaries":
                self.bounds = self.f
                self.ff = self.f
                self.bc = self.bc and "unknown"
            elif a in ("face_coordinates", "edge_coordinates", "boundary_coordinates"):
                setattr(self, a[0] + "c", "built")
            elif a == "face_edge_connectivity":
                self.fe = self.f


def geometry(n, f):
    mesh = M.Mesh("%s%s" % (n, f), NODES[n], FACES[f])
    return mesh


_CACHE = {}


def ref(n, f):
    if (n, f) not in _CACHE:
        mesh = geometry(n, f)
        ok = all(M.strictly_convex(mesh.poly(i)) for i in range(len(mesh.faces))) and not M._flipped(mesh.nodes, mesh.faces)
        _CACHE[(n, f)] = (mesh, ok, [mesh.where(q) for q in QS])
    return _CACHE[(n, f)]


def observe(ctx, grid, m, op):
    kind, a = op
    ctx.transitions += 1
    # attribute view
    if m.n is None:
        expect(np.asarray(grid.nodes).shape == (0, 2), "nodes after deletion: %s", grid.nodes)
    else:
        expect(np.array_equal(grid.nodes, np.array(NODES[m.n], float)), "nodes %s", np.asarray(grid.nodes).tolist())
    if m.f is None:
        expect(grid.faces is None and grid.num_vertices is None, "faces %s", grid.faces)
    else:
        expect([tuple(x) for x in np.asarray(grid.faces).tolist()] == FACES[m.f], "faces %s", np.asarray(grid.faces).tolist())
    if m.edges is None:
        expect(grid.edges is None, "edges %s", grid.edges)
    else:
        want = sorted({tuple(sorted(e)) for f in FACES[m.edges] for e in edges_of(f)})
        got = sorted(tuple(sorted(e)) for e in np.asarray(grid.edges).tolist())
        expect(got == want, "edges %s, expected %s", got, want)
    if m.bounds is None:
        expect(grid.boundaries is None, "boundaries %s", grid.boundaries)
    else:
        c = Counter(tuple(sorted(e)) for f in FACES[m.bounds] for e in edges_of(f))
        want = sorted(e for f in FACES[m.bounds] for e in edges_of(f) if c[tuple(sorted(e))] == 1)
        got = sorted(tuple(b) for b in np.asarray(grid.boundaries).tolist())
        expect(got == want, "boundaries %s, expected %s", got, want)
    if m.ff is None:
        expect(grid.face_face_connectivity is None, "face_face_connectivity of other faces is still there: %s", grid.face_face_connectivity)
    elif m.ff != "unknown":
        F = FACES[m.ff]
        got = np.asarray(grid.face_face_connectivity).tolist()
        own = {}
        for i, f in enumerate(F):
            for e in edges_of(f):
                own.setdefault(tuple(sorted(e)), []).append(i)
        want = [[([x for x in own[tuple(sorted(e))] if x != i] or [-1])[0] for e in edges_of(f)] for i, f in enumerate(F)]
        expect(got == want, "face_face_connectivity %s, expected %s", got, want)
    if m.fe is None:
        expect(grid.face_edge_connectivity is None, "face_edge_connectivity of other faces is still there")
    if (kind == "build" and a == "face_edge_connectivity") or (grid.face_edge_connectivity is not None and m.edges == m.f):
        # whenever there is one, it is the one of these edges
        fe = np.asarray(grid.face_edge_connectivity).tolist()
        ed = [tuple(sorted(e)) for e in np.asarray(grid.edges).tolist()]
        for i, f in enumerate(FACES[m.f]):
            expect([ed[k] for k in fe[i]] == [tuple(sorted(e)) for e in edges_of(f)], "face_edge_connectivity row %d: %s", i, fe[i])
    for name, have, parts in (
        ("face_coordinates", m.fc, lambda: FACES[m.f]),
        ("edge_coordinates", m.ec, lambda: np.asarray(grid.edges).tolist()),
        ("boundary_coordinates", m.bc, lambda: np.asarray(grid.boundaries).tolist()),
    ):
        got = getattr(grid, name)
        if have is None:
            expect(got is None, "%s of what is no longer there: %s", name, got)
        elif have == "built":
            P = np.array(NODES[m.n], float)
            want = [P[list(q)].mean(0) for q in parts()]
            expect(np.shape(got) == np.shape(want) and np.allclose(got, want), "%s %s, expected %s", name, got, want)
    if kind == "query":
        pts = np.array(QS, float)
        if a == "near":
            got = np.asarray(grid.locate_nodes(pts)).tolist()
            for q, g in zip(QS, got):
                d = [(p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for p in NODES[m.n]]
                expect(g < len(d) and d[g] == min(d), "nearest node to %s is %s", q, g)
            return
        mesh, ok, where = ref(m.n, m.f)
        if not ok:
            return
        if a == "single":
            for i in (0, 40, len(QS) - 1):
                g = grid.locate_faces(pts[i])
                s, t = where[i]
                expect(np.ndim(g) == 0, "single point answer has shape %s", np.shape(g))
                expect(int(g) == s if s is not None else (int(g) == -1 or int(g) in t), "single %s located in %s", QS[i], g)
            return
        if a == "locate":
            got = np.asarray(grid.locate_faces(pts)).tolist()
        elif a == "facedata":
            vals = np.asarray(grid.interpolate_var_to_points(pts, np.arange(len(mesh.faces)) + 7.0, location="face"))
            got = [-1 if v == 0 else int(v - 7) for v in vals.tolist()]
        else:
            data = np.array(DATA[: len(mesh.nodes)])
            vals = np.asarray(grid.interpolate_var_to_points(pts, data, location="node")).tolist()
            for q, v, (s, t) in zip(QS, vals, where):
                if s is not None:
                    f = mesh.faces[s]
                    want = float(sum(w * int(DATA[k]) for w, k in zip(M.bary([mesh.nodes[k] for k in f], q), f)))
                    expect(abs(v - want) < 1e-9 * max(1, abs(want)), "value at %s is %s, expected %s", q, v, want)
                elif not t:
                    expect(v == 0, "value outside at %s is %s", q, v)
            return
        for q, g, (s, t) in zip(QS, got, where):
            if s is not None:
                expect(g == s, "%s is in face %s, %s gave %s", q, s, a, g)
            elif not t:
                expect(g == -1, "%s is outside, %s gave %s", q, a, g)


def perform(grid, op):
    kind, a = op
    if kind == "nodes":
        grid.nodes = np.array(NODES[a], float)
    elif kind == "faces":
        grid.faces = None if a is None else np.array(FACES[a], dtype=np.int32)
    elif kind == "edges":  # the edges of the faces, in an order of the user's
        e = sorted({tuple(sorted(x)) for f in np.asarray(grid.faces).tolist() for x in edges_of(f)})
        grid.edges = np.array(e) if a == "plain" else np.array(e)[::-1, ::-1]
    elif kind == "del":
        delattr(grid, a)
    elif kind == "build":
        getattr(grid, "build_" + a)()


def units(tier):
    return [[tier, i, j] for i in range(len(OPS)) for j in range(len(OPS))]


def run(ctx, unit):
    from gridded.grids import Grid_U

    tier, i, j = unit
    depth = 5 if tier == "thorough" else 4

    def history(ops):
        grid = Grid_U(nodes=np.array(NODES["A"], float), faces=np.array(FACES["P"]))
        m = Model()
        for op in ops:
            m.apply(op)
            perform(grid, op)
            observe(ctx, grid, m, op)
            ctx.state(m.key())
        # differential: whatever happened, the final grid answers like a fresh one
        for q in ("locate", "interp", "facedata", "near"):
            if m.enabled(("query", q)):
                observe(ctx, grid, m, ("query", q))
        ctx.outcome(m.key(), ops[-1])

    def extend(prefix, m):
        if prefix:
            ctx.case(" ; ".join("%s %s" % o for o in prefix), history, prefix)
        if len(prefix) >= depth:
            return
        for op in OPS:
            if len(prefix) == 0 and op != OPS[i] or len(prefix) == 1 and op != OPS[j]:
                continue
            if not m.enabled(op):
                continue
            m2 = Model()
            m2.__dict__.update(m.__dict__)
            m2.apply(op)
            extend(prefix + (op,), m2)

    extend((), Model())


SPACES = [
    Space("edit-histories", units, run, "all histories of depth 4 (thorough 5) over 25 edit, build and query operations from a built grid; "
          "final queries after each"),
]
ASSUMPTIONS = ["arrays are replaced through the grid's attributes, not edited in place", "queries are compared only where the current faces form a valid mesh"]
