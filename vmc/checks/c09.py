"""C09 -- unstructured grids: interpolation of node and face data.

Interpolation is linear in the data, so agreement on every unit basis vector
(checked as the columns of an identity matrix, and one by one) decides every
data field on the mesh; NaN/extreme fields are checked separately.
"""
import itertools
from fractions import Fraction

import numpy as np

from .. import meshes as M
from .. import fine
from .. import sizes as Z
from .c15 import run_corner, units_corner
from ..core import Space, expect


def tri_families(tier):
    yield from M.single_triangles()
    yield from M.triangle_pairs(4 if tier == "thorough" else 1)
    for perm in (None, (4, 0, 7, 2, 8, 1, 5, 3, 6)):
        for warp in (None, (1, 0), (-1, 1)):
            yield from M.diagonal_meshes(perm, warp)


def flex_families(tier):
    for warp in (None, (1, 0), (1, -1)):
        yield from M.flexible_meshes(warp)


def is_conforming(mesh):
    """Faces meet in whole edges or single nodes only."""
    for i, f in enumerate(mesh.faces):
        for node, p in enumerate(mesh.nodes):
            if node not in f and M.in_poly(mesh.poly(i), p) == 0:
                return False
    return True


class Slicable:
    """Array-like with a location attribute, as a netCDF variable has."""

    def __init__(self, data, location):
        self.data = data
        self.location = location
        self.shape = data.shape
        self.dtype = data.dtype
        self.ndim = data.ndim

    def __getitem__(self, i):
        return self.data[i]

    def __len__(self):
        return len(self.data)

    def take(self, i, axis=0):
        return self.data.take(i, axis=axis)


def run_nodes(ctx, unit):
    from gridded.grids import Grid_U

    tier, k, n = unit
    for idx, mesh in enumerate(itertools.islice(tri_families(tier), k, None, n)):
        small = mesh.name.startswith(("tri", "pair"))
        frames = ["unit", "west"] if small and tier != "thorough" else list(M.FRAMES)
        qs = M.queries(mesh, 1, 4 if small else 2)
        N, F = len(mesh.nodes), len(mesh.faces)
        ref = [mesh.where(q) for q in qs]
        weights = []
        conforming = is_conforming(mesh)
        for q, (strict, touch) in zip(qs, ref):
            w = [Fraction(0)] * N
            if touch:
                f = mesh.faces[touch[0]]
                for node, a in zip(f, M.bary([mesh.nodes[i] for i in f], q)):
                    w[node] += a
            weights.append(w)
        for frame in frames:
            nodes = np.array(M.place(mesh.nodes, frame))
            pts = np.array(M.place(qs, frame))
            key = "%s %s " % (mesh.name, frame)
            grid = ctx.case(key + "build", lambda: Grid_U(nodes=nodes, faces=M.face_array(mesh)))
            if grid is None:
                continue
            ctx.state(mesh.name, frame)
            tol = 1e-9

            def rows(got, what, want_of):
                got = np.ma.filled(got, np.nan)
                for i, (q, (strict, touch)) in enumerate(zip(qs, ref)):
                    ctx.transitions += 1
                    want = want_of(i)
                    g = got[i]
                    ok = np.all(np.abs(np.asarray(g - want, dtype=float)) <= tol * max(1.0, np.max(np.abs(want))))
                    if strict is None and len(touch) > 1 and not ok and not conforming:
                        continue  # a hanging node: the two faces disagree on their common edge
                    if strict is None and touch and not ok:
                        # on an edge: outside is also an answer, if that is where the point was located
                        ok = np.all(g == 0) and mesh.on_outer_boundary(q)
                    expect(ok, "%s at (%s, %s): got %s, expected %s", what, q[0], q[1], g, want)

            def basis():
                W = np.array([[float(x) for x in w] for w in weights])
                got = grid.interpolate_var_to_points(pts, np.eye(N), location="node")
                expect(got.shape == (len(qs), N), "shape %s", got.shape)
                rows(got, "node basis", lambda i: W[i])
                ctx.outcome(mesh.name, got.tobytes())

            def one_by_one():
                W = np.array([[float(x) for x in w] for w in weights])
                for j in range(N):
                    e = np.zeros(N)
                    e[j] = 1
                    got = grid.interpolate_var_to_points(pts, e, location="node")
                    expect(got.shape == (len(qs),), "shape %s", got.shape)
                    rows(got, "unit field at node %d" % j, lambda i: W[i, j])

            def linear():
                # exactness on a linear field, big magnitudes, several forms of the data
                lin = np.array([1000.0 + 3 * a[0] - 7 * a[1] for a in mesh.nodes])
                want = [1000.0 + 3 * float(q[0]) - 7 * float(q[1]) if r[1] else 0.0 for q, r in zip(qs, ref)]
                stack = np.stack([lin, 2 * lin, lin - 5])
                for what, var, kw, f in (
                    ("inferred", lin, {}, lambda v: v) if N != F else ("explicit", lin, {"location": "node"}, lambda v: v),
                    ("int", lin.astype(int), {"location": "node"}, lambda v: v),
                    ("attribute", Slicable(lin, "node"), {}, lambda v: v),
                    ("slices", stack, {"location": "node", "slices": (1,)}, lambda v: 2 * v),
                    ("slices2", np.stack([stack, stack + 1]), {"location": "node", "slices": (1, 2)}, lambda v: v - 4 if v else 0.0),
                    ("empty slices", lin, {"location": "node", "slices": ()}, lambda v: v),
                    ("nomemo", lin, {"location": "node", "_memo": False}, lambda v: v),
                ):
                    got = grid.interpolate_var_to_points(pts, var, **kw)
                    rows(got, "linear field (%s)" % what, lambda i: f(want[i]))
                got = grid.interpolate(pts.tolist(), lin, location="node")
                rows(got, "linear field (list of points)", lambda i: want[i])

            def local():
                # only the nodes of the containing face matter, whatever the others hold
                for fi, f in enumerate(mesh.faces):
                    data = np.full(N, np.nan)
                    for node in f:
                        data[node] = node + 1.0
                    sel = [i for i, r in enumerate(ref) if r[0] == fi]
                    if not sel:
                        continue
                    got = grid.interpolate_var_to_points(pts[sel], data, location="node")
                    for i, g in zip(sel, got):
                        ctx.transitions += 1
                        want = float(sum(weights[i][node] * (node + 1) for node in f))
                        expect(abs(g - want) <= 1e-9 * (1 + abs(want)), "value in face %d reads other nodes: %s, expected %s", fi, g, want)
                out = [i for i, r in enumerate(ref) if not r[1]]
                got = grid.interpolate_var_to_points(pts[out], np.full(N, np.nan), location="node")
                expect(np.all(np.asarray(got) == 0), "value outside the mesh is not 0: %s", np.asarray(got)[:5])

            def alphas():
                sel = [i for i, r in enumerate(ref) if r[0] is not None or not r[1]]
                for rep in range(2):
                    a = np.asarray(grid.interpolation_alphas(pts[sel]))
                    expect(a.shape == (len(sel), 3), "alphas shape %s", a.shape)
                    for i, row in zip(sel, a):
                        ctx.transitions += 1
                        if ref[i][0] is None:
                            expect(np.all(row == 0), "weights outside the mesh: %s", row)
                        else:
                            f = mesh.faces[ref[i][0]]
                            want = [float(weights[i][node]) for node in f]
                            expect(np.allclose(row, want, atol=1e-9, rtol=0), "weights %s, expected %s", row, want)

            ctx.case(key + "basis", basis)
            ctx.case(key + "linear", linear)
            if not mesh.name.startswith("pair") or idx % 4 == 0 or tier == "thorough":
                ctx.case(key + "one-by-one", one_by_one)
                ctx.case(key + "local", local)
            ctx.case(key + "alphas", alphas)


def run_faces(ctx, unit):
    from gridded.grids import Grid_U

    tier, k, n = unit
    fam = itertools.chain(flex_families(tier), itertools.islice(tri_families(tier), 0, None, 1 if tier == "thorough" else 3))
    for mesh in itertools.islice(fam, k, None, n):
        qs = M.queries(mesh, 1, 2)
        ref = [mesh.where(q) for q in qs]
        F, N = len(mesh.faces), len(mesh.nodes)
        flexible = len({len(f) for f in mesh.faces}) > 1
        for kind in ("plain", "masked") if flexible else ("plain",):
            for frame in ("unit", "south"):
                key = "%s %s %s " % (mesh.name, frame, kind)
                grid = ctx.case(key + "build", lambda: Grid_U(nodes=np.array(M.place(mesh.nodes, frame)), faces=M.face_array(mesh, kind)))
                if grid is None:
                    continue
                pts = np.array(M.place(qs, frame))
                ctx.state("face", mesh.name, frame, kind)

                def judge(got, data, what):
                    expect(got.shape == (len(qs),), "shape %s", got.shape)
                    for q, g, (strict, touch) in zip(qs, np.ma.filled(got, 12345.0).tolist(), ref):
                        ctx.transitions += 1
                        if strict is not None:
                            w = float(data[strict])
                            expect(g == w or (g != g and w != w), "%s in face %d: got %s, expected %s", what, strict, g, w)
                        elif not touch:
                            expect(g == 0, "%s outside the mesh: got %s", what, g)
                        else:
                            ok = any(g == float(data[t]) for t in touch) or (g == 0 and mesh.on_outer_boundary(q))
                            ok = ok or any(data[t] != data[t] for t in touch)
                            expect(ok, "%s on edge (%s, %s): got %s", what, q[0], q[1], g)

                def face():
                    ramp = np.arange(F) * 10.0 + 5
                    nanlast = ramp.copy()
                    nanlast[-1] = np.nan
                    forms = [("ramp", ramp, {"location": "face"}, ramp), ("nan in last face", nanlast, {"location": "face"}, nanlast),
                             ("int", ramp.astype(int), {"location": "face"}, ramp),
                             ("slices", np.stack([ramp, -ramp]), {"location": "face", "slices": (1,)}, -ramp),
                             ("attribute", Slicable(ramp, "face"), {}, ramp)]
                    if N != F:
                        forms.append(("inferred", ramp, {}, ramp))
                    for what, var, kw, data in forms:
                        for rep in range(2):
                            judge(grid.interpolate_var_to_points(pts, var, **kw), data, what)
                    ctx.outcome(mesh.name, kind)

                ctx.case(key + "face data", face)


# meshes whose counts of nodes, faces and boundaries coincide in every way
RING = [(2, 0), (0, 2), (-2, 0), (0, -2)]
COUNTED = {
    "N4 F3": ([(0, 0), (4, 0), (2, 4), (2, 1)], [(0, 1, 3), (1, 2, 3), (2, 0, 3)]),
    "N5 F4": ([(0, 0)] + RING, [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1)]),
    "N6 F6": ([(0, 0)] + RING + [(4, 1)], [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1), (1, 5, 2), (1, 4, 5)]),
    "N7 F7": ([(0, 0)] + RING + [(3, 3), (3, -3)], [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 1), (1, 5, 2), (1, 6, 5), (1, 4, 6)]),
    "N3 F1": ([(0, 0), (4, 0), (0, 4)], [(0, 1, 2)]),
    "N4 F2": ([(0, 0), (4, 0), (0, 4), (4, 4)], [(0, 1, 2), (1, 3, 2)]),
    "N6 F2": ([(0, 0), (4, 0), (0, 4), (10, 0), (14, 0), (10, 4)], [(0, 1, 2), (3, 4, 5)]),
}


def run_infer(ctx, unit):
    from gridded.grids import Grid_U

    (name,) = unit
    nodes, faces = COUNTED[name]
    mesh = M.Mesh(name, nodes, faces)
    N, F = len(nodes), len(faces)
    cnt = {}
    for f in faces:
        for j in range(3):
            e = tuple(sorted((f[j], f[(j + 1) % 3])))
            cnt[e] = cnt.get(e, 0) + 1
    B = sum(1 for v in cnt.values() if v == 1)

    for bounds in (False, True):
        def infer():
            g = Grid_U(nodes=np.array(nodes, float), faces=np.array(faces))
            if bounds:
                g.build_boundaries()
            for size in range(0, 16):
                for lead in ((), (2,), (3, 2)):
                    ctx.step()
                    want = "node" if size == N else "face" if size == F else "boundary" if bounds and size == B else None
                    got = g.infer_location(np.zeros(lead + (size,)))
                    expect(got == want, "data of shape %s on %d nodes, %d faces, %s boundaries: %s, expected %s", lead + (size,), N, F, B if bounds else "no", got, want)
                    ctx.state(name, bounds, size)
                    ctx.outcome(got)

        def use():
            g = Grid_U(nodes=np.array(nodes, float), faces=np.array(faces))
            if bounds:
                g.build_boundaries()
            qs = [(Fraction(sum(nodes[k][0] for k in f), 3) + Fraction(1, 8), Fraction(sum(nodes[k][1] for k in f), 3)) for f in faces]
            pts = np.array([[float(a), float(b)] for a, b in qs])
            for size, data in ((N, np.arange(N) ** 2 + 1.0), (F, np.arange(F) * 10.0 + 3)):
                got = np.asarray(g.interpolate_var_to_points(pts, data)).ravel()
                for q, v, i in zip(qs, got, range(F)):
                    strict, _ = mesh.where(q)
                    if strict is None:
                        continue
                    ctx.step()
                    if size == N:
                        f = faces[strict]
                        want = float(sum(w * int(data[k]) for w, k in zip(M.bary([nodes[k] for k in f], q), f)))
                    else:
                        want = data[strict]
                    expect(abs(v - want) < 1e-9 * max(1, abs(want)), "%d values without a location on %d nodes, %d faces: %s at %s, expected %s", size, N, F, v, q, want)

        ctx.case("infer %s bounds=%s" % (name, bounds), infer)
        ctx.case("use %s bounds=%s" % (name, bounds), use)


def run_columns(ctx, unit):
    """Several values per node or face (the columns of two-dimensional data), for any number of points."""
    from gridded.grids import Grid_U

    tier, k, n = unit
    fam = itertools.chain(itertools.islice(tri_families(tier), 0, None, 1 if tier == "thorough" else 5), (M.Mesh(m, *v) for m, v in COUNTED.items()))
    for mesh in itertools.islice(fam, k, None, n):
        N, F = len(mesh.nodes), len(mesh.faces)
        qs = [(q, s) for q, s in ((q, mesh.where(q)[0]) for q in M.queries(mesh, 1, 3)) if s is not None]
        qs = qs[:: max(1, len(qs) // 6)][:6]
        if not qs:
            continue
        grid = ctx.case(mesh.name + " build", lambda: Grid_U(nodes=np.array(M.place(mesh.nodes, "unit")), faces=M.face_array(mesh)))
        if grid is None:
            continue
        pts = np.array(M.place([q for q, _ in qs], "unit"))
        bary = [M.bary([mesh.nodes[i] for i in mesh.faces[s]], q) for q, s in qs]
        for c in (1, 2, 3, 4, 5, N, F):
            node = np.array([[float((a * a * 3 + 5 * b + a * b) % 17) for b in range(c)] for a in range(N)])
            face = np.array([[float((a * 7 + 5 * b + a * b) % 19) for b in range(c)] for a in range(F)])
            wn = np.array([sum(float(w) * node[i] for i, w in zip(mesh.faces[s], bb)) for (q, s), bb in zip(qs, bary)])
            wf = np.array([face[s] for q, s in qs])

            def body():
                for m in range(1, len(qs) + 1):
                    for loc, data, want in (("node", node, wn), ("face", face, wf)):
                        for memo in (False, True):
                            got = np.ma.filled(grid.interpolate_var_to_points(pts[:m], data, location=loc, _memo=memo), np.nan)
                            ctx.step()
                            expect(got.shape == (m, c), "%d points, %d columns: shape %s", m, c, got.shape)
                            expect(np.all(np.abs(got - want[:m]) < 1e-9 * 40), "%d points, %d columns of %s data: %s, not %s", m, c, loc, got.tolist(), want[:m].tolist())
                        got = np.ma.filled(grid.interpolate_var_to_points(pts[:m], np.stack((data * 0, data)), location=loc, slices=(1,)), np.nan)
                        expect(got.shape == (m, c) and np.all(np.abs(got - want[:m]) < 1e-9 * 40), "%d points, %d columns of %s data, sliced: %s", m, c, loc, got.tolist())
                far = np.array([[500.0, 500.0]])
                for loc, data in (("node", node), ("face", face)):
                    got = np.asarray(grid.interpolate_var_to_points(np.concatenate((far, pts)), data, location=loc))
                    expect(np.all(got[0] == 0) and np.any(got[1:] != 0) == np.any((wn if loc == "node" else wf) != 0), "outside: %s", got[0])

            ctx.case("%s %d columns" % (mesh.name, c), body)
            ctx.state(mesh.name, c)
            ctx.outcome(c, len(qs), N, F)


def units(tier):
    return [[tier, k, 96] for k in range(96)]


SPACES = [
    Space("fine", fine.units, fine.run_u_values, fine.BOUNDS),
    Space("node-data", units, run_nodes,
          "every lattice triangle/vertex order, every disjoint triangle pair, every diagonal choice of the 2x2 mesh; complete basis of node data; lattice queries"),
    Space("face-data", units, run_faces, "every quad/triangle mix of the 2x2 mesh (3 warps) and a third (thorough: all) of the triangle families; distinct value per face, NaN and integer data"),
    Space("inferred-location", lambda tier: [[k] for k in COUNTED], run_infer,
          "meshes whose node, face and boundary counts coincide or differ, with and without boundaries, data of every trailing size 0..15"),
    Space("columns", units, run_columns, "a fifth (thorough: all) of the triangle families and the coinciding-count meshes x 1-5, N, F values per node or face x batches of 1-6 points, memo on and off, whole or sliced"),
    Space("corners", lambda tier: units_corner(tier, "U"), run_corner, "points within 2^-8 to 2^-40 of every corner, one by one and together, twice, remembered and not"),
    Space("sizes", Z.units_strip, Z.run_values_u, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) of triangles or mixed faces, node and face data"),
]
ASSUMPTIONS = ["linearity of interpolation in the data (confirmed per mesh by unit vectors one at a time and by linear fields)",
               "node interpolation is claimed for triangular faces, face data for any convex faces"]
