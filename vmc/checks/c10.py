"""C10 -- unstructured grids: derived topology (edges, neighbours, boundaries,
face-edge links, representative coordinates) of every small mesh."""
import functools
import itertools
from collections import Counter

import numpy as np

from .. import sizes as Z
from ..core import Space, expect

POS = [(0.0, 0.0), (4.0, 1.0), (5.5, 6.25), (-1.0, 7.0), (2.0, -3.5), (9.0, 2.0), (-4.25, 3.0)]


def edges_of(f):
    return [(f[j], f[(j + 1) % len(f)]) for j in range(len(f))]


def manifold(faces):
    c = Counter(tuple(sorted(e)) for f in faces for e in edges_of(f))
    return max(c.values()) <= 2


@functools.lru_cache(None)
def tri_meshes(nn, kmax):
    T = list(itertools.combinations(range(nn), 3))
    return [s for k in range(1, kmax + 1) for s in itertools.combinations(T, k) if manifold(s)]


@functools.lru_cache(None)
def quad_meshes(nn, kmax):
    Q = []
    for c in itertools.combinations(range(nn), 4):
        a, b, d, e = c
        Q += [(a, b, d, e), (a, b, e, d), (a, d, b, e)]
    return [s for k in range(1, kmax + 1) for s in itertools.combinations(Q, k) if manifold(s)]


def reorder(f, v):
    """variant v of a face: rotations, then reversed rotations."""
    n = len(f)
    g = f if v < n else f[::-1]
    r = v % n
    return g[r:] + g[:r]


def variants(faces, full):
    n = len(faces[0])
    k = len(faces)
    if (2 * n) ** k <= full:
        for vs in itertools.product(range(2 * n), repeat=k):
            yield vs
    else:
        yield (0,) * k
        yield tuple(range(k))
        yield tuple((n + i) % (2 * n) for i in range(k))
        yield tuple((i * 2 + 1) % (2 * n) for i in range(k))


def units(tier):
    n = 6 if tier == "thorough" else 5
    return [["tri", n, 10 if n == 5 else 6, i, 64] for i in range(64)] + [["quad", 6, 3 if tier == "thorough" else 2, i, 32] for i in range(32)]


def check_grid(ctx, grid, faces, nodes, order):
    """Run the builders in `order`, then check whatever they produced."""
    for b in order:
        getattr(grid, "build_" + b)()
        ctx.transitions += 1
    F = len(faces)
    owner = {}
    for i, f in enumerate(faces):
        for j, e in enumerate(edges_of(f)):
            owner.setdefault(tuple(sorted(e)), []).append((i, j))
    kept = [tuple(x for x in r if x >= 0) for r in np.ma.filled(grid.faces, -1).tolist()]
    expect(kept == [tuple(f) for f in faces], "faces changed: %s", grid.faces)
    if "edges" in order:
        got = [tuple(sorted(e)) for e in np.asarray(grid.edges).tolist()]
        expect(np.asarray(grid.edges).shape == (len(owner), 2), "edges shape %s, expected %d edges", np.asarray(grid.edges).shape, len(owner))
        expect(len(set(got)) == len(got) and set(got) == set(owner), "edges %s, expected %s", sorted(got), sorted(owner))
    if "face_face_connectivity" in order or "boundaries" in order:
        ff = np.asarray(grid.face_face_connectivity).tolist()
        expect(len(ff) == F, "face_face_connectivity has %d rows", len(ff))
        for i, f in enumerate(faces):
            for j, e in enumerate(edges_of(f)):
                others = [x for x in owner[tuple(sorted(e))] if x != (i, j)]
                want = others[0][0] if others else -1
                expect(ff[i][j] == want, "neighbour of face %d across edge %s is %s, expected %s", i, e, ff[i][j], want)
    if "boundaries" in order:
        got = sorted(tuple(b) for b in np.asarray(grid.boundaries).reshape(-1, 2).tolist())
        want = sorted(edges_of(faces[o[0][0]])[o[0][1]] for e, o in owner.items() if len(o) == 1)
        expect(got == want, "boundaries %s, expected %s", got, want)
    if "face_edge_connectivity" in order:
        fe = np.asarray(grid.face_edge_connectivity).tolist()
        ed = [tuple(sorted(e)) for e in np.asarray(grid.edges).tolist()]
        expect(len(fe) == F, "face_edge_connectivity has %d rows", len(fe))
        for i, f in enumerate(faces):
            for j, e in enumerate(edges_of(f)):
                expect(ed[fe[i][j]] == tuple(sorted(e)), "edge %d of face %d is %s, expected %s", j, i, ed[fe[i][j]], e)
    P = np.asarray(nodes)
    if "face_coordinates" in order:
        expect(np.allclose(grid.face_coordinates, [P[list(f)].mean(axis=0) for f in faces], atol=1e-12), "face_coordinates %s", grid.face_coordinates)
    if "edge_coordinates" in order:
        expect(np.allclose(grid.edge_coordinates, [P[list(e)].mean(axis=0) for e in grid.edges], atol=1e-12), "edge_coordinates %s", grid.edge_coordinates)
    if "boundary_coordinates" in order and len(np.asarray(grid.boundaries)):
        expect(np.allclose(grid.boundary_coordinates, [P[list(e)].mean(axis=0) for e in grid.boundaries], atol=1e-12), "boundary_coordinates")
    if "edges" in order:
        lines = np.asarray(grid.get_lines())
        expect(lines.shape == (len(owner), 2, 2) and np.array_equal(lines, P[np.asarray(grid.edges)]), "get_lines %s", lines.shape)


ORDERS = [
    ("edges", "face_edge_connectivity", "edge_coordinates", "face_face_connectivity", "boundaries", "face_coordinates"),
    ("boundaries", "edges", "face_coordinates", "edge_coordinates", "face_edge_connectivity"),
    ("face_face_connectivity", "face_face_connectivity", "edges", "edges", "boundaries", "boundaries"),
]


def run(ctx, unit):
    from gridded.pyugrid.ugrid import UGrid

    kind, nn, kmax, part, n = unit
    base = tri_meshes(nn, kmax) if kind == "tri" else quad_meshes(nn, kmax)
    nodes = np.array(POS[:nn])
    for mi, faces in enumerate(itertools.islice(base, part, None, n)):
        ctx.state(kind, nn, faces)
        for vi, vs in enumerate(variants(faces, 240)):
            fs = [reorder(f, v) for f, v in zip(faces, vs)]
            if sum(vs) % 2:
                fs = fs[::-1]
            orders = ORDERS if vi == 0 else [ORDERS[vi % 3]]
            for oi, order in enumerate(orders):
                order = tuple(b for b in order if True)

                def one():
                    g = UGrid(nodes=nodes, faces=np.array(fs, dtype=np.int32))
                    o = order
                    has_boundary = any(v == 1 for v in Counter(tuple(sorted(e)) for f in fs for e in edges_of(f)).values())
                    if "boundaries" in o and has_boundary:
                        o = o + ("boundary_coordinates",)
                    check_grid(ctx, g, fs, nodes, o)
                    expect(g.num_vertices == len(fs[0]), "num_vertices %s", g.num_vertices)
                    ctx.outcome(len(fs), np.asarray(g.boundaries).shape)

                ctx.case("%s %s %s" % (kind, fs, order), one)
            if vi == 0:

                def get_lines():
                    g = UGrid(nodes=nodes, faces=np.array(fs))
                    lines = np.asarray(g.get_lines())
                    owner = {tuple(sorted(e)) for f in fs for e in edges_of(f)}
                    expect(len(lines) == len(owner), "get_lines without edges gave %d lines, expected %d", len(lines), len(owner))
                    ctx.step()

                ctx.case("%s %s lines" % (kind, fs), get_lines)


# --- mixed faces -----------------------------------------------------------

@functools.lru_cache(None)
def mixed_meshes(nn, tri):
    """one or two quads (or a pentagon) with 0..tri triangles (at least two kinds of face)"""
    T = list(itertools.combinations(range(nn), 3))
    Q = [m[0] for m in quad_meshes(nn, 1)]
    big = [(q,) for q in Q] + [p for p in itertools.combinations(Q[:6], 2) if manifold(p)]
    big += [((0, 1, 2, 3, 4),), ((0, 2, 4, 1, 3),), ((0, 1, 2, 3, 4), Q[0])]
    out = []
    for b in big:
        for k in range(0, tri + 1):
            for t in itertools.combinations(T, k):
                m = b + t
                if len({len(x) for x in m}) > 1 and manifold(m):
                    out.append(m)
    return out


FILLS = ("plain", "masked -1", "masked 0", "masked -999", "masked 99", "nomask-ma")


def flex_array(faces, fill):
    w = max(map(len, faces))
    a = np.full((len(faces), w), int(fill.split()[-1]) if fill.startswith("masked") else -1, dtype=np.int32)
    mask = np.ones(a.shape, dtype=bool)
    for i, f in enumerate(faces):
        a[i, :len(f)] = f
        mask[i, :len(f)] = False
    if fill == "plain":
        return a
    return np.ma.MaskedArray(a) if fill == "nomask-ma" else np.ma.MaskedArray(a, mask=mask)


def units_mixed(tier):
    return [[5 if tier != "thorough" else 6, 2, i, 48] for i in range(48)]


def run_mixed(ctx, unit):
    from gridded.pyugrid.ugrid import UGrid

    nn, tri, part, n = unit
    nodes = np.array(POS[:nn])
    for mi, faces in enumerate(itertools.islice(mixed_meshes(nn, tri), part, None, n)):
        ctx.state("mixed", nn, faces)
        for vi in range(4):
            fs = [reorder(f, (vi * (i + 1) + (vi // 2) * len(f)) % (2 * len(f))) for i, f in enumerate(faces)]
            if vi % 2:
                fs = fs[::-1]
            for fi, fill in enumerate(FILLS):
                if vi and (fi + vi + mi) % 3:
                    continue
                order = ORDERS[(vi + fi) % 3]

                def one():
                    src = flex_array(fs, fill)
                    keep = src.copy()
                    g = UGrid(nodes=nodes, faces=src)
                    o = order
                    if "boundaries" in o and any(v == 1 for v in Counter(tuple(sorted(e)) for f in fs for e in edges_of(f)).values()):
                        o = o + ("boundary_coordinates",)
                    check_grid(ctx, g, fs, nodes, o)
                    expect(np.array_equal(np.ma.getdata(src), np.ma.getdata(keep)) and np.array_equal(np.ma.getmaskarray(src), np.ma.getmaskarray(keep)), "the caller's faces were changed")
                    ctx.outcome(len(fs), np.asarray(g.boundaries).shape)

                ctx.case("mixed %s %s %s" % (fs, fill, order), one)


# --- edges given by the caller ------------------------------------------------

def units_given(tier):
    return [[i, 32, tier] for i in range(32)]


def run_given(ctx, unit):
    from gridded.pyugrid.ugrid import UGrid

    part, n, tier = unit
    meshes = [m for m in tri_meshes(5, 3 if tier == "thorough" else 2)] + [m for m in quad_meshes(6, 1)] + [m for m in mixed_meshes(5, 1)][::7]
    for mi, faces in enumerate(itertools.islice(meshes, part, None, n)):
        owner = sorted({tuple(sorted(e)) for f in faces for e in edges_of(f)})
        nodes = np.array(POS[:6])
        for bits in range(1, 2 ** len(owner)):
            sub = [e for k, e in enumerate(owner) if bits >> k & 1]
            sub = [e[::-1] if (k + bits) % 2 else e for k, e in enumerate(sub)]
            sub = sub[bits % len(sub):] + sub[:bits % len(sub)]

            def one():
                arr = np.array(sub, dtype=np.int32)
                g = UGrid(nodes=nodes, faces=flex_array(faces, "masked -1" if len({len(f) for f in faces}) > 1 else "plain"), edges=arr)
                g.build_face_edge_connectivity()
                fe = g.face_edge_connectivity
                got = np.asarray(np.ma.filled(fe, -1)).tolist()
                want = [[next((k for k, x in enumerate(sub) if sorted(x) == sorted(e)), -1) for e in edges_of(f)] for f in faces]
                for i, (a, b) in enumerate(zip(got, want)):
                    expect(a[:len(b)] == b and all(x == -1 for x in a[len(b):]), "edges %s of face %s: %s, expected %s", sub, faces[i], a, b)
                    ctx.step()
                expect([tuple(e) for e in np.asarray(g.edges).tolist()] == [tuple(e) for e in sub], "the edges were changed")
                ctx.outcome(len(sub))

            ctx.case("given %s %s" % (faces, sub), one)
        ctx.state("given", faces)


# --- which face arrays are accepted ----------------------------------------

def units_accept(tier):
    return [[a, N] for N in (3, 4) for a in range(-2, N + 2)]


def run_accept(ctx, unit):
    from gridded.pyugrid.ugrid import UGrid

    a, N = unit
    nodes = POS[:N]
    for rest in itertools.product(range(-2, N + 2), repeat=3):
        arr = np.array([[a, rest[0], rest[1]], [0 if min((a,) + rest) < 1 else 1, rest[2], rest[2]]])
        lo, hi = arr.min(), arr.max()
        if hi > N or lo < -1:
            want = None
        elif hi == N:
            want = arr - 1 if lo >= 1 else None
        else:
            want = arr
        for form in ("list", "int32", "int64"):
            src = arr.tolist() if form == "list" else arr.astype(form)

            def one():
                ctx.step()
                try:
                    g = UGrid(nodes=nodes, faces=src)
                    expect(want is not None, "accepted face indexes %s for %d nodes", arr.tolist(), N)
                    expect(np.array_equal(g.faces, want), "faces %s, expected %s", g.faces, want)
                except ValueError:
                    expect(want is None, "rejected face indexes %s for %d nodes", arr.tolist(), N)
                if form != "list":
                    expect(np.array_equal(src, arr), "the caller's array was changed to %s", src)
                ctx.state("accept", N, int(lo), int(hi))
                ctx.outcome(want is None)

            ctx.case("accept N=%d %s %s" % (N, arr.tolist(), form), one)


SPACES = [
    Space("all-small-meshes", units, run,
          "every edge-manifold set of triangles on 5 nodes (thorough: up to 6 triangles on 6 nodes) and every pair (thorough: triple) of quads on 6 "
          "nodes; all vertex rotations/reversals while <=240 per mesh, 4 patterns beyond; 3 builder orders"),
    Space("mixed-meshes", units_mixed, run_mixed, "every edge-manifold set of one or two quads, or a pentagon, with up to 2 triangles (at least two kinds of face) on 5 (thorough 6) nodes; 4 rotations and directions x 6 ways "
          "of storing unused entries x builder orders"),
    Space("given-edges", units_given, run_given, "every subset of the edges of every set of up to 2 (thorough 3) triangles, every quad and a seventh of the mixed meshes, in either direction and turned order"),
    Space("face-index-acceptance", units_accept, run_accept, "all pairs of faces with indexes in [-2, N+1] for N=3,4 (4 free entries) x 3 containers"),
    Space("sizes", lambda tier: [u for u in Z.units_strip(tier) if u[0] < (40000 if tier == "thorough" else 600)], Z.run_topology, "strips of 126-129, 254-258 (thorough: 32766-32769) triangles or mixed faces"),
]
ASSUMPTIONS = ["every edge belongs to at most two faces", "faces have the same number of vertices"]
