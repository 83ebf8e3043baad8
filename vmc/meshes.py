"""Exhaustive families of small planar meshes and exact geometry on them.

Coordinates are integers on a small lattice; implementation coordinates are
`(x * sx + ox, y * sy + oy)` with dyadic scales, so they are exact in binary.
"""
import functools
import itertools
from fractions import Fraction

LAT3 = [(x, y) for y in range(3) for x in range(3)]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def in_poly(poly, p):
    """+1 strictly inside, 0 on the boundary, -1 outside (convex polygon,
    either orientation)."""
    s = [orient(poly[i], poly[(i + 1) % len(poly)], p) for i in range(len(poly))]
    if all(v > 0 for v in s) or all(v < 0 for v in s):
        return 1
    if all(v >= 0 for v in s) or all(v <= 0 for v in s):
        return 0
    return -1


def strictly_convex(poly):
    s = [orient(poly[i], poly[(i + 1) % len(poly)], poly[(i + 2) % len(poly)]) for i in range(len(poly))]
    return all(v > 0 for v in s) or all(v < 0 for v in s)


def _flipped(nodes, faces):
    """True if two faces overlap (a warped node turned a triangle over)."""
    P = [[nodes[k] for k in f] for f in faces]
    return any(_interiors_overlap(a, b) for a, b in itertools.combinations(P, 2))


def bary(tri, p):
    a, b, c = tri
    d = orient(a, b, c)
    return (Fraction(orient(p, b, c), d), Fraction(orient(a, p, c), d), Fraction(orient(a, b, p), d))


@functools.lru_cache(None)
def lattice_triangles(n=9):
    return tuple(t for t in itertools.combinations(range(n), 3) if orient(*(LAT3[i] for i in t)) != 0)


def _interiors_overlap(P, Q):
    # separating axis test on open convex polygons with integer coordinates
    for A, B in ((P, Q), (Q, P)):
        m = len(A)
        ctr = sum(orient(A[0], A[1], A[2]) for _ in (0,))
        sgn = 1 if ctr > 0 else -1
        for i in range(m):
            a, b = A[i], A[(i + 1) % m]
            if all(sgn * orient(a, b, q) <= 0 for q in B):
                return False
    return True


@functools.lru_cache(None)
def disjoint_pairs():
    T = lattice_triangles()
    out = []
    for s, t in itertools.combinations(T, 2):
        if not _interiors_overlap([LAT3[i] for i in s], [LAT3[i] for i in t]):
            out.append((s, t))
    return tuple(out)


class Mesh:
    """nodes: integer coordinate tuples; faces: tuples of node numbers."""

    def __init__(self, name, nodes, faces):
        self.name = name
        self.nodes = list(nodes)
        self.faces = [tuple(f) for f in faces]

    def poly(self, i):
        return [self.nodes[k] for k in self.faces[i]]

    def where(self, p):
        """(strict, touching): the face that strictly contains p or None, and
        every face whose closure contains p."""
        strict, touch = None, []
        for i in range(len(self.faces)):
            r = in_poly(self.poly(i), p)
            if r > 0:
                strict = i
            if r >= 0:
                touch.append(i)
        return strict, touch

    def width(self):
        return max(len(f) for f in self.faces)

    def on_outer_boundary(self, p):
        """p lies on an edge used by one face only."""
        cnt = {}
        for f in self.faces:
            for j in range(len(f)):
                e = tuple(sorted((f[j], f[(j + 1) % len(f)])))
                cnt[e] = cnt.get(e, 0) + 1
        for (a, b), n in cnt.items():
            A, B = self.nodes[a], self.nodes[b]
            if n == 1 and orient(A, B, p) == 0 and min(A[0], B[0]) <= p[0] <= max(A[0], B[0]) and min(A[1], B[1]) <= p[1] <= max(A[1], B[1]):
                return True
        return False


def compact(nodes, faces):
    """Drop unused nodes and renumber."""
    used = sorted({k for f in faces for k in f})
    m = {k: i for i, k in enumerate(used)}
    return [nodes[k] for k in used], [tuple(m[k] for k in f) for f in faces]


PERM3 = list(itertools.permutations(range(3)))


def on_rough_edge(mesh, p):
    """p lies on an edge whose slope no double holds: a cell tree that rounds may
    leave a hairline there."""
    def dyadic(n, d):
        d = Fraction(n, d).denominator if d else 1
        return d & (d - 1) == 0

    for f in mesh.faces:
        for j in range(len(f)):
            A, B = mesh.nodes[f[j]], mesh.nodes[f[(j + 1) % len(f)]]
            if orient(A, B, p) == 0 and not (dyadic(B[0] - A[0], B[1] - A[1]) and dyadic(B[1] - A[1], B[0] - A[0])):
                return True
    return False


def single_triangles():
    """Every lattice triangle with every vertex order."""
    for t in lattice_triangles():
        for p in PERM3:
            f = tuple(t[k] for k in p)
            n, fs = compact(LAT3, [f])
            yield Mesh("tri%s" % (f,), n, fs)


def triangle_pairs(variants=4):
    """Every pair of interior-disjoint lattice triangles; vertex orders vary."""
    orders = [(PERM3[0], PERM3[0]), (PERM3[1], PERM3[0]), (PERM3[3], PERM3[5]), (PERM3[2], PERM3[4])][:variants]
    for s, t in disjoint_pairs():
        for a, b in orders:
            f = [tuple(s[k] for k in a), tuple(t[k] for k in b)]
            n, fs = compact(LAT3, f)
            yield Mesh("pair%s" % (f,), n, fs)


def cell(i, j, w=3):
    k = j * w + i
    return (k, k + 1, k + w + 1, k + w)


def diagonal_meshes(perm=None, warp=None):
    """2x2 cells, every choice of diagonal; orientation ccw/cw/mixed."""
    nodes = [(2 * x, 2 * y) for x, y in LAT3]
    if warp:
        nodes[4] = (nodes[4][0] + warp[0], nodes[4][1] + warp[1])
    for bits in itertools.product((0, 1), repeat=4):
        for orr in ("ccw", "cw", "mixed"):
            faces = []
            for c, (i, j) in enumerate(itertools.product(range(2), range(2))):
                a, b, cc, d = cell(i, j)
                two = [(a, b, cc), (a, cc, d)] if bits[c] else [(a, b, d), (b, cc, d)]
                for k, f in enumerate(two):
                    if orr == "cw" or (orr == "mixed" and (c + k) % 2):
                        f = f[::-1]
                    faces.append(f)
            if not all(strictly_convex([nodes[k] for k in f]) for f in faces) or _flipped(nodes, faces):
                continue
            n2, f2 = nodes, faces
            if perm:
                n2 = [None] * 9
                for old, new in enumerate(perm):
                    n2[new] = nodes[old]
                f2 = [tuple(perm[k] for k in f) for f in faces]
            yield Mesh("diag%s%s%s%s" % ("".join(map(str, bits)), orr, "" if perm is None else "p", warp or ""), n2, f2)


def flexible_meshes(warp=None):
    """2x2 cells, each a quad or split along either diagonal."""
    nodes = [(2 * x, 2 * y) for x, y in LAT3]
    if warp:
        nodes[4] = (nodes[4][0] + warp[0], nodes[4][1] + warp[1])
    for kinds in itertools.product((0, 1, 2), repeat=4):
        faces = []
        for c, (i, j) in enumerate(itertools.product(range(2), range(2))):
            a, b, cc, d = cell(i, j)
            if kinds[c] == 0:
                f = (a, b, cc, d)
                faces.append(f if c % 2 else f[::-1])
            elif kinds[c] == 1:
                faces += [(a, b, cc), (d, cc, a)]
            else:
                faces += [(a, b, d), (cc, b, d)]
        if not all(strictly_convex([nodes[k] for k in f]) for f in faces):
            continue
        yield Mesh("flex%s%s" % ("".join(map(str, kinds)), warp or ""), nodes, faces)


OCT = [(3, 1), (1, 3), (-1, 3), (-3, 1), (-3, -1), (-1, -3), (1, -3), (3, -1)]


def polygon_meshes(sizes=(5, 6, 7, 8)):
    """Every polygon on the corners of an octagon, from any corner and either way
    round, alone or within a ring of quads or triangles."""
    for k in sizes:
        for V in itertools.combinations(OCT, k):
            around = in_poly(V, (0, 0)) > 0
            for t in range(k):
                for d in (1, -1):
                    f = tuple((t + d * i) % k for i in range(k))
                    ring = ("", "quads", "triangles")[(t + (d > 0)) % 3] if around else ""
                    nodes, faces = list(V), [f]
                    if ring:
                        nodes += [(2 * x, 2 * y) for x, y in V]
                    for i in range(k if ring else 0):
                        j = (i + 1) % k
                        faces += [(i, j, k + j, k + i)] if ring == "quads" else [(i, j, k + j), (k + j, k + i, i)]
                    if t % 2:
                        faces = faces[1:] + faces[:1]
                    yield Mesh("poly%s/%d%+d%s" % (V, t, d, ring), nodes, faces)


def queries(mesh, pad=1, sub=2):
    """Lattice points with `sub` subdivisions per unit around the mesh."""
    xs = [n[0] for n in mesh.nodes]
    ys = [n[1] for n in mesh.nodes]
    pts = []
    for j in range((min(ys) - pad) * sub, (max(ys) + pad) * sub + 1):
        for i in range((min(xs) - pad) * sub, (max(xs) + pad) * sub + 1):
            pts.append((Fraction(i, sub), Fraction(j, sub)))
    return pts


FRAMES = {  # sx, sy, ox, oy
    "unit": (1.0, 1.0, 0.0, 0.0),
    "west": (0.25, 0.5, -124.5, 47.0),
    "south": (2.0, 1.0, 179.0, -80.0),
    "tiny": (2.0**-10, 2.0**-10, -90.125, 29.0),
}


def place(pts, frame):
    sx, sy, ox, oy = FRAMES[frame]
    return [[float(p[0]) * sx + ox, float(p[1]) * sy + oy] for p in pts]


def face_array(mesh, kind="plain"):
    import numpy as np

    w = mesh.width()
    a = np.full((len(mesh.faces), w), -1, dtype=np.int32)
    for i, f in enumerate(mesh.faces):
        a[i, : len(f)] = f
    if kind == "masked":
        return np.ma.masked_equal(a, -1)
    return a


def mesh_from(desc):
    """Rebuild a mesh from a JSON description [name, nodes, faces]."""
    return Mesh(desc[0], [tuple(n) for n in desc[1]], [tuple(f) for f in desc[2]])


def describe(m):
    return [m.name, [list(n) for n in m.nodes], [list(f) for f in m.faces]]
