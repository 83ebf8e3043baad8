"""Small logically rectangular grids with exact geometry.

A grid is a rectangle of integer node coordinates `nodes[i][j]`; row i is the
first array axis, column j the second.  Cell (i, j) has the corners (i, j),
(i, j+1), (i+1, j+1), (i+1, j).  Query points are images of dyadic in-cell
coordinates (l along columns, m along rows) under the bilinear map, so the
expected interpolation weights are known without inverting anything.
"""
import itertools
from fractions import Fraction as Fr

import numpy as np

from . import meshes as M

WARPS = {
    "rect": lambda i, j: (4 * j, 4 * i),
    "aniso": lambda i, j: (2 * j * j + 2 * j, 4 * i + i * i),
    "shear": lambda i, j: (4 * j + 2 * i, 4 * i),
    "fan": lambda i, j: (j * (4 + i), 4 * i),
    "fan2": lambda i, j: (4 * j, i * (4 + 2 * j)),
    "warp": lambda i, j: (8 * j + (i * j) % 3, 8 * i + (i + 2 * j) % 2),
    "warp2": lambda i, j: (8 * j - (i * (j + 1)) % 2, 8 * i + (2 * i + j) % 3),
}
TURNS = {  # the eight symmetries of the square, and a 45 degree turn both ways
    "e": (1, 0, 0, 1), "r": (0, -1, 1, 0), "rr": (-1, 0, 0, -1), "rrr": (0, 1, -1, 0),
    "fx": (-1, 0, 0, 1), "fy": (1, 0, 0, -1), "d": (0, 1, 1, 0), "a": (0, -1, -1, 0),
    "q": (1, -1, 1, 1), "qf": (-1, 1, 1, 1), "s": (1, 2, 0, 1), "k": (3, 1, -1, 3),
}


class SG:
    def __init__(self, name, nodes):
        self.name = name
        self.nodes = nodes
        self.M, self.N = len(nodes), len(nodes[0])

    @property
    def cells(self):
        return [(i, j) for i in range(self.M - 1) for j in range(self.N - 1)]

    def poly(self, c):
        i, j = c
        n = self.nodes
        return [n[i][j], n[i][j + 1], n[i + 1][j + 1], n[i + 1][j]]

    def image(self, c, l, m):
        a, b, cc, d = self.poly(c)
        w = ((1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m)
        return tuple(sum(wk * p[k] for wk, p in zip(w, (a, b, cc, d))) for k in (0, 1))

    def valid(self):
        P = [self.poly(c) for c in self.cells]
        if not all(M.strictly_convex(p) for p in P):
            return False
        return not any(M._interiors_overlap(p, q) for p, q in itertools.combinations(P, 2))

    def where(self, p, live=None):
        strict, touch = None, []
        for c in self.cells:
            if live is not None and c not in live:
                continue
            r = M.in_poly(self.poly(c), p)
            if r > 0:
                strict = c
            if r >= 0:
                touch.append(c)
        return strict, touch

    def arrays(self, frame="unit"):
        sx, sy, ox, oy = M.FRAMES[frame]
        lon = np.array([[float(p[0]) * sx + ox for p in row] for row in self.nodes])
        lat = np.array([[float(p[1]) * sy + oy for p in row] for row in self.nodes])
        return lon, lat


def grid(warp, turn, Mr, Nc):
    t = TURNS[turn]
    f = WARPS[warp]
    nodes = []
    for i in range(Mr):
        row = []
        for j in range(Nc):
            x, y = f(i, j)
            row.append((t[0] * x + t[1] * y, t[2] * x + t[3] * y))
        nodes.append(row)
    return SG("%s/%s/%dx%d" % (warp, turn, Mr, Nc), nodes)


def labelled_quads(n=4):
    """Every strictly convex quadrilateral with corners on the n x n lattice,
    once per way of laying it on a 2x2 node array (4 starts x 2 directions)."""
    lat = [(x, y) for y in range(n) for x in range(n)]
    for a, b, c, d in itertools.permutations(range(len(lat)), 4):
        P = [lat[a], lat[b], lat[c], lat[d]]
        if M.strictly_convex(P):
            yield SG("quad%s" % (tuple(P),), [[P[0], P[1]], [P[3], P[2]]])


LM = [(Fr(a, 4), Fr(b, 4)) for a in (0, 1, 2, 3, 4) for b in (0, 1, 2, 3, 4)]
LM_IN = [(Fr(a, 8), Fr(b, 8)) for a, b in ((1, 2), (4, 4), (5, 1), (2, 7), (7, 6))]

PAD = ("none", "low", "high", "both")
EXTRA = {"none": (0, 0), "low": (1, 0), "high": (0, 1), "both": (1, 1), None: (0, 0)}


def padded_shape(shape, pad):
    return tuple(n + sum(EXTRA[p]) for n, p in zip(shape, pad))


def offset(pad):
    return tuple(EXTRA[p][0] for p in pad)


def values(shape, salt=0):
    """Distinct, non-affine integer data (so that any index slip shows)."""
    n = int(np.prod(shape))
    v = [((k + 3 + salt) * (k + 3 + salt) * 7 + 13 * (k + salt)) % 997 - 350 for k in range(n)]
    return np.array(v, dtype=float).reshape(shape)
