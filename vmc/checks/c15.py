"""C15 -- an answer belongs to its point: batches, order, repetition, memory layout.

Every sequence of up to three points (with repetition) over a pool of points
inside, outside, above and below, every permutation and every split of the whole
pool, in every documented layout, for variables on every grid and for the grids'
own location and interpolation calls; each row must equal the exact answer for
that point alone.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from ..core import Space, expect

CONF = [(fx, dn) for fx in F.FIXTURES for dn in ("nodepth", "L3", "L3/layers")]
MINUTE = 3


def pool(fx, dn):
    ds = F.DepthAxis(dn).depths()
    ds = [ds[2], ds[0], ds[-1], ds[5]] if len(ds) > 5 else [Fr(0)] * 4
    ins = [s for s in fx.sites if s[1] is not None]
    out = next(s for s in fx.sites if s[1] is None)
    return [(ins[0], ds[0]), (ins[1], ds[1]), (out, ds[0]), (ins[1], ds[2]), (ins[2], ds[3]), (ins[0], ds[3])]


def coords(seq):
    return np.array([[float(s[0][0]), float(s[0][1]), float(d)] for s, d in seq])


def wants(fx, dn, data, seq, flat=False):
    return [F.reference(fx, "t3", dn, data, s, Fr(0) if flat else d, Fr(MINUTE)) for s, d in seq]


def labels(seq):
    return ["row %d (%s, %s) depth %s" % (i, s[0][0], s[0][1], d) for i, (s, d) in enumerate(seq)]


# --- sequences --------------------------------------------------------------------
def units_seq(tier):
    return [[fx, dn, k] for fx, dn in CONF for k in range(6)]


def run_seq(ctx, unit):
    fxn, dn, first = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, "t3", dn, 7)
    P = pool(fx, dn)
    thorough = os.environ.get("VMC_TIER") == "thorough"
    t = F.at_minute(MINUTE)
    seqs = [(first,) + r for n in range(0, 4 if thorough else 3) for r in itertools.product(range(len(P)), repeat=n)]
    seqs += [(first,) + r for r in itertools.permutations([i for i in range(len(P)) if i != first])]
    seqs += [tuple(range(6)) * 7 + (first,), (first,) * 40, (first,) * 39 + (2,), (2,) * 5 + (first,)]
    for kind in ("fresh", "reused"):
        shared = F.variable(fx, "t3", dn, data.copy()) if kind == "reused" else None
        for sq in seqs:

            def one():
                v = shared if shared is not None else F.variable(fx, "t3", dn, data.copy())
                seq = [P[i] for i in sq]
                got = v.at(coords(seq), t)
                F.compare(ctx, got, wants(fx, dn, data, seq), labels(seq))

            ctx.case("%s %s %s %s" % (fxn, dn, kind, sq if len(sq) < 10 else "%sx%d+%d" % (sq[:6], len(sq), sq[-1])), one)
            ctx.state(fxn, dn, sq[:4])


# --- layouts ----------------------------------------------------------------------
def layouts(a):
    """(name, argument, whether the depth column is there): all denote the same rows."""
    n = len(a)
    ints = bool(np.all(a == np.round(a)))
    for cols in (3, 2):
        b = np.ascontiguousarray(a[:, :cols])
        z = cols == 3
        yield "c%d" % cols, b.copy(), z
        yield "fortran%d" % cols, np.asfortranarray(b), z
        yield "list%d" % cols, b.tolist(), z
        yield "tuple%d" % cols, tuple(map(tuple, b.tolist())), z
        yield "arrays%d" % cols, [r.copy() for r in b], z
        yield "strided%d" % cols, np.repeat(b, 2, axis=0)[::2], z
        yield "colview%d" % cols, np.column_stack((b, b))[:, :cols], z
        r = b.copy()
        r.setflags(write=False)
        yield "readonly%d" % cols, r, z
        yield "big%d" % cols, b.astype(">f8"), z
        yield "masked%d" % cols, np.ma.array(b.copy()), z
        yield "extra%d" % cols, b[np.newaxis], z
        if np.all(b.astype(np.float32) == b):
            yield "f4%d" % cols, b.astype(np.float32), z
        if ints:
            yield "int%d" % cols, b.astype(int), z
        if n >= 4:  # smaller ones are ambiguous and documented to be read by row
            yield "wide%d" % cols, np.ascontiguousarray(b.T), z
            yield "widelist%d" % cols, b.T.tolist(), z
        if n == 1:
            yield "flat%d" % cols, b[0].copy(), z
            yield "flatlist%d" % cols, b[0].tolist(), z
            yield "column%d" % cols, b.T.copy(), z
            yield "column3d%d" % cols, b.T.copy()[np.newaxis], z


def units_lay(tier):
    return [[fx, dn, n] for fx, dn in CONF for n in (1, 2, 3, 4, 6, 9)]


def run_lay(ctx, unit):
    fxn, dn, n = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, "t3", dn, 3)
    P = pool(fx, dn)
    t = F.at_minute(MINUTE)
    for start in range(len(P)):
        seq = [P[(start + i) % len(P)] for i in range(n)]
        for name, arg, z in layouts(coords(seq)):

            def one():
                v = F.variable(fx, "t3", dn, data.copy())
                F.compare(ctx, v.at(arg, t), wants(fx, dn, data, seq, not z), labels(seq))
                F.compare(ctx, v.at(arg, t), wants(fx, dn, data, seq, not z), labels(seq))

            ctx.case("%s %s n=%d from=%d %s" % (fxn, dn, n, start, name), one)
            ctx.state("lay", fxn, dn, n, name)
        for name in ("lists", "arrays", "scalars-in-list", "tuples"):

            def pair():
                v = F.variable(fx, "t3", dn, data.copy())
                a = coords(seq)
                x, y = a[:, 0], a[:, 1]
                if name == "lists":
                    x, y = x.tolist(), y.tolist()
                elif name == "tuples":
                    x, y = tuple(x.tolist()), tuple(y.tolist())
                F.compare(ctx, v.at(lons=x, lats=y, time=t), wants(fx, dn, data, seq, True), labels(seq))

            ctx.case("%s %s n=%d from=%d lons/lats %s" % (fxn, dn, n, start, name), pair)

    def bad():
        v = F.variable(fx, "t3", dn, data.copy())
        for arg in (np.zeros((5, 4)), np.zeros((4,)), [[1, 2, 3, 4], [1, 2, 3, 4], [1, 2, 3, 4], [1, 2, 3, 4]], ["a", "b"]):
            ctx.step()
            try:
                r = v.at(arg, t)
            except (ValueError, TypeError):
                continue
            expect(False, "%r was read as %d points", arg, len(r))
        for kw in ({}, {"lons": [1, 2]}, {"lats": [1, 2]}):
            try:
                v.at(time=t, **kw)
            except ValueError:
                continue
            expect(False, "a query without points was answered")

    ctx.case("%s %s n=%d unreadable" % (fxn, dn, n), bad)


# --- the grids' own calls ------------------------------------------------------------
def units_grid(tier):
    return [[fx, n] for fx in F.FIXTURES for n in (1, 2, 3)]


def run_grid(ctx, unit):
    fxn, n = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, "notime", "nodepth", 1)
    S = fx.sites

    def call(name, g, arr):
        if name == "locate_faces":
            return g.locate_faces(arr)
        if name == "interpolate":
            return g.interpolate_var_to_points(arr, data.copy(), location=fx.loc)
        if name == "locate_memo":
            g.locate_faces(arr, _memo=True)
            return g.locate_faces(arr, _memo=True)
        if name == "nearest":
            return g.locate_nodes(arr) if fxn[0] == "U" else g.locate_nearest(arr, "node")
        return g.index_of(arr)

    names = ["locate_faces", "interpolate"] + (["index_of", "nearest", "locate_memo"] if fxn[0] in "US" else [])
    for name in names:
        single = {}
        for i, (q, w) in enumerate(S):
            single[i] = row(call(name, fx.make(), np.array([[float(q[0]), float(q[1])]])), 0)
        for sq in itertools.product(range(len(S)), repeat=n):
            for reuse in (False, True):

                def one():
                    g = fx.make()
                    arr = np.array([[float(S[i][0][0]), float(S[i][0][1])] for i in sq])
                    if reuse:
                        call(name, g, arr[::-1].copy())
                        call("interpolate", g, arr.copy())
                    r = call(name, g, arr.copy())
                    ctx.step()
                    for k, i in enumerate(sq):
                        expect(row(r, k) == single[i], "%s row %d (%s): %s, alone it gives %s", name, k, S[i][0], row(r, k), single[i])

                ctx.case("grid %s %s %s %s" % (fxn, name, sq, "reused" if reuse else "fresh"), one)
                ctx.state("grid", fxn, name, sq)


def row(r, k):
    v = r[k]
    if np.ma.is_masked(v) and np.ma.getmaskarray(v).all():
        return "masked"
    return tuple(round(float(x), 9) for x in np.atleast_1d(np.ma.filled(v, np.nan if np.asarray(v).dtype.kind == "f" else -999)).reshape(-1))


# --- points that are nearly, or bytewise, those asked for before ---------------------
STEPS = [2.0 ** -k for k in (8, 16, 22, 26, 33, 40)]


def corners(fx):
    return [tuple(map(float, n)) for n in np.ma.getdata(fx.make().nodes).reshape(-1, 2)]


def units_near(tier):
    return [[fx, dn] for fx, dn in CONF]


def plain(r):
    m = np.ma.getmaskarray(r)
    return np.where(m, -999.25, np.ma.filled(np.ma.asarray(r, dtype=float), -999.25))


def run_near(ctx, unit):
    fxn, dn = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, "t3", dn, 7) * 2.0 ** 30
    P = pool(fx, dn)
    t = F.at_minute(MINUTE)

    def alone(pts, when):
        return plain(F.variable(fx, "t3", dn, data.copy()).at(pts, when, _mem=False))

    def history(asked):
        v = F.variable(fx, "t3", dn, data.copy())
        seen = set()
        for k, (pts, when) in enumerate(asked):
            got = plain(v.at(pts.copy(), when))
            want = alone(pts.copy(), when)
            expect(got.shape == want.shape and np.array_equal(got, want), "query %d: %s, alone it gives %s", k, got.tolist(), want.tolist())
            seen.add(want.tobytes())
            ctx.step()
        ctx.outcome(fxn, dn, len(seen))

    bases = [[p] for p in P] + [[P[0], P[1]], [P[4], P[2], P[1]]]
    for bi, base in enumerate(bases):
        a = coords(base)
        for step in STEPS:
            for axis in range(3):
                for sign in (1, -1):
                    b = a.copy()
                    b[-1, axis] += sign * step

                    ctx.case("near %s %s %d axis %d by %s" % (fxn, dn, bi, axis, sign * step), lambda: history([(a, t), (b, t), (a, t), (b, t)]))
        for us in (1, -1, 999, 500000, 60000000):
            when = t + F.timedelta(microseconds=us)
            ctx.case("near %s %s %d later by %d us" % (fxn, dn, bi, us), lambda: history([(a, t), (a, when), (a, t), (a, when)]))
        ctx.state("near", fxn, dn, bi)
    six = coords([P[0], P[1]])
    other = six.reshape(3, 2)
    ctx.case("near %s %s same bytes" % (fxn, dn), lambda: history([(six, t), (other, t), (six, t)]))
    ctx.case("near %s %s same bytes, other way round" % (fxn, dn), lambda: history([(other, t), (six, t), (other, t)]))
    swap = coords(P)[:, [1, 0, 2]]
    ctx.case("near %s %s swapped" % (fxn, dn), lambda: history([(coords(P), t), (swap, t), (coords(P), t)]))


# --- the same cell by cell, without a variable (used by the checks of the grids too) ----
def units_corner(tier, kinds="USR"):
    return [[fxn] for fxn in F.FIXTURES if fxn[0] in kinds]


def run_corner(ctx, unit):
    (fxn,) = unit
    fx = F.FIXTURES[fxn]

    def cells(g, pts, **kw):
        return np.ma.filled(np.ma.asarray(g.locate_faces(pts, **kw)), -1)

    flat = F.data_for(fx, "notime", "nodepth", 1) * 2.0 ** 30
    opts = [{}] if fxn[0] not in "US" else [{}, {"_memo": True}]
    for ci, (x, y) in enumerate(corners(fx)):
        for step in STEPS:
            c = np.array([(x + sx * step, y + sy * step) for sx in (1, -1) for sy in (1, -1)])

            def located():
                for kw in opts:
                    g = fx.make()
                    for r in range(2):
                        for q in list(c[:, None, :]) + [c, c[::-1]]:
                            expect(np.array_equal(cells(g, q.copy(), **kw), cells(fx.make(), q.copy())), "%s: %s, alone %s", q.tolist(), cells(g, q.copy(), **kw), cells(fx.make(), q.copy()))
                            ctx.step()

            def interpolated():
                for kw in opts:
                    g = fx.make()
                    for r in range(2):
                        for q in list(c[:, None, :]) + [c, c[::-1]]:
                            got = plain(g.interpolate_var_to_points(q.copy(), flat.copy(), location=fx.loc, **kw))
                            want = plain(fx.make().interpolate_var_to_points(q.copy(), flat.copy(), location=fx.loc))
                            expect(np.array_equal(got, want), "%s: %s, alone %s", q.tolist(), got, want)
                            ctx.step()

            ctx.case("near %s corner %d by %s located" % (fxn, ci, step), located)
            ctx.case("near %s corner %d by %s interpolated" % (fxn, ci, step), interpolated)


# --- batches of any length ------------------------------------------------------------
def units_long(tier):
    from .. import sizes as Z

    return [[fx, dn, n] for fx, dn in CONF for n in Z.QUICK[1::3] + [1000] + ([32767, 32769, 65537] if tier == "thorough" else [])]


def run_long(ctx, unit):
    fxn, dn, n = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, "t3", dn, 5)
    P = pool(fx, dn)
    t = F.at_minute(MINUTE)

    def one():
        v = F.variable(fx, "t3", dn, data.copy())
        seq = [P[(k * k) % len(P)] for k in range(n)]
        got = plain(v.at(coords(seq), t)).reshape(-1)
        single = [plain(F.variable(fx, "t3", dn, data.copy()).at(coords([p]), t)).item() for p in P]
        want = np.array([single[(k * k) % len(P)] for k in range(n)])
        expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9), "row %s of %d", np.nonzero(~np.isclose(got, want))[0][:3] if got.shape == want.shape else got.shape, n)
        ctx.step(n)

    ctx.case("long %s %s %d" % (fxn, dn, n), one)
    ctx.state("long", fxn, dn, n)
    ctx.outcome("long", fxn, dn, n)


# every length up to 512, and around the sizes of blocks
LENGTHS = sorted(set(range(1, 513)) | {k + d for k in [2 ** e for e in range(10, 17)] + [m * 10 ** e for e in (3, 4) for m in (1, 2, 5)] + [65535 * 2, 100000, 131072] for d in (-1, 0, 1)})


def units_lengths(tier):
    return [[fx, c] for fx in F.FIXTURES for c in ("locate", "interpolate", "at")]


def run_lengths(ctx, unit):
    fxn, call = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, "notime", "nodepth", 5)
    P = np.array([[float(q[0]), float(q[1])] for q, _ in fx.sites])
    g = fx.make()
    v = F.variable(fx, "notime", "nodepth", data.copy(), grid=fx.make())

    def do(p):
        if call == "locate":
            return np.ma.filled(np.ma.asarray(g.locate_faces(p)), -1).reshape(len(p), -1)
        if call == "at":
            return plain(v.at(p)).reshape(len(p), -1)
        return plain(g.interpolate_var_to_points(p, data.copy(), location=fx.loc)).reshape(len(p), -1)

    single = np.concatenate([do(p[None]) for p in P])
    for n in LENGTHS:
        k = (np.arange(n, dtype=np.int64) ** 2 + n) % len(P)

        def one():
            got = do(P[k])
            want = single[k]
            ctx.step(n)
            bad = np.nonzero(~np.isclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True).all(axis=1))[0]
            expect(not len(bad), "row %s of %d: %s, alone %s", bad[:1], n, got[bad[:1]], want[bad[:1]])

        ctx.case("%s %s of %d points" % (fxn, call, n), one)
        ctx.state("lengths", fxn, call, n)


SPACES = [
    Space("sequences", units_seq, run_seq, "24 configurations x all sequences of 1-3 (thorough 4) of 6 points, all permutations of the 6, long repetitive batches, fresh and reused object"),
    Space("layouts", units_lay, run_lay, "24 configurations x 1-9 points from 6 starts x up to 38 layouts and containers, twice each; arguments that cannot be points"),
    Space("grid-calls", units_grid, run_grid, "8 fixtures x 2-5 grid calls x all sequences of 1-3 sites, fresh and reused grid"),
    Space("nearby", units_near, run_near, "24 configurations x 8 batches x 6 steps of 2^-8 to 2^-40 in each coordinate and 5 steps of time: the nearby points after, before and between; batches with the same bytes; 4 points around every node at every step, located and interpolated"),
    Space("corners", units_corner, run_corner, "8 fixtures x points within 2^-8 to 2^-40 of every corner, one by one and together, twice, remembered and not"),
    Space("long", units_long, run_long, "24 configurations x batches of 127, 254, 257, 1000 (thorough: 32767, 32769, 65537) points"),
    Space("lengths", units_lengths, run_lengths, "8 fixtures x located, interpolated or asked of a variable x batches of every length up to 512 and within 1 of 2^10 to 2^17 and of round numbers up to 100000"),
]
ASSUMPTIONS = ["a batch has at least one point", "arrays between 2x2 and 3x3 are read one point per row, as documented"]
