"""C07 -- terrain-following depths (ROMS stretched coordinates, FVCOM sigma).

The depth of level k at a point is -(zeta + h) S_k, positive down from the moving
surface, with h and zeta interpolated to the point and the instant and S_k the
model's documented stretching; data are linear between levels and constant over
layers.  All small stretching tables x transforms x critical depths x
bathymetries x free surfaces x points x depths relative to the column.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .c06 import close, effective
from ..core import Mismatch, Space, expect
from ..sgrids import values

# stretching tables, bottom to surface: (s_w, Cs_w)
TABLES = {
    "lin2": ([-1, 0], [-1, 0]),
    "lin3": ([-1, Fr(-1, 2), 0], [-1, Fr(-1, 2), 0]),
    "str3": ([-1, Fr(-1, 2), 0], [-1, Fr(-1, 8), 0]),
    "str4": ([-1, Fr(-3, 4), Fr(-1, 4), 0], [-1, Fr(-1, 2), Fr(-1, 16), 0]),
    "str5": ([-1, Fr(-3, 4), Fr(-1, 2), Fr(-1, 4), 0], [-1, Fr(-3, 8), Fr(-1, 4), Fr(-1, 32), 0]),
}
HC = (0, 2, Fr(13, 2))
BATHY = {"flat": lambda k: 10, "slope": lambda k: 8 + 2 * k, "rough": lambda k: (7, 20, 12, 9, 31, 16, 8, 25, 14, 11, 40, 10)[k % 12]}
ZETA = {"zero": lambda t, k: 0, "up": lambda t, k: Fr(1, 2) + t, "mixed": lambda t, k: Fr((-1) ** (k + t) * (k % 3), 4) + Fr(t, 2)}
TIMES = ("t1", "t3")


def place(w, f):
    """Interpolate node function f with weights w."""
    return sum(a * Fr(f(k)) for k, a in w.items())


def at_time(tn, minute, ex, f):
    tw = F.time_weights(tn, minute, ex)
    return sum(a * f(t) for t, a in tw.items())


def roms_column(table, hc, vtransform, h, z):
    s, C = TABLES[table]
    out = []
    for sk, ck in zip(s, C):
        sk, ck = Fr(sk), Fr(ck)
        if vtransform == 1:
            S = hc * sk + (h - hc) * ck
            out.append(-S * (1 + z / h))
        else:
            S = (hc * sk + h * ck) / (hc + h)
            out.append(-(z + h) * S)
    return out  # bottom to surface: decreasing, ends at 0


def bracket(col, d, lay, s, b):
    """Acceptable answers as {level or layer index: weight} or MASKED; col is monotonic either way."""
    n = len(col)
    lo, hi = min(col), max(col)
    top, bot = col.index(lo), col.index(hi)
    last = n - 2 if lay else n - 1
    if d < lo:
        return [F.MASKED] if s == "mask" else [{min(top, last): Fr(1)}]
    if d > hi:
        return [F.MASKED] if b == "mask" else [{min(bot, last): Fr(1)}]
    out = []
    for i in range(n - 1):
        x, y = col[i], col[i + 1]
        if min(x, y) <= d <= max(x, y):
            al = (d - x) / (y - x)
            w = {i: Fr(1)} if lay else {k: v for k, v in ((i, 1 - al), (i + 1, al)) if v}
            if w not in out:
                out.append(w)
    if d == hi and b == "mask":
        out.append(F.MASKED)  # the sea floor itself belongs to the column or not
    return out


def column_depths(col, thorough):
    z = sorted(col)
    out = [Fr(-1), z[0]]
    for a, b in zip(z, z[1:]):
        out += [a + (b - a) / 4, a + (b - a) * Fr(3, 4)]
        if thorough:
            out += [b]
    if not thorough and len(z) > 2:
        out.append(z[1])
    return out + [z[-1], z[-1] + 5]


def compare(ctx, got, wants, labels):
    expect(np.shape(got) == (len(wants), 1), "shape %s for %d points", np.shape(got), len(wants))
    gm, gd = np.ma.getmaskarray(got)[:, 0], np.ma.getdata(got)[:, 0]
    for k, w in enumerate(wants):
        ctx.step()
        if not F.agree(float(gd[k]), bool(gm[k]), w, 1e-7):
            raise Mismatch("%s: %s, expected %s" % (labels[k], "masked" if gm[k] else gd[k], [x if x == F.MASKED else float(x) for x in w]))


def run_column_case(ctx, fx, tn, dn_obj, nlev, colfun, lay, data, minute, ex, s, b, how, off, thorough):
    """Query every site at every interesting depth of its own column."""
    pts, wants, labels, direct = [], [], [], []
    for q, w in fx.sites:
        if w is None:
            for d in (Fr(0), Fr(3), Fr(-40), Fr(9999)):
                direct.append([F.MASKED] if off == [F.MASKED] else None)
                pts.append((float(q[0]), float(q[1]), float(d)))
                wants.append(off)
                labels.append("off the grid at %s depth %s" % (q, d))
            continue
        col = colfun(w, minute, ex)
        for d in column_depths(col, thorough):
            acc = []
            direct.append(bracket(col, d, 0, s, b))
            for dw in bracket(col, d, lay, s, b):
                if dw == F.MASKED:
                    acc.append(F.MASKED)
                    continue
                tot = 0.0
                for t, a in F.time_weights(tn, minute, ex).items():
                    for k, c in dw.items():
                        tot += float(a * c) * F.h_value(fx, w, data, (t, k))
                acc.append(tot)
            pts.append((float(q[0]), float(q[1]), float(d)))
            wants.append(acc)
            labels.append("%s depth %.4f of column %s" % (tuple(map(str, q)), float(d), [round(float(c), 4) for c in col]))
    kw = {"surface_boundary_condition": s, "bottom_boundary_condition": b}
    from gridded.variable import Variable

    v = Variable(name="v", grid=dn_obj.grid, time=F.time_axis(tn), depth=dn_obj, data=data.copy(), location=fx.loc, **(kw if how == "object" else {}))
    call = kw if how == "call" else {}
    arr = np.array(pts)
    got = v.at(arr, F.at_minute(minute), extrapolate=ex, **call)
    compare(ctx, got, wants, labels)
    if not lay:  # the bracketing itself, as the depth object gives it
        idx, al = dn_obj.interpolation_alphas(arr.copy(), F.at_minute(minute), (len(col),), extrapolate=ex, **call)  # its own conditions unless told
        im, am = np.ma.getmaskarray(idx), np.ma.getmaskarray(al)
        for k, want in enumerate(direct):
            ctx.step()
            if want is None or (F.MASKED in want and im[k] and am[k]):
                continue
            expect(not im[k] and not am[k] and want != [F.MASKED], "%s: index %s alpha %s, expected %s", labels[k], idx[k], al[k], want)
            eff = effective(int(idx[k]), float(al[k]), len(col))
            expect(any(x != F.MASKED and close(eff, x) for x in want), "%s: weights %s, expected %s", labels[k], eff, want)
    # the other way round, and each point on its own: no point leans on its neighbours
    got = v.at(arr[::-1].copy(), F.at_minute(minute), extrapolate=ex, **call)
    compare(ctx, got, wants[::-1], labels[::-1])
    if thorough:
        for k in range(len(pts)):
            compare(ctx, v.at(arr[k:k + 1].copy(), F.at_minute(minute), extrapolate=ex, **call), wants[k:k + 1], labels[k:k + 1])
    ctx.outcome(str(got[:4].tolist()))


def node_fixture(name):
    return F.FIXTURES[{"S": "S-node", "U": "U-node"}[name[0]]]


def roms_depth(gridname, grid, tn, table, hc, vt, bathy, zeta, **kw):
    from gridded.depth import ROMS_Depth
    from gridded.variable import Variable

    nfx = node_fixture(gridname)
    hs = nfx.hshape
    size = int(np.prod(hs))
    s, C = TABLES[table]
    mid = lambda v: np.array([float(Fr(a) + Fr(b)) / 2 for a, b in zip(v, v[1:])])  # noqa: E731
    t = F.time_axis(tn)
    nt = len(F.TIMES[tn])
    h = np.array([float(BATHY[bathy](k)) for k in range(size)]).reshape(hs)
    z = np.array([[float(ZETA[zeta](i, k)) for k in range(size)] for i in range(nt)]).reshape((nt,) + hs)
    return ROMS_Depth(time=t, grid=grid, bathymetry=Variable(name="h", grid=grid, data=h, location="node"), zeta=Variable(name="z", grid=grid, time=t, data=z, location="node"),
                      terms={"s_w": np.array([float(x) for x in s]), "Cs_w": np.array([float(x) for x in C]), "s_rho": mid(s), "Cs_r": mid(C), "hc": float(hc)}, vtransform=vt, **kw)


GRIDS = ("S-node", "S-center", "S-edge1", "S-edge2")


def units_roms(tier):
    out = []
    for g in GRIDS:
        for tb in TABLES:
            for hc in HC:
                for vt in (1, 2):
                    out.append([g, tb, str(hc), vt])
    return out


def run_roms(ctx, unit):
    gname, tb, hc, vt = unit
    hc = Fr(hc)
    fx = F.FIXTURES[gname]
    nfx = node_fixture(gname)
    thorough = os.environ.get("VMC_TIER") == "thorough"
    n = len(TABLES[tb][0])
    nodew = {q: w for q, w in nfx.sites}
    for bathy in BATHY if thorough else ("slope", "rough"):
        for zeta in ZETA:
            for tn in TIMES if thorough else ("t3",):
                for lay in (False, True):
                    data = values((len(F.TIMES[tn]), n - 1 if lay else n) + fx.hshape, 5)
                    ins = F.instants(tn)
                    for minute in ins if thorough else (ins[0], ins[1], ins[2], ins[-1]):
                        inside = len(F.TIMES[tn]) == 1 or F.TIMES[tn][0] <= minute <= F.TIMES[tn][-1]
                        for ex in (False, True):
                            if not inside and not ex or inside and ex and not thorough:
                                continue
                            for s, b in itertools.product(("extrapolate", "mask"), repeat=2):
                                how = "call" if (s, b) in (("mask", "mask"), ("extrapolate", "extrapolate")) else "object"

                                def col(w, minute, ex):
                                    # w are weights at fx's place; the column uses the node weights of the same point
                                    q = next(q for q, ww in fx.sites if ww is w)
                                    nw = nodew[q]
                                    h = place(nw, BATHY[bathy])
                                    z = at_time(tn, minute, ex, lambda t: place(nw, lambda k: ZETA[zeta](t, k)))
                                    return roms_column(tb, hc, vt, h, z)

                                def one():
                                    grid = fx.make()
                                    dep = roms_depth(gname, grid, tn, tb, hc, vt, bathy, zeta, surface_boundary_condition=s, bottom_boundary_condition=b)
                                    run_column_case(ctx, fx, tn, dep, n, col, lay, data, minute, ex, s, b, how, [F.MASKED], thorough)

                                ctx.case("roms %s %s hc=%s vt=%d %s %s %s %s minute=%s ex=%s %s/%s" % (gname, tb, hc, vt, bathy, zeta, tn, "layers" if lay else "levels", minute, ex, s, b), one)
                                ctx.state("roms", gname, tb, str(hc), vt, bathy, zeta, tn, lay, str(minute))


# --- profiles themselves ---------------------------------------------------------
def run_profile(ctx, unit):
    gname, tb, hc, vt = unit
    hc = Fr(hc)
    fx = F.FIXTURES["S-node"]
    n = len(TABLES[tb][0])
    pts = [(q, w) for q, w in fx.sites if w is not None]
    arr = np.array([[float(q[0]), float(q[1]), 0.0] for q, _ in pts])
    for bathy in BATHY:
        for zeta in ZETA:
            for tn in TIMES:
                for minute in F.instants(tn):
                    inside = len(F.TIMES[tn]) == 1 or F.TIMES[tn][0] <= minute <= F.TIMES[tn][-1]

                    def one():
                        dep = roms_depth(gname, fx.make(), tn, tb, hc, vt, bathy, zeta)
                        expect(dep.num_levels == n and dep.num_layers == n - 1 and len(dep) == n, "levels %s layers %s", dep.num_levels, dep.num_layers)
                        expect(dep.surface_index == n - 1 and dep.bottom_index == 0, "surface %s bottom %s", dep.surface_index, dep.bottom_index)
                        for shape in (None, (n,)):
                            got = np.ma.getdata(dep.get_depth_profile(arr.copy(), F.at_minute(minute), data_shape=shape, extrapolate=not inside))
                            sc = np.ma.getdata(dep.get_s_coordinate(arr.copy(), F.at_minute(minute), data_shape=shape, extrapolate=not inside))
                            for i, (q, w) in enumerate(pts):
                                ctx.step()
                                h = place(w, BATHY[bathy])
                                z = at_time(tn, minute, True, lambda t: place(w, lambda k: ZETA[zeta](t, k)))
                                c = roms_column(tb, hc, vt, h, z)
                                expect(np.allclose(got[i], [float(x) for x in c], atol=1e-8), "depth profile %s, expected %s", got[i], [float(x) for x in c])
                                expect(np.allclose(sc[i], [float(x - z) for x in c], atol=1e-8), "s coordinate %s, expected %s", sc[i], [float(x - z) for x in c])

                    ctx.case("profile %s hc=%s vt=%d %s %s %s minute=%s" % (tb, hc, vt, bathy, zeta, tn, minute), one)
                    ctx.state("profile", tb, str(hc), vt, bathy, zeta, tn, str(minute))


# --- FVCOM ---------------------------------------------------------------------------
SIG = {
    "uni3": lambda j, k: (0, Fr(-1, 2), -1)[j],
    "uni4": lambda j, k: (0, Fr(-1, 8), Fr(-5, 8), -1)[j],
    "var3": lambda j, k: (0, Fr(-1, 2) + Fr(k % 4, 16), -1)[j],
    "var4": lambda j, k: (0, Fr(-1, 4) - Fr(k % 3, 32), Fr(-1, 2) - Fr(k % 5, 16), -1)[j],
}
SIGN = {"uni3": 3, "uni4": 4, "var3": 3, "var4": 4}


def units_fvcom(tier):
    return [[g, sg, b, z] for g in ("U-node", "U-face") for sg in SIG for b in BATHY for z in ZETA]


def run_fvcom(ctx, unit):
    from gridded.depth import FVCOM_Depth
    from gridded.variable import Variable

    gname, sg, bathy, zeta = unit
    fx, nfx = F.FIXTURES[gname], F.FIXTURES["U-node"]
    n = SIGN[sg]
    nn = nfx.hshape[0]
    nodew = {q: w for q, w in nfx.sites}
    thorough = os.environ.get("VMC_TIER") == "thorough"
    f = SIG[sg]

    def make(grid, tn, **kw):
        t = F.time_axis(tn)
        nt = len(F.TIMES[tn])
        lev = np.array([[float(f(j, k)) for k in range(nn)] for j in range(n)])
        lay = (lev[1:] + lev[:-1]) / 2
        h = np.array([float(BATHY[bathy](k)) for k in range(nn)])
        z = np.array([[float(ZETA[zeta](i, k)) for k in range(nn)] for i in range(nt)])
        return FVCOM_Depth(time=t, grid=grid, bathymetry=Variable(name="h", grid=grid, data=h, location="node"), zeta=Variable(name="z", grid=grid, time=t, data=z, location="node"),
                           terms={"siglev": lev, "siglay": lay}, **kw)

    for tn in TIMES:
        for lay in (False, True):
            data = values((len(F.TIMES[tn]), n - 1 if lay else n) + fx.hshape, 9)
            for minute in F.instants(tn):
                inside = len(F.TIMES[tn]) == 1 or F.TIMES[tn][0] <= minute <= F.TIMES[tn][-1]
                for ex in (False, True):
                    if not inside and not ex:
                        continue
                    for s, b in itertools.product(("extrapolate", "mask"), repeat=2):

                        def col(w, minute, ex):
                            q = next(q for q, ww in fx.sites if ww is w)
                            nw = nodew[q]
                            h = place(nw, BATHY[bathy])
                            z = at_time(tn, minute, ex, lambda t: place(nw, lambda k: ZETA[zeta](t, k)))
                            return [-(z + h) * place(nw, lambda k: f(j, k)) for j in range(n)]

                        def one():
                            dep = make(fx.make(), tn, surface_boundary_condition=s, bottom_boundary_condition=b)
                            expect(dep.num_levels == n and dep.num_layers == n - 1, "levels %s layers %s", dep.num_levels, dep.num_layers)
                            expect(dep.surface_index == 0 and dep.bottom_index == n - 1, "surface %s bottom %s", dep.surface_index, dep.bottom_index)
                            run_column_case(ctx, fx, tn, dep, n, col, lay, data, minute, ex, s, b, "call" if s == b else "object", [F.MASKED, 0.0], thorough)

                        ctx.case("fvcom %s %s %s %s %s %s minute=%s ex=%s %s/%s" % (gname, sg, bathy, zeta, tn, "layers" if lay else "levels", minute, ex, s, b), one)
                        ctx.state("fvcom", gname, sg, bathy, zeta, tn, lay, str(minute))


SPACES = [
    Space("roms", units_roms, run_roms, "4 places of a curvilinear grid x 5 stretching tables x 3 critical depths x 2 transforms x bathymetries x free surfaces x instants x depths of each column x boundary conditions x levels/layers"),
    Space("profile", lambda tier: [u for u in units_roms(tier) if u[0] == "S-node"], run_profile, "get_depth_profile and get_s_coordinate for all tables, transforms, bathymetries, surfaces and instants"),
    Space("fvcom", units_fvcom, run_fvcom, "nodes/faces x 4 sigma tables (uniform, varying by node) x 3 bathymetries x 3 free surfaces x 2 time axes x instants x depths x boundary conditions x levels/layers"),
]
ASSUMPTIONS = [
    "bathymetry deeper than the free surface's excursion; stretching runs from -1 to 0",
    "exactly at the sea floor a masked answer and the bottom value are both accepted; exactly on a level between two layers either layer",
]
