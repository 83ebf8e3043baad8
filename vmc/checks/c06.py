"""C06 -- level depths: which two levels bracket a depth, and with what weights.

Every set of levels that is a subset of a small lattice, in either order, x every
depth on the quarter lattice (on, between, above, below the levels) x boundary
conditions given per call, per object or by default x data on levels or layers.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .. import sizes as Z
from ..core import Mismatch, Space, expect

LATTICE = (0, 1, 3, 4, 9, 20)
BCS = ("extrapolate", "mask")


def level_sets(nmax, nmin=2):
    for n in range(nmin, nmax + 1):
        for c in itertools.combinations(LATTICE, n):
            yield list(c)
            yield list(c)[::-1]


def depths():
    out = {Fr(-2), Fr(30)}
    for a, b in zip(LATTICE, LATTICE[1:]):
        out |= {Fr(a), Fr(a) + Fr(b - a, 4), Fr(a) + Fr(b - a, 2), Fr(b)}
    for a in LATTICE:
        out |= {Fr(a) - Fr(1, 1 << 30), Fr(a) + Fr(1, 1 << 30)}
    return sorted(out)


def effective(idx, alpha, n):
    """What (index, alpha) means: weight 1-alpha on index and alpha on index+1."""
    w = {}
    for k, a in ((idx, 1 - alpha), (idx + 1, alpha)):
        if a != 0:
            w[k] = a
    for k in w:
        if not 0 <= k < n:
            raise Mismatch("index %s alpha %s use level %s of %d" % (idx, alpha, k, n))
    return w


def close(w, want):
    return set(w) | set(want) == {k for k in set(w) | set(want) if abs(w.get(k, 0) - float(want.get(k, 0))) < 1e-8}


def model(z, d, s, b):
    n = len(z)
    lo, hi = min(z), max(z)
    if d < lo:
        return [{z.index(lo): 1}] if s == "extrapolate" else [F.MASKED]
    if d > hi:
        return [{z.index(hi): 1}] if b == "extrapolate" else [F.MASKED]
    for i in range(n - 1):
        a, c = z[i], z[i + 1]
        if min(a, c) <= d <= max(a, c):
            al = Fr(d - a) / (c - a)
            return [{k: x for k, x in ((i, 1 - al), (i + 1, al)) if x}]


def units_alpha(tier):
    return [[z] for z in level_sets(6 if tier == "thorough" else 4)] + [[list(LATTICE)], [list(LATTICE)[::-1]], [[0]], [[7]]]


def run_alpha(ctx, unit):
    from gridded.depth import L_Depth

    (z,) = unit
    n = len(z)
    ds = depths()
    pts = np.array([[1.0, 2.0, float(d)] for d in ds])
    for form in ("array", "list", "masked", "int", "float32"):
        lv = {"array": np.array(z, float), "list": [float(x) for x in z], "masked": np.ma.array(z, float), "int": np.array(z), "float32": np.array(z, np.float32)}[form]
        for s, b in itertools.product((None,) + BCS, repeat=2):
            for order in ("asc", "desc", "single", "list", "defaults", "constructed"):

                def one():
                    own = {"default_%s_boundary_condition" % k: x for k, x in (("surface", s), ("bottom", b)) if x} if order == "constructed" else {}
                    dep = L_Depth(terms={"depth_levels": lv if form != "list" else np.asarray(lv)}, **own)
                    kw = {}
                    if s:
                        kw["surface_boundary_condition"] = s
                    if b:
                        kw["bottom_boundary_condition"] = b
                    if order == "defaults":
                        for key, x in kw.items():
                            setattr(dep, "default_" + key, x)
                        kw = {}
                    if order == "constructed":
                        kw = dict.fromkeys(kw)
                    expect(dep.num_levels == n and dep.num_layers == n - 1, "%d levels, %d layers", dep.num_levels, dep.num_layers)
                    if n > 1:
                        expect(dep.surface_index == z.index(min(z)) and dep.bottom_index == z.index(max(z)), "surface %s bottom %s", dep.surface_index, dep.bottom_index)
                    if order == "single":
                        res = [dep.interpolation_alphas(pts[i:i + 1].copy(), None, (n,), **kw) for i in range(len(ds))]
                        idx = np.ma.concatenate([r[0] for r in res])
                        al = np.ma.concatenate([r[1] for r in res])
                        dd = ds
                    elif order == "list":
                        idx, al = dep.interpolation_alphas(pts.tolist(), None, (n,), **kw)
                        dd = ds
                    else:
                        sel = pts if order != "desc" else pts[::-1]
                        dd = ds if order != "desc" else ds[::-1]
                        idx, al = dep.interpolation_alphas(sel.copy(), None, (n,), **kw)
                    expect(len(idx) == len(ds) and len(al) == len(ds), "%d indices and %d alphas for %d points", len(idx), len(al), len(ds))
                    im, am = np.ma.getmaskarray(idx), np.ma.getmaskarray(al)
                    ia, aa = np.ma.getdata(idx), np.ma.getdata(al)
                    for k, d in enumerate(dd):
                        ctx.step()
                        want = model(z, d, s or "extrapolate", b or "mask") if n > 1 else [{0: 1}]
                        if want == [F.MASKED]:
                            expect(bool(im[k] and am[k]), "depth %s: not masked but index %s alpha %s", d, idx[k], al[k])
                            continue
                        expect(not im[k] and not am[k], "depth %s is masked, expected %s", d, want)
                        if n == 1:
                            expect(int(ia[k]) in (0, -1) and float(aa[k]) == 0, "depth %s: index %s alpha %s", d, ia[k], aa[k])
                            continue
                        expect(0 <= float(aa[k]) <= 1, "alpha %s", aa[k])
                        w = effective(int(ia[k]), float(aa[k]), n)
                        if not any(close(w, x) for x in want):
                            raise Mismatch("depth %s on %s: weights %s, expected %s" % (d, z, w, want))
                    ctx.outcome(str(ia.tolist()), str(im.tolist()))

                ctx.case("%s %s surface=%s bottom=%s %s" % (z, form, s, b, order), one)
            ctx.state(tuple(z), form, s, b)


# --- through a variable, on a one-cell grid ---------------------------------------
def units_var(tier):
    return [[z, lay] for z in level_sets(5 if tier == "thorough" else 3) for lay in ("levels", "layers") if not (lay == "layers" and len(z) < 2)]


def run_var(ctx, unit):
    from gridded.depth import L_Depth
    from gridded.grids import Grid_R, Grid_S, Grid_U
    from gridded.variable import Variable

    z, lay = unit
    n = len(z)
    ds = depths()
    x = np.array([0.0, 4, 8])
    grids = {
        "U": (lambda: Grid_U(nodes=np.array([[0.0, 0], [4, 0], [0, 4]]), faces=np.array([[0, 1, 2]])), (3,), "node"),
        "S": (lambda: Grid_S(node_lon=np.tile(x, (2, 1)), node_lat=np.array([[0.0] * 3, [4.0] * 3])), (1, 2), "center"),
        "R": (lambda: Grid_R(node_lon=x, node_lat=np.array([0.0, 4])), (2, 3), "node"),
    }
    from ..sgrids import values

    for gname, (mk, hs, loc) in grids.items():
        m = n if lay == "levels" else n - 1
        prof = values((m,), 3)
        data = np.broadcast_to(prof.reshape((m,) + (1,) * len(hs)), (m,) + hs).copy()
        for s, b in itertools.product(BCS, repeat=2):
            for how in ("call", "object"):

                def one():
                    kw = {"surface_boundary_condition": s, "bottom_boundary_condition": b}
                    dep = L_Depth(terms={"depth_levels": np.array(z, float)})
                    v = Variable(name="v", grid=mk(), depth=dep, data=data.copy(), location=loc, **(kw if how == "object" else {}))
                    pts = np.array([[1.0, 1.0, float(d)] for d in ds])
                    got = v.at(pts, None, **(kw if how == "call" else {}))
                    expect(got.shape == (len(ds), 1), "shape %s", got.shape)
                    gm, gd = np.ma.getmaskarray(got)[:, 0], np.ma.getdata(got)[:, 0]
                    for k, d in enumerate(ds):
                        ctx.step()
                        wants = answers(z, prof, lay, d, s, b)
                        ok = any((w == F.MASKED and gm[k]) or (w != F.MASKED and not gm[k] and abs(gd[k] - w) < 1e-5 * max(1, abs(w))) for w in wants)
                        expect(ok, "%s depth %s: %s, expected %s", gname, d, "masked" if gm[k] else gd[k], wants)

                ctx.case("variable %s %s %s surface=%s bottom=%s by %s" % (gname, z, lay, s, b, how), one)
                ctx.state("v", gname, tuple(z), lay, s, b)


def answers(z, prof, lay, d, s, b):
    w = model(z, d, s, b)
    if w == [F.MASKED]:
        return w
    if lay == "levels":
        return [float(sum(float(a) * prof[k] for k, a in w[0].items()))]
    out = []
    n = len(z)
    if d < min(z):
        return [float(prof[min(z.index(min(z)), n - 2)])]
    if d > max(z):
        return [float(prof[min(z.index(max(z)), n - 2)])]
    for i in range(n - 1):
        if min(z[i], z[i + 1]) <= d <= max(z[i], z[i + 1]):
            out.append(float(prof[i]))
    return out


# --- read from a file ---------------------------------------------------------------
def units_file(tier):
    return [[z] for z in level_sets(3)]


def run_file(ctx, unit):
    import netCDF4

    from gridded.depth import Depth, L_Depth

    (z,) = unit
    for vname in ("depth", "depth_levels", "Depth"):
        for dt in ("f8", "f4", "i4"):
            for where in ("data_file", "grid_file", "dataset"):

                def one():
                    nc = netCDF4.Dataset("vmc-c06-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
                    other = netCDF4.Dataset("vmc-c06-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
                    try:
                        nc.createDimension(vname, len(z))
                        nc.createVariable(vname, dt, (vname,))[:] = z
                        kw = {"data_file": {"data_file": nc, "grid_file": other}, "grid_file": {"data_file": other, "grid_file": nc}, "dataset": {"dataset": nc}}[where]
                        for cls in (L_Depth, Depth):
                            ctx.step()
                            dep = cls.from_netCDF(**kw)
                            expect(isinstance(dep, L_Depth), "a file with level depths gives a %s", type(dep).__name__)
                            want = [float(x) for x in z]
                            want[want.index(min(want))] = 0.0  # documented: the top level is the surface
                            expect([float(x) for x in dep.depth_levels] == want, "levels %s, expected %s", list(dep.depth_levels), want)
                        expect([float(x) for x in nc[vname][:]] == [float(x) for x in z], "the file was changed")
                        ctx.state("f", tuple(z), vname, dt, where)
                    finally:
                        nc.close()
                        other.close()

                ctx.case("file %s %s %s %s" % (z, vname, dt, where), one)


# --- surface only --------------------------------------------------------------------
def run_surface(ctx, unit):
    from gridded.depth import Depth, DepthBase

    k = unit

    def one():
        for dep in (Depth.surface_only(surface_index=k), DepthBase(surface_index=k), DepthBase.from_netCDF(surface_index=k)):
            for npts in (1, 2, 5):
                pts = np.array([[1.0, 2, d] for d in (0, -3, 50, 1, 2)][:npts])
                idx, al = dep.interpolation_alphas(pts, None, (4,))
                ctx.step()
                expect(list(idx) == [k] * npts and list(al) == [0.0] * npts, "indices %s alphas %s", idx, al)
                expect(not np.ma.getmaskarray(idx).any(), "masked")
            expect(dep.surface_index == k and dep.num_levels == 1, "surface index %s levels %s", dep.surface_index, dep.num_levels)
        ctx.state("surface", k)

    ctx.case("surface-only index %d" % k, one)


SPACES = [
    Space("alphas", units_alpha, run_alpha, "all subsets of size 1-4 (thorough 6) and the whole of a 6-level lattice, both orders, 5 containers x 31 depths x 9 boundary settings (per call or as defaults) x 4 batchings"),
    Space("variable", units_var, run_var, "all subsets of size 2-3 (thorough 5), both orders x levels/layers x 3 grids x boundary settings per call and per object x 31 depths"),
    Space("file", units_file, run_file, "all level sets of size 2-3 x 3 names x 3 types x 3 ways to pass the file"),
    Space("surface-only", lambda t: [-1, 0, 1, 3], run_surface, "4 surface indices x batch sizes"),
    Space("sizes", Z.units_axis, Z.run_levels, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) in either order, every layer (long axes: around the limits)"),
]
ASSUMPTIONS = ["levels are strictly monotonic", "exactly on a level between two layers either layer's value is accepted"]
