"""C01 -- Variable.at is the tensor product of time, depth and horizontal interpolation.

Every fixture (unstructured nodes/faces, the four places of a curvilinear grid,
rectangular in both dimension orders) x time axis x depth axis x data container
x call form; all in-range, exact and out-of-range instants and depths.  Oracle:
exact weights from fields.py.
"""
import itertools
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from ..core import Space, expect

CONTAINERS = ("array", "list", "masked", "int", "float32", "netcdf")


def query(var, form, pts, minute, **kw):
    """The same question in each of the documented forms (None: the form cannot say it)."""
    t = None if minute is None else F.at_minute(minute)
    if form == "array":
        return var.at(pts.copy(), t, **kw)
    if form == "named":
        return var.at(points=pts.copy(), time=t, **kw)
    if form == "list":
        return var.at([list(map(float, p)) for p in pts], t, **kw)
    if form == "tuples":
        return var.at(tuple(tuple(p) for p in pts), t, **kw)
    if form == "wide":  # one coordinate per row
        return var.at(np.ascontiguousarray(pts.T), t, **kw)
    if form == "fortran":
        return var.at(np.asfortranarray(pts), t, **kw)
    if form == "flat":
        return var.at(pts[:, :2].copy(), t, **kw)
    if form == "lonlat":
        return var.at(lons=pts[:, 0].tolist(), lats=pts[:, 1].copy(), time=t, **kw)
    if form == "interpolate":
        return var.interpolate(pts.copy(), t, **kw)
    raise ValueError(form)


def check(ctx, fx, tn, dn, data, var, minute, ex, form="array", surface=None, bottom=None, unmask=False, defaults=("extrapolate", "mask"), tol=1e-9, pairs=None):
    from gridded.time import OutOfTimeRangeError

    if pairs is None:
        pairs, pts = F.batch(fx, dn)
    else:
        pts = np.array([[float(s[0][0]), float(s[0][1]), float(d)] for s, d in pairs])
    zero = form in ("flat", "lonlat")
    kw = {}
    if surface:
        kw["surface_boundary_condition"] = surface
    if bottom:
        kw["bottom_boundary_condition"] = bottom
    s, b = surface or defaults[0], bottom or defaults[1]
    wants = [F.reference(fx, tn, dn, data, st, Fr(0) if zero else d, minute, ex, s, b) for st, d in pairs]
    ctx.step()
    ctx.state(fx.name, tn, dn, str(minute), ex, s, b)
    if wants[0] == "raises":
        try:
            query(var, form, pts, minute, extrapolate=ex, unmask=unmask, **kw)
        except OutOfTimeRangeError:
            ctx.outcome("raises")
            return
        expect(False, "an instant out of the time axis was answered without extrapolation")
    got = query(var, form, pts, minute, extrapolate=ex, unmask=unmask, **kw)
    F.compare(ctx, got, wants, ["%s depth %s" % (tuple(map(str, st[0])), d) for st, d in pairs], tol, fill=0.0 if unmask else None)
    ctx.outcome(str(got[:3].tolist()))


# --- time x horizontal --------------------------------------------------------
def units_txy(tier):
    cs = CONTAINERS
    return [[fx, tn, c] for fx in F.FIXTURES for tn in F.TIMES for c in cs]


def run_txy(ctx, unit):
    fxn, tn, cont = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, tn, "nodepth", salt=5)
    tol = 1e-9 if cont not in ("float32",) else 1e-5
    for minute in F.instants(tn):
        for ex in (False, True):
            for form in ("array", "named", "list", "tuples", "wide", "fortran", "flat", "lonlat", "interpolate"):

                def one():
                    var = F.variable(fx, tn, "nodepth", F.container(cont, data, fx, tn, "nodepth"))
                    check(ctx, fx, tn, "nodepth", data, var, minute, ex, form, tol=tol)
                    check(ctx, fx, tn, "nodepth", data, var, minute, ex, form, tol=tol, unmask=True)

                ctx.case("%s %s %s %s minute=%s ex=%s" % (fxn, tn, cont, form, minute, ex), one)


# --- time x depth x horizontal ------------------------------------------------
DEPTHS = ("L1", "L2", "L3", "L3d", "L4", "L4d", "L2/layers", "L3/layers", "L3d/layers", "L4/layers", "L4d/layers", "surf-1", "surf0", "surf1")


def units_tdxy(tier):
    ts = ("notime", "t1", "t2", "t3") if tier == "quick" else tuple(F.TIMES)
    return [[fx, tn, dn] for fx in F.FIXTURES for tn in ts for dn in DEPTHS]


def run_tdxy(ctx, unit):
    fxn, tn, dn = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, tn, dn, salt=2)
    quick = ctx_tier() == "quick"
    for cont in ("array", "netcdf") if quick else CONTAINERS:
        tol = 1e-9 if cont != "float32" else 1e-5
        for minute in F.instants(tn):
            for ex in (False, True):
                if ex and TIMES_in(tn, minute) and quick:
                    continue
                for s, b in itertools.product((None, "extrapolate", "mask"), repeat=2):
                    if quick and cont != "array" and (s or b):
                        continue

                    def one():
                        var = F.variable(fx, tn, dn, F.container(cont, data, fx, tn, dn))
                        check(ctx, fx, tn, dn, data, var, minute, ex, "array", s, b, tol=tol)
                        if s is None and b is None:
                            for form in ("wide", "lonlat", "flat"):
                                check(ctx, fx, tn, dn, data, var, minute, ex, form, tol=tol)
                            check(ctx, fx, tn, dn, data, var, minute, ex, "list", unmask=True, tol=tol)
                        else:
                            # the same, asked for once and for all
                            kw = {k: x for k, x in (("surface_boundary_condition", s), ("bottom_boundary_condition", b)) if x}
                            var = F.variable(fx, tn, dn, F.container(cont, data, fx, tn, dn), **kw)
                            check(ctx, fx, tn, dn, data, var, minute, ex, "array", tol=tol, defaults=(s or "extrapolate", b or "mask"))

                    ctx.case("%s %s %s %s minute=%s ex=%s surface=%s bottom=%s" % (fxn, tn, dn, cont, minute, ex, s, b), one)


def TIMES_in(tn, minute):
    ts = F.TIMES[tn]
    return ts is None or ts[0] <= minute <= ts[-1]


def ctx_tier():
    import os

    return os.environ.get("VMC_TIER", "quick")


# --- other dimension orders ----------------------------------------------------
def units_order(tier):
    return [[fx, tn, dn] for fx in F.FIXTURES for tn in ("t2", "t3") for dn in ("L2", "L3d", "L4", "L3/layers", "surf-1")]


def run_order(ctx, unit):
    fxn, tn, dn = unit
    fx = F.FIXTURES[fxn]
    data = F.data_for(fx, tn, dn, salt=4)
    swapped = np.ascontiguousarray(np.swapaxes(data, 0, 1))
    hd = ["ele"] if len(fx.hshape) == 1 else ["lon", "lat"]
    for minute in F.instants(tn):
        for ex in (False, True):

            def one():
                # the number of depths and times differ or agree: both are legitimate
                v = F.variable(fx, "notime", "nodepth", swapped.copy())
                v.depth = F.DepthAxis(dn).make()
                v._time = F.time_axis(tn)
                v.dimension_ordering = ["depth", "time"] + hd
                check(ctx, fx, tn, dn, data, v, minute, ex)

            ctx.case("depth-first %s %s %s minute=%s ex=%s" % (fxn, tn, dn, minute, ex), one)


# --- locality: what is not bracketing has no part -------------------------------
def units_local(tier):
    return [[fx, tn, dn, how] for fx in F.FIXTURES for tn in ("notime", "t2", "t3", "t4") for dn in ("nodepth", "L3", "L3d", "L4", "L4/layers") for how in ("nan", "masked", "huge")
            if not (tn == "notime" and dn == "nodepth")]


def run_local(ctx, unit):
    fxn, tn, dn, how = unit
    fx = F.FIXTURES[fxn]
    clean = F.data_for(fx, tn, dn, salt=1)
    ax = F.DepthAxis(dn)
    for minute in F.instants(tn):
        for ex in (False, True):
            tw = F.time_weights(tn, minute, ex)
            if tw == "raises":
                continue
            keep_t = _hull(tw, F.TIMES[tn])
            for d in ax.depths():
                dws = ax.weights(d)
                if dws == [F.MASKED]:
                    continue
                keep_d = set()
                for dw in dws:
                    keep_d |= _hull(dw, [0] * (ax.size or 0))

                def one():
                    bad = {"nan": np.nan, "huge": 1e30, "masked": 12345.0}[how]
                    data = np.full_like(clean, bad)
                    mask = np.ones(clean.shape, bool)
                    for t in keep_t or [None]:
                        for k in keep_d or [None]:
                            lead = tuple(i for i in (t, k) if i is not None)
                            data[lead] = clean[lead]
                            mask[lead] = False
                    arg = np.ma.array(data, mask=mask) if how == "masked" else data
                    var = F.variable(fx, tn, dn, arg)
                    pairs = [(s, d) for s in fx.sites]
                    check(ctx, fx, tn, dn, clean, var, minute, ex, pairs=pairs)

                ctx.case("local %s %s %s %s minute=%s depth=%s ex=%s" % (fxn, tn, dn, how, minute, d, ex), one)


def _hull(w, axis):
    """The indices that may take part: those with weight, and at an exact entry its neighbours."""
    out = set(w)
    if len(w) == 1 and axis is not None:
        (k,) = w
        out |= {i for i in (k - 1, k + 1) if 0 <= i < len(axis)}
    return out


# --- constants -------------------------------------------------------------------
def run_constant(ctx, unit):
    from gridded.variable import Variable

    val = unit

    def one():
        v = Variable.constant(val)
        pts = np.array([[x, y, z] for x in (-359, -180, -74.5, 0, 12, 359) for y in (-89, -1, 0, 45, 89) for z in (0, 10)], float)
        for t in (F.T0, None, F.at_minute(10**6)):
            for form in (pts, pts[:, :2]):
                ctx.step()
                got = v.at(form, t)
                expect(got.shape == (len(pts), 1), "shape %s", got.shape)
                expect(not np.ma.getmaskarray(got).any() and np.allclose(np.ma.getdata(got), val), "a constant %s field gives %s", val, np.unique(np.ma.filled(got, 1e9)))
        ctx.state("const", val)

    ctx.case("constant %s" % val, one)


SPACES = [
    Space("time-xy", units_txy, run_txy, "8 horizontal fixtures x 5 time axes x 6 containers x all instants on/between/beyond entries x extrapolate x 9 call forms x unmask"),
    Space("time-depth-xy", units_tdxy, run_tdxy,
          "fixtures x time axes x 14 level/layer/surface axes x instants x depths on/between/beyond levels x boundary conditions (per call and per object) x containers"),
    Space("order", units_order, run_order, "depth-before-time data x fixtures x 2 time x 5 depth axes"),
    Space("locality", units_local, run_local, "everything outside the bracketing times and levels replaced by NaN, 1e30 or masked, all fixtures x axes x instants x depths"),
    Space("constant", lambda tier: [0, 1, -7.5, 1e6], run_constant, "4 constants x 60 points x 3 times"),
]
ASSUMPTIONS = [
    "depth and time sizes up to 4; grids up to 3x4 nodes",
    "at an exact interior time entry or level, the entries next to it may take part with weight zero",
]
