"""C25 -- the vertical coordinate of a file is the one the file describes.

All subsets of the terms of each vertical system, named or described, in one file
or two, with look-alikes; what is read must be the file's, and answer as the same
coordinate made by hand (whose answers C06 and C07 decide).
"""
import itertools
import os
import warnings
from datetime import datetime, timedelta
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .. import sgrids as S
from ..core import Mismatch, Space, expect
from . import c07 as C7
from .c18 import blank, dims, lst, var

ROMS = ("Cs_r", "Cs_w", "s_rho", "s_w", "hc", "h", "zeta")
ROMS_LONG = {
    "Cs_r": ("S-coordinate stretching curves at RHO-points",), "Cs_w": ("S-coordinate stretching curves at W-points",),
    "s_rho": ("S-coordinate at RHO-points",), "s_w": ("S-coordinate at W-points",), "hc": ("S-coordinate parameter, critical depth",),
    "h": ("bathymetry at RHO-points", "Final bathymetry at RHO-points"), "zeta": ("free-surface",),
}
FVCOM = ("siglay", "siglev", "h", "zeta")
FVCOM_STD = {"siglay": "ocean_sigma/general_coordinate", "siglev": "ocean_sigma/general_coordinate", "h": "sea_floor_depth_below_geoid", "zeta": "sea_surface_height_above_geoid"}
TABLE = {"lin3": C7.TABLES["lin3"], "str4": C7.TABLES["str4"]}
T0 = datetime(2020, 2, 28, 23, 50)
UNITS = "seconds since 2020-02-28 23:50:00"
SECS = [0, 300, 1200]


def mids(x):
    return [(Fr(a) + Fr(b)) / 2 for a, b in zip(x, x[1:])]


def fl(x):
    return [float(v) for v in x]


def roms_parts(table, at, m=3, n=4):
    s, c = TABLE[table]
    hsh = (m + 1, n + 1) if at == "rho" else (m, n)
    h = np.array([[8 + 4 * ((3 * i + 5 * j) % 4) for j in range(hsh[1])] for i in range(hsh[0])], float)
    z = np.array([[[t * .5 + ((i + 2 * j + t) % 3) * .25 for j in range(hsh[1])] for i in range(hsh[0])] for t in range(3)])
    return {"Cs_r": fl(mids(c)), "Cs_w": fl(c), "s_rho": fl(mids(s)), "s_w": fl(s), "hc": 2.0, "h": h, "zeta": z}


def rho(sg):
    """Coordinates of the centres: only their shape matters here."""
    return S.values((sg.M + 1, sg.N + 1), 1), S.values((sg.M + 1, sg.N + 1), 2)


def put_grid(nc, sg, at):
    lon, lat = sg.arrays()
    dims(nc, eta_psi=sg.M, xi_psi=sg.N, eta_rho=sg.M + 1, xi_rho=sg.N + 1)
    var(nc, "lon_psi", ("eta_psi", "xi_psi"), lon)
    var(nc, "lat_psi", ("eta_psi", "xi_psi"), lat)
    x, y = rho(sg)
    var(nc, "lon_rho", ("eta_rho", "xi_rho"), x)
    var(nc, "lat_rho", ("eta_rho", "xi_rho"), y)


def put_time(nc, name="ocean_time"):
    dims(nc, ocean_time=3)
    var(nc, name, ("ocean_time",), SECS, units=UNITS, standard_name="time")


def put_roms(nc, parts, which, described, at, table):
    s, _ = TABLE[table]
    hd = ("eta_rho", "xi_rho") if at == "rho" else ("eta_psi", "xi_psi")
    dd = {"Cs_r": ("s_r_",), "Cs_w": ("s_w_",), "s_rho": ("s_r_",), "s_w": ("s_w_",), "hc": (), "h": hd, "zeta": ("ocean_time",) + hd}
    dims(nc, s_r_=len(s) - 1, s_w_=len(s))
    for k in which:
        name = k
        at_ = {}
        if described:
            name = "v%d" % ROMS.index(k)
            at_["long_name"] = ROMS_LONG[k][described - 1 if len(ROMS_LONG[k]) >= described else 0]
        if k == "zeta":
            at_["time"] = "ocean_time"
        var(nc, name, dd[k], parts[k], **at_)


def psi(a):
    a = np.asarray(a)
    return (a[..., :-1, :-1] + a[..., 1:, :-1] + a[..., :-1, 1:] + a[..., 1:, 1:]) / 4


def close(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    return a.shape == b.shape and (np.ma.getmaskarray(a) == np.ma.getmaskarray(b)).all() and np.allclose(a.filled(0), b.filled(0), rtol=1e-12, atol=1e-12)


def check_roms(ctx, d, parts, which, at, grid_cls):
    from gridded.depth import ROMS_Depth

    expect(type(d) is ROMS_Depth, "made a %s", type(d).__name__)
    for k in ("Cs_r", "Cs_w", "s_rho", "s_w"):
        expect(lst(getattr(d, k)) == parts[k], "%s is %s, expected %s", k, lst(getattr(d, k)), parts[k])
    expect(float(d.hc) == parts["hc"], "hc is %s", d.hc)
    want = psi(parts["h"]) if at == "rho" else parts["h"]
    expect(lst(d.bathymetry.data) == want.tolist(), "bathymetry is %s, expected %s", lst(d.bathymetry.data), want.tolist())
    if "zeta" in which:
        want = psi(parts["zeta"]) if at == "rho" else parts["zeta"]
        expect(lst(d.zeta.data) == want.tolist(), "the free surface is %s, expected %s", lst(d.zeta.data), want.tolist())
        tt = [T0 + timedelta(seconds=s) for s in SECS]
        expect(list(d.time.data) == tt and list(d.zeta.time.data) == tt, "times are %s", d.time.data)
    expect(d.num_levels == len(parts["s_w"]) and d.num_layers == len(parts["s_rho"]), "%d levels, %d layers", d.num_levels, d.num_layers)


def manual_roms(parts, which, at, grid, **kw):
    from gridded.depth import ROMS_Depth
    from gridded.time import Time
    from gridded.variable import Variable

    t = Time([T0 + timedelta(seconds=s) for s in SECS])
    f = psi if at == "rho" else np.array
    b = Variable(name="b", data=f(parts["h"]), grid=grid, location="node")
    z = Variable(name="z", data=f(parts["zeta"]), grid=grid, time=t, location="node") if "zeta" in which else Variable.constant(0)
    return ROMS_Depth(grid=grid, time=t, bathymetry=b, zeta=z, terms={k: np.array(parts[k]) for k in ("Cs_r", "Cs_w", "s_rho", "s_w", "hc")}, **kw)


def pts_of(sg, depths):
    p = [tuple(map(float, sg.image(c, Fr(1, 4), Fr(5, 8)))) for c in sg.cells]
    return np.array([(x, y, z) for x, y in p for z in depths])


WHENS = [T0, T0 + timedelta(seconds=150), T0 + timedelta(seconds=1200)]


def agree(ctx, d, ref, pts, shapes):
    for when in WHENS:
        for sh in shapes:
            ctx.step()
            a, b = d.interpolation_alphas(pts, when, sh), ref.interpolation_alphas(pts, when, sh)
            expect(close(a[0], b[0]) and close(a[1], b[1]), "at %s for data of shape %s: %s, expected %s", when, sh, a, b)


# --- ROMS terms ---------------------------------------------------------------------
def units_roms(tier):
    return [[k, list(w)] for k in range(len(ROMS) + 1) for w in itertools.combinations(ROMS, k)]


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def run_roms(ctx, unit):
    from gridded.depth import Depth, DepthBase, ROMS_Depth
    from gridded.grids import Grid_S

    which = unit[1]
    complete = set(ROMS) - {"zeta"} <= set(which)
    sg = S.grid("warp", "e", 3, 4)
    for table, at, described, decoy, split in itertools.product(TABLE, ("rho", "psi"), (0, 1, 2), (False, True), ("one", "statics in the grid file", "grid only", "data file has all")):
        def one():
            a, b = blank(), blank()
            try:
                parts = roms_parts(table, at)
                data, stat = a, b if split != "one" else a
                put_grid(stat, sg, at)
                if split in ("grid only", "data file has all"):
                    dims(data, eta_psi=3, xi_psi=4, eta_rho=4, xi_rho=5)
                if split == "data file has all":  # the data file takes precedence
                    put_roms(stat, {k: np.asarray(v) * 0 + 7 for k, v in parts.items() if k != "zeta"}, [k for k in which if k != "zeta"], 0, at, table)
                put_time(data)
                if split == "statics in the grid file":
                    dims(data, eta_psi=3, xi_psi=4, eta_rho=4, xi_rho=5)
                    put_roms(stat, parts, [k for k in which if k != "zeta"], described, at, table)
                    put_roms(data, parts, [k for k in which if k == "zeta"], described, at, table)
                else:
                    put_roms(data, parts, which, described, at, table)
                if decoy:
                    dims(data, other=2)
                    if stat is not data:
                        dims(stat, other=2)
                    for k in which:
                        if not described:  # the name tells, whatever else is described likewise
                            where = stat if split == "statics in the grid file" and k != "zeta" else data
                            var(where, "a_%s" % k, ("other",), [5, 6], long_name=ROMS_LONG[k][0])
                        else:
                            var(data, "a_%s" % k, ("other",), [5, 6], long_name="not the " + ROMS_LONG[k][0])
                kw = {"dataset": a} if split == "one" else {"data_file": a, "grid_file": b}
                d = quiet(Depth.from_netCDF, **kw)
                ctx.step()
                if not complete:
                    expect(type(d) is DepthBase and d.surface_index == -1, "made a %s of %s", type(d).__name__, which)
                    return
                check_roms(ctx, d, parts, which, at, Grid_S)
                for opts in ({}, {"vtransform": 1}, {"surface_boundary_condition": "mask", "bottom_boundary_condition": "extrapolate"}):
                    d = quiet(ROMS_Depth.from_netCDF, **kw, **opts) if opts.get("vtransform") else quiet(Depth.from_netCDF, **kw, **opts)
                    check_roms(ctx, d, parts, which, at, Grid_S)
                    ref = manual_roms(parts, which, at, d.grid, **opts)
                    nl = len(parts["s_w"])
                    agree(ctx, d, ref, pts_of(sg, [-1, 0, 1.5, 6, 11, 40]), [(nl, 3, 4)])
            finally:
                a.close()
                b.close()

        ctx.case("ROMS %s %s h at %s described=%d decoys=%s %s" % ("+".join(which) or "-", table, at, described, decoy, split), one)
        ctx.state("roms", tuple(which), table, at, described, decoy, split)


# --- FVCOM terms ----------------------------------------------------------------------
NODES = [(0, 0), (4, 0), (4, 4), (0, 4), (9, 5)]
TRIS = [(0, 1, 2), (3, 0, 2), (1, 4, 2)]


def fv_parts():
    lev = np.array([[0, -0.5, -1.0], [0, -0.25, -1], [0, -.5, -1], [0, -.75, -1], [0, -.125, -1]]).T
    return {"siglev": lev, "siglay": (lev[1:] + lev[:-1]) / 2, "h": np.array([8, 12, 20, 9, 31.0]), "zeta": np.array([[.25 * ((i + t) % 3) + .5 * t for i in range(5)] for t in range(3)])}


def put_fv(nc, parts, which, style, order):
    dims(nc, node=5, nele=3, three=3, siglay_=2, siglev_=3)
    dd = {"siglev": ("siglev_", "node"), "siglay": ("siglay_", "node"), "h": ("node",), "zeta": ("ocean_time", "node")}
    for k in order:
        if k not in which:
            continue
        at = {"time": "ocean_time"} if k == "zeta" else {}
        if style != "named":
            at["standard_name"] = FVCOM_STD[k]
        if style == "with centres" and k != "zeta":
            shp = {"siglev": ("siglev_", "nele"), "siglay": ("siglay_", "nele"), "h": ("nele",)}[k]
            var(nc, k + "_center", shp, np.full([len(nc.dimensions[x]) for x in shp], -.5), standard_name=FVCOM_STD[k])
        var(nc, k, dd[k], parts[k], **at)


def put_tri(nc):
    dims(nc, node=5, nele=3, three=3)
    var(nc, "lon", ("node",), [p[0] for p in NODES])
    var(nc, "lat", ("node",), [p[1] for p in NODES])
    var(nc, "nv", ("three", "nele"), np.array(TRIS).T + 1, "i4")


def manual_fv(parts, which, grid, **kw):
    from gridded.depth import FVCOM_Depth
    from gridded.time import Time
    from gridded.variable import Variable

    t = Time([T0 + timedelta(seconds=s) for s in SECS])
    b = Variable(name="b", data=parts["h"], grid=grid, location="node")
    z = Variable(name="z", data=parts["zeta"], grid=grid, time=t, location="node") if "zeta" in which else Variable.constant(0)
    return FVCOM_Depth(grid=grid, time=t, bathymetry=b, zeta=z, terms={"siglay": parts["siglay"], "siglev": parts["siglev"]}, **kw)


FQ = np.array([(x, y, z) for x, y in ((3, 1), (.5, 3), (5, 3)) for z in (-1, 0, 2, 5.5, 9, 50)], float)


def run_fv(ctx, unit):
    from gridded.depth import Depth, DepthBase, FVCOM_Depth

    which = unit[1]
    complete = {"siglay", "siglev", "h"} <= set(which)
    for style, order, split in itertools.product(("named", "with names and standard names", "with centres"), itertools.permutations(FVCOM), ("one", "two")):
        if style == "with centres" and not complete:
            continue  # the look-alike is described as what is missing

        def one():
            a, b = blank(), blank()
            try:
                parts = fv_parts()
                stat = a if split == "one" else b
                put_tri(stat)
                put_time(a)
                put_fv(a, parts, which, style, order)
                kw = {"dataset": a} if split == "one" else {"data_file": a, "grid_file": b}
                d = quiet(Depth.from_netCDF, **kw)
                ctx.step()
                if not complete:
                    expect(type(d) is DepthBase, "made a %s of %s", type(d).__name__, which)
                    return
                expect(type(d) is FVCOM_Depth, "made a %s", type(d).__name__)
                for x in (d, quiet(FVCOM_Depth.from_netCDF, **kw)):
                    for k in ("siglay", "siglev"):
                        expect(lst(getattr(x, k)) == parts[k].tolist(), "%s is %s, expected %s", k, lst(getattr(x, k)), parts[k].tolist())
                    expect(lst(x.bathymetry.data) == parts["h"].tolist(), "bathymetry is %s", lst(x.bathymetry.data))
                    if "zeta" in which:
                        expect(lst(x.zeta.data) == parts["zeta"].tolist(), "the free surface is %s", lst(x.zeta.data))
                    expect(x.num_levels == 3 and x.num_layers == 2, "%d levels, %d layers", x.num_levels, x.num_layers)
                    agree(ctx, x, manual_fv(parts, which, x.grid), FQ, [(3, 5)])
            finally:
                a.close()
                b.close()

        ctx.case("FVCOM %s %s order=%s %s" % ("+".join(which) or "-", style, "+".join(order), split), one)
        ctx.state("fvcom", tuple(which), style, order, split)


# --- levels, choice of the system ---------------------------------------------------------
LEVELS = [[0, 2, 10], [10, 2, 0], [0.5, 2, 10], [12, 6, 1], [3], [1, 4], [0, 1, 5, 6.5], [7, 3, 2.5, 1]]


def run_level(ctx, unit):
    """Level files, and every mixture of systems in one file."""
    from gridded.depth import Depth, DepthBase, FVCOM_Depth, L_Depth, ROMS_Depth

    for lev, name, split in itertools.product(LEVELS, ("depth", "depth_levels", "Depth", "z", "levels", "z standard_name=depth", "z long_name=depth", "z long_name=d", "z standard_name=t", "z long_name=depths", "depth long_name=h"), ("one", "two")):
        name, _, said = name.partition(" ")
        said = dict([said.split("=")]) if said else {}

        def one():
            a, b = blank(), blank()
            try:
                dims(a, z_=len(lev))
                var(a, name, ("z_",), lev, units="m", **said)
                kw = {"dataset": a} if split == "one" else {"data_file": b, "grid_file": a}
                d = quiet(Depth.from_netCDF, **kw)
                ctx.step()
                if name not in ("depth", "depth_levels", "Depth") and "depth" not in said.values():
                    expect(type(d) is DepthBase, "made a %s", type(d).__name__)
                    return
                want = list(map(float, lev))
                want[want.index(min(want))] = 0.0  # the surface
                for x in (d, L_Depth.from_netCDF(**kw)):
                    expect(type(x) is L_Depth and lst(x.depth_levels) == want, "made %s with levels %s, expected %s", type(x).__name__, lst(x.depth_levels), want)
                    expect(x.surface_index == want.index(0) and x.bottom_index == want.index(max(want)) and x.num_levels == len(want), "surface %s bottom %s", x.surface_index, x.bottom_index)
                expect(lst(a[name]) == list(map(float, lev)), "the file was changed")
                if len(want) > 1:
                    ref = L_Depth(terms={"depth_levels": np.array(want)})
                    pts = np.array([(0, 0, z) for z in (-1, 0, .75, 2, 3, 9, 10, 13)], float)
                    for opt in ({}, {"surface_boundary_condition": "mask", "bottom_boundary_condition": "mask"}, {"surface_boundary_condition": "extrapolate", "bottom_boundary_condition": "extrapolate"}):
                        p, q = d.interpolation_alphas(pts, None, (len(want), 2, 2), **opt), ref.interpolation_alphas(pts, None, (len(want), 2, 2), **opt)
                        expect(close(p[0], q[0]) and close(p[1], q[1]), "%s, expected %s", p, q)
            finally:
                a.close()
                b.close()

        ctx.case("levels %s %s %s %s" % (lev, name, said, split), one)
        ctx.state("level", tuple(lev), name, str(said), split)

    # several that would do: names before what they are called, in the order of preference
    every = ("depth", "depth_levels", "Depth", "z", "y")
    for n, order in ((n, o) for n in range(2, 6) for o in itertools.permutations(every, n)):
        def first():
            nc = blank()
            try:
                dims(nc, z_=3)
                for k in order:
                    j = every.index(k)
                    var(nc, k, ("z_",), [0, 1 + j, 20 + j], **({"standard_name": "depth"} if k in "zy" else {}))
                d = quiet(Depth.from_netCDF, dataset=nc)
                ctx.step()
                j = min(every.index(k) for k in order)
                if j >= 3:
                    j = every.index(order[0])  # of two, the first one in the file
                expect(type(d) is L_Depth and lst(d.depth_levels) == [0, 1 + j, 20 + j], "of %s, %s was taken", order, lst(getattr(d, "depth_levels", [])))
            finally:
                nc.close()

        ctx.case("levels of %s" % " ".join(order), first)
        ctx.state("several", order)

    kinds = ("roms", "fvcom", "level", "neither")
    for n in range(5):
        for have in itertools.combinations(kinds, n):
            def two():
                nc = blank()
                try:
                    sg = S.grid("rect", "e", 3, 4)
                    if "fvcom" in have and "roms" not in have:
                        put_tri(nc)
                    else:
                        put_grid(nc, sg, "psi")
                    put_time(nc)
                    dims(nc, node=5, z_=3)
                    if "roms" in have:
                        put_roms(nc, roms_parts("lin3", "psi"), ROMS, 0, "psi", "lin3")
                    if "fvcom" in have:
                        put_fv(nc, fv_parts(), FVCOM if "roms" not in have else ("siglay", "siglev"), "named", FVCOM)
                    if "level" in have:
                        var(nc, "depth", ("z_",), [0, 1, 2])
                    if "neither" in have:
                        var(nc, "layer", ("z_",), [0, 1, 2])
                    sys_ = [k for k in have if k != "neither"]
                    ctx.step()
                    try:
                        d = quiet(Depth.from_netCDF, dataset=nc)
                    except ValueError as e:
                        expect(len(sys_) > 1, "refused: %s", e)
                        return
                    expect(len(sys_) <= 1, "made a %s of a file with %s", type(d).__name__, sys_)
                    want = {"roms": ROMS_Depth, "fvcom": FVCOM_Depth, "level": L_Depth}[sys_[0]] if sys_ else DepthBase
                    expect(type(d) is want, "made a %s, expected %s", type(d).__name__, want.__name__)
                finally:
                    nc.close()

            ctx.case("systems in the file: %s" % "+".join(have), two)
            ctx.state("systems", have)


# --- through a variable -----------------------------------------------------------------------
def run_var(ctx, unit):
    from gridded.gridded import Dataset
    from gridded.variable import Variable, VectorVariable

    kind = unit[0]
    sg = S.grid("fan", "e", 3, 4)
    for variant in itertools.product(("rho", "psi") if kind == "roms" else (0,), ("levels", "layers"), (True, False), ("one", "two")):
        at, lay, zeta, split = variant
        if kind == "level" and (lay == "layers" or not zeta):
            continue

        def one():
            a, b = blank(), blank()
            try:
                stat = a if split == "one" else b
                put_time(a)
                if kind == "roms":
                    put_grid(stat, sg, at)
                    dims(a, eta_psi=3, xi_psi=4, eta_rho=4, xi_rho=5)
                    parts = roms_parts("str4", at)
                    which = [k for k in ROMS if zeta or k != "zeta"]
                    put_roms(a, parts, which, 0, at, "str4")
                    dd = ("ocean_time", "s_w_" if lay == "levels" else "s_r_", "eta_psi", "xi_psi")
                    pts = pts_of(sg, [-1, 0, 1.5, 6, 11, 40])
                elif kind == "fvcom":
                    put_tri(stat)
                    parts = fv_parts()
                    which = [k for k in FVCOM if zeta or k != "zeta"]
                    put_fv(a, parts, which, "with names and standard names", FVCOM)
                    dd = ("ocean_time", "siglev_" if lay == "levels" else "siglay_", "node")
                    pts = FQ
                else:
                    put_grid(stat, sg, "psi")
                    dims(a, eta_psi=3, xi_psi=4, z_=3)
                    var(a, "depth", ("z_",), [0, 2, 10])
                    dd = ("ocean_time", "z_", "eta_psi", "xi_psi")
                    pts = pts_of(sg, [-1, 0, 1.5, 6, 10, 40])
                sh = tuple(len(a.dimensions[x]) for x in dd)
                data = [S.values(sh, 1), S.values(sh, 5)]
                for nm, x in zip(("u", "v"), data):
                    var(a, nm, dd, x, time="ocean_time", units="m/s")
                kw = {"dataset": a} if split == "one" else {"data_file": a, "grid_file": b}
                vs = [quiet(Variable.from_netCDF, varname="u", **kw), quiet(Variable.from_netCDF, varname="u", load_all=True, **kw)]
                if split == "one":
                    vs.append(quiet(Dataset.from_netCDF, a).variables["u"])
                w = quiet(VectorVariable.from_netCDF, varnames=["u", "v"], **kw)
                g = vs[0].grid
                if kind == "roms":
                    ref_d = manual_roms(parts, which, at, g)
                elif kind == "fvcom":
                    ref_d = manual_fv(parts, which, g)
                else:
                    from gridded.depth import L_Depth
                    ref_d = L_Depth(terms={"depth_levels": np.array([0.0, 2, 10])})
                from gridded.time import Time
                t = Time([T0 + timedelta(seconds=s) for s in SECS])
                refs = [Variable(name="r", data=x, grid=g, time=t, depth=ref_d, location="node") for x in data]
                for when in WHENS:
                    want = [r.at(pts, when, unmask=False) for r in refs]
                    for v in vs:
                        ctx.step()
                        got = v.at(pts, when, unmask=False)
                        expect(close(got, want[0]), "at %s: %s, expected %s", when, got.tolist(), want[0].tolist())
                    got = w.at(pts, when, unmask=False)
                    expect(close(got, np.ma.concatenate(want, axis=1)), "vector at %s: %s, expected %s", when, got.tolist(), [x.tolist() for x in want])
            finally:
                a.close()
                b.close()

        ctx.case("variable in a %s file %s" % (kind, variant), one)
        ctx.state("var", kind, variant)


SPACES = [
    Space("roms", units_roms, run_roms, "all 128 subsets of the 7 ROMS terms x 2 stretchings x bathymetry at rho or psi x named or described two ways x look-alikes x 4 divisions over two files; 3 settings"),
    Space("fvcom", lambda tier: [[k, list(w)] for k in range(5) for w in itertools.combinations(FVCOM, k)], run_fv, "all subsets of the 4 FVCOM terms x 3 styles x all 24 orders in the file x one or two files"),
    Space("levels and systems", lambda tier: [0], run_level, "8 sets of levels x 5 names x one or two files; all mixtures of systems"),
    Space("variables", lambda tier: [["roms"], ["fvcom"], ["level"]], run_var, "variables on levels or layers of each system, with or without free surface, one or two files, three loaders"),
]
ASSUMPTIONS = ["a file of two vertical systems is refused", "the shallowest level of a level file is the surface"]
