"""C14 -- rectangular grids: cells, bilinear values and dimension order.

Every pair of axes that are subsets of small lattices, ascending or descending,
x every point of the half lattice around them x data stored (lat, lon) or
(lon, lat) in every container.  Oracle: rational bilinear arithmetic.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .. import fine
from .. import sizes as Z
from .c15 import run_corner, units_corner
from ..core import Mismatch, Space, expect

LON = (-4, -3, -1, 3, 4)
LAT = (10, 11, 14, 16)


def axes(lat, tier, sizes):
    for n in sizes:
        for c in itertools.combinations(lat, n):
            yield c
            yield c[::-1]


def positions(ax):
    """On every node, at quarters of every cell, just off and well off the ends."""
    a = sorted(ax)
    out = [Fr(a[0]) - 2, Fr(a[0]) - Fr(1, 8)]
    for p, q in zip(a, a[1:]):
        out += [Fr(p), p + Fr(q - p, 4), p + Fr(3 * (q - p), 4)]
    return out + [Fr(a[-1]), Fr(a[-1]) + Fr(1, 8), Fr(a[-1]) + 3]


def cells(ax, x):
    """(cells whose closed extent has x, weights {index: w} or None)"""
    cs, w = [], None
    for i in range(len(ax) - 1):
        lo, hi = sorted((ax[i], ax[i + 1]))
        if lo <= x <= hi:
            cs.append(i)
            t = Fr(x - ax[i]) / (ax[i + 1] - ax[i])
            w = {k: v for k, v in ((i, 1 - t), (i + 1, t)) if v}
    return cs, w


def strictly_inside(ax, x):
    return min(ax) < x < max(ax)


class Dimensioned(np.ndarray):
    """An array that names its dimensions, as a file variable does."""
    dimensions = None

    def __array_finalize__(self, obj):
        self.dimensions = getattr(obj, "dimensions", None)


def named(a, dims):
    b = np.array(a).view(Dimensioned)
    b.dimensions = dims
    return b


def data_of(ny, nx):
    return np.array([[(7 * i * i + 13 * j + 5 * i * j) % 31 + 0.25 * i for j in range(nx)] for i in range(ny)], float)


# --- location -------------------------------------------------------------------
def units_loc(tier):
    ls = list(axes(LON, tier, (2, 3, 5) if tier == "quick" else (2, 3, 4, 5)))
    return [[list(a)] for a in ls]


def run_loc(ctx, unit):
    from gridded.grids import Grid_R

    lon = tuple(unit[0])
    tier = os.environ.get("VMC_TIER")
    for lat in axes(LAT, tier, (2, 3, 4)):
        pts = [(x, y) for x in positions(lon) for y in positions(lat)]

        def one():
            g = Grid_R(node_lon=np.array(lon, float), node_lat=np.array(lat, float))
            arr = np.array([[float(x), float(y)] for x, y in pts])
            forms = {
                "array": lambda: g.locate_faces(arr.copy()),
                "list": lambda: g.locate_faces(arr.tolist()),
                "one by one": lambda: np.array([g.locate_faces(p) for p in arr]),
                "single rows": lambda: np.concatenate([g.locate_faces(p[None]) for p in arr]),
                "tuples": lambda: np.array([g.locate_faces(tuple(p)) for p in arr.tolist()]),
            }
            for name, f in forms.items():
                got = f()
                expect(got.shape == (len(pts), 2), "%s: shape %s for %d points", name, got.shape, len(pts))
                for (x, y), (i, j) in zip(pts, got.tolist()):
                    ctx.step()
                    ci, cj = cells(lon, x)[0], cells(lat, y)[0]
                    if not ci or not cj:
                        expect((i, j) == (-1, -1), "%s: (%s, %s) off the grid located at %s", name, x, y, (i, j))
                    elif (i, j) == (-1, -1):  # only exactly on the rim may be left out
                        expect(not (strictly_inside(lon, x) and strictly_inside(lat, y)), "%s: (%s, %s) not located", name, x, y)
                    else:
                        expect(i in ci and j in cj, "%s: (%s, %s) located at %s, is in lon %s lat %s", name, x, y, (i, j), ci, cj)
            for bad in ([np.nan, 12.0], [0.0, np.nan], [np.inf, 12.0], [0.0, -np.inf]):
                expect(tuple(g.locate_faces(bad)) == (-1, -1), "%s located at %s", bad, g.locate_faces(bad))

        ctx.case("locate lon=%s lat=%s" % (lon, lat), one)
        ctx.state("loc", lon, lat)


# --- interpolation -----------------------------------------------------------------
FORMS = ("plain", "swapped", "named", "named-swapped", "int", "float32", "masked", "masked-cell", "time", "time-masked", "time-named-swapped", "depth", "netcdf", "netcdf-swapped")


def build(form, lon, lat, base, nc=None):
    """-> (variable argument, slices, effective (lat, lon) values)"""
    b = base.copy()
    if form in ("plain",):
        return b, None, base
    if form == "swapped":
        return b.T.copy(), None, base
    if form == "named":
        return named(b, ("lat", "lon")), None, base
    if form == "named-swapped":
        return named(b.T, ("lon", "lat")), None, base
    if form == "int":
        return b.astype(int), None, base.astype(int)
    if form == "float32":
        return b.astype(np.float32), None, base
    if form == "masked":
        return np.ma.array(b), None, base
    if form in ("masked-cell", "time-masked"):
        m = np.zeros(b.shape, bool)
        m[0, 0] = m[-1, 1] = True
        e = base.copy()
        e[m] = 0
        if form == "masked-cell":
            return np.ma.array(b, mask=m), None, e
        return np.ma.array(np.stack([b + 5, b]), mask=np.stack([m * False, m])), (1,), e
    if form == "time":
        return np.stack([b - 3, b, b * 9]), (1,), base
    if form == "time-named-swapped":
        a = named(np.stack([b.T - 3, b.T, b.T * 9]), ("time", "lon", "lat"))
        return a, (1,), base
    if form == "depth":
        a = np.stack([np.stack([b * k + m for k in (3, 1)]) for m in (0, 40)])
        return a, (0, 1), base
    if form.startswith("netcdf"):
        sw = form.endswith("swapped")
        dims = ("lon", "lat") if sw else ("lat", "lon")
        v = nc.createVariable("v%d" % len(nc.variables), "f8", ("time",) + dims)
        a = b.T if sw else b
        v[:] = np.stack([a + 1, a])
        return v, (1,), base
    raise KeyError(form)


def units_int(tier):
    return [[list(a)] for a in axes(LON, tier, (2, 3, 5) if tier == "quick" else (2, 3, 4, 5))]


def run_int(ctx, unit):
    import netCDF4
    from gridded.grids import Grid_R

    lon = tuple(unit[0])
    tier = os.environ.get("VMC_TIER")
    for lat in axes(LAT, tier, (2, 3) if tier == "quick" else (2, 3, 4)):
        base = data_of(len(lat), len(lon))
        pts = [(x, y) for x in positions(lon) for y in positions(lat)]
        arr = np.array([[float(x), float(y)] for x, y in pts])
        square = len(lat) == len(lon)
        for form in FORMS:
            for method in ("linear", "nearest"):

                def one():
                    nc = None
                    if form.startswith("netcdf"):
                        nc = netCDF4.Dataset("vmc-c14-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
                        nc.createDimension("time", 2)
                        nc.createDimension("lat", len(lat))
                        nc.createDimension("lon", len(lon))
                    try:
                        var, sl, eff = build(form, lon, lat, base, nc)
                        g = Grid_R(node_lon=np.array(lon, float), node_lat=np.array(lat, float))
                        kw = {} if sl is None else {"slices": sl}
                        if method != "linear":
                            kw["method"] = method
                        if square and "named" not in form and "netcdf" not in form:
                            try:
                                g.interpolate_var_to_points(arr, var, **kw)
                            except ValueError:
                                ctx.step()
                                return
                            raise Mismatch("square data without dimension names was interpolated in an assumed order")
                        for call in ("batch", "reversed", "single"):
                            if call == "batch":
                                got = g.interpolate_var_to_points(arr.copy(), var, **kw)
                            elif call == "reversed":
                                got = g.interpolate_var_to_points(arr[::-1].tolist(), var, **kw)[::-1]
                            else:
                                if form not in ("plain", "named-swapped", "time"):
                                    continue
                                got = [g.interpolate_var_to_points(p.copy(), var, **kw) for p in arr]
                            expect(len(got) == len(pts), "%d values for %d points", len(got), len(pts))
                            for (x, y), v in zip(pts, got):
                                ctx.step()
                                check_value(lon, lat, eff, x, y, float(v), method, call)
                    finally:
                        if nc is not None:
                            nc.close()

                ctx.case("interp lon=%s lat=%s %s %s" % (lon, lat, form, method), one)
                ctx.state("int", lon, lat, form, method)


def check_value(lon, lat, eff, x, y, v, method, what=""):
    wx, wy = cells(lon, x)[1], cells(lat, y)[1]
    if wx is None or wy is None:
        expect(v == 0.0, "%s (%s, %s) off the grid gives %s", what, x, y, v)
        return
    if method == "nearest":
        mx, my = max(wx.values()), max(wy.values())
        ok = [eff[i, j] for i, a in wy.items() if a == my for j, b in wx.items() if b == mx]
        expect(any(abs(v - float(o)) < 1e-9 for o in ok), "%s nearest (%s, %s) gives %s, expected %s", what, x, y, v, ok)
        return
    want = sum(Fr(float(eff[i, j])) * a * b for i, a in wy.items() for j, b in wx.items())
    expect(abs(v - float(want)) <= 1e-9 * max(1, abs(float(want))), "%s (%s, %s) gives %s, expected %s", what, x, y, v, float(want))


# --- attributes, inference, refusals ------------------------------------------------
def units_attr(tier):
    return [[list(a)] for a in axes(LON, tier, (2, 3, 4))]


def run_attr(ctx, unit):
    from gridded.grids import Grid_R
    from gridded.variable import Variable

    lon = tuple(unit[0])
    for lat in axes(LAT, "", (2, 3, 4)):
        ny, nx = len(lat), len(lon)

        def attrs():
            g = Grid_R(node_lon=np.array(lon, float), node_lat=np.array(lat, float))
            ctx.step(4)
            want = [[[float(x), float(y)] for x in lon] for y in lat]
            expect(g.nodes.tolist() == want, "nodes %s", g.nodes.tolist())
            cl = [(a + b) / 2 for a, b in zip(lon, lon[1:])]
            ct = [(a + b) / 2 for a, b in zip(lat, lat[1:])]
            expect(g.center_lon.tolist() == cl and g.center_lat.tolist() == ct, "centers %s %s", g.center_lon, g.center_lat)
            expect(g.centers.tolist() == [[[x, y] for x in cl] for y in ct], "centers %s", g.centers.tolist())

        ctx.case("attributes lon=%s lat=%s" % (lon, lat), attrs)

        def infer():
            g = Grid_R(node_lon=np.array(lon, float), node_lat=np.array(lat, float))
            for dy, dx in itertools.product((-2, -1, 0, 1, 2), repeat=2):
                for lead in ((), (2,), (2, 3)):
                    sh = lead + (ny + dy, nx + dx)
                    if min(sh) < 1:
                        continue
                    ctx.step()
                    want = {(0, 0): "node", (1, 1): "center", (-1, -1): "center"}.get((dy, dx))
                    got = g.infer_location(np.zeros(sh))
                    if sh[-2:] == (nx, ny) and (nx != ny):
                        expect(got in (None, "node"), "%s inferred as %s", sh, got)  # transposed storage
                        continue
                    expect(got == want, "shape %s on a %s grid inferred as %s, expected %s", sh, (ny, nx), got, want)
                    if want is None:
                        try:
                            Variable(grid=g, data=np.zeros(sh))
                        except ValueError:
                            continue
                        raise Mismatch("a Variable accepts data of shape %s on a %s grid" % (sh, (ny, nx)))

        ctx.case("infer lon=%s lat=%s" % (lon, lat), infer)

        def refuse():
            g = Grid_R(node_lon=np.array(lon, float), node_lat=np.array(lat, float))
            q = np.array([[float(lon[0] + lon[1]) / 2, float(lat[0] + lat[1]) / 2]])
            for sh in itertools.product(range(1, 6), repeat=2):
                if sh in ((ny, nx), (nx, ny)):
                    continue
                for v in (np.ones(sh), named(np.ones(sh), ("lat", "lon"))):
                    ctx.step()
                    try:
                        r = g.interpolate_var_to_points(q, v)
                    except ValueError:
                        continue
                    raise Mismatch("data of shape %s on a %s grid interpolated to %s" % (sh, (ny, nx), r))
            for dims in (("y", "x"), ("lat", "x"), ("depth", "lon")):
                try:
                    r = g.interpolate_var_to_points(q, named(np.ones((ny, nx)), dims))
                except ValueError:
                    continue
                raise Mismatch("dimensions %s accepted" % (dims,))

        ctx.case("refuse lon=%s lat=%s" % (lon, lat), refuse)
        ctx.state("attr", lon, lat)


# --- one object for both axes, unusual axes ------------------------------------------
def units_same(tier):
    return [[list(a)] for a in axes(LON, tier, (2, 3, 4, 5))]


def run_same(ctx, unit):
    from gridded.grids import Grid_R

    ax = tuple(unit[0])
    base = data_of(len(ax), len(ax))
    pts = [(x, y) for x in positions(ax) for y in positions(ax)]
    arr = np.array([[float(x), float(y)] for x, y in pts])
    for kind in ("same object", "equal", "view", "int", "masked"):
        for dims in (("lat", "lon"), ("lon", "lat"), ("time", "lon", "lat")):

            def one():
                a = np.array(ax, int if kind == "int" else float)
                if kind == "masked":
                    a = np.ma.array(a)
                g = Grid_R(node_lon=a, node_lat=a if kind in ("same object", "int", "masked") else (a.copy() if kind == "equal" else a[:]))
                b = base.T if dims[-1] == "lat" else base
                v, kw = (named(np.stack([b * 2, b]), dims), {"slices": (1,)}) if len(dims) == 3 else (named(b, dims), {})
                got = g.interpolate_var_to_points(arr.copy(), v, **kw)
                for (x, y), r in zip(pts, got):
                    ctx.step()
                    check_value(ax, ax, base, x, y, float(r), "linear")

            ctx.case("same %s %s %s" % (ax, kind, dims), one)
            ctx.state("same", ax, kind, dims)


# --- files -----------------------------------------------------------------------------
NAMES = (("lon", "lat"), ("longitude", "latitude"), ("node_lon", "node_lat"), ("Lon", "Lat"), ("LONGITUDE", "LATITUDE"), ("xc", "yc"))


def units_file(tier):
    return [[list(a), k] for a in axes(LON, tier, (2, 4)) for k in range(len(NAMES))]


def run_file(ctx, unit):
    import netCDF4
    from gridded.grids import Grid, Grid_R
    from gridded.variable import Variable

    lon, (xn, yn) = tuple(unit[0]), NAMES[unit[1]]
    for lat in axes(LAT, "", (2, 3)):
        base = data_of(len(lat), len(lon))
        for swapped in (False, True):
            for topo in ((False, True) if xn != "xc" else (True,)):
                for via in ("Grid", "Grid_R", "Variable"):

                    def one():
                        nc = netCDF4.Dataset("vmc-c14f-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
                        try:
                            nc.createDimension("time", 2)
                            nc.createDimension(yn, len(lat))
                            nc.createDimension(xn, len(lon))
                            nc.createVariable(xn, "f8", (xn,))[:] = lon
                            nc.createVariable(yn, "f8", (yn,))[:] = lat
                            t = nc.createVariable("time", "f8", ("time",))
                            t.units = "minutes since 2020-02-28 23:50:00"
                            t[:] = [0, 10]
                            v = nc.createVariable("temp", "f8", ("time", xn, yn) if swapped else ("time", yn, xn))
                            a = base.T if swapped else base
                            v[:] = np.stack([a, a + 10])
                            kw = {"grid_topology": {"node_lon": xn, "node_lat": yn, "grid_type": "rectilinear"}} if topo else {}
                            pts = [(x, y) for x in positions(lon) for y in positions(lat)]
                            arr = np.array([[float(x), float(y)] for x, y in pts])
                            if via == "Variable":
                                var = Variable.from_netCDF(dataset=nc, varname="temp", location="node", **kw)
                                g = var.grid
                                got = var.at(arr, F.at_minute(0))[:, 0]
                            else:
                                g = (Grid if via == "Grid" else Grid_R).from_netCDF(dataset=nc, **kw)
                                got = g.interpolate_var_to_points(arr, v, slices=(0,))
                            expect(isinstance(g, Grid_R), "loaded as %s", type(g).__name__)
                            expect(np.asarray(g.node_lon).tolist() == list(lon) and np.asarray(g.node_lat).tolist() == list(lat), "axes %s %s", g.node_lon, g.node_lat)
                            for (x, y), r in zip(pts, got):
                                ctx.step()
                                check_value(lon, lat, base, x, y, float(r), "linear")
                        finally:
                            nc.close()

                    ctx.case("file %s lon=%s lat=%s %s topo=%s %s" % (xn, lon, lat, "lonlat" if swapped else "latlon", topo, via), one)
                    ctx.state("file", xn, lon, lat, swapped, topo, via)


SPACES = [
    Space("fine", fine.units, fine.run_r, fine.BOUNDS),
    Space("locate", units_loc, run_loc, "all axes of 2, 3, 5 (thorough 4 too) of 5 longitudes x 2-4 of 4 latitudes, each ascending or descending x all points on nodes, at quarters, just and well outside x 5 call forms; non-finite points"),
    Space("interpolate", units_int, run_int, "the same axes (quick: up to 3 latitudes) x 14 storage forms (order, names, types, masks, slices, file variables) x linear/nearest x all points x 3 batchings"),
    Space("attributes", units_attr, run_attr, "nodes, centers, location inference for all shapes within 2 of the grid, refusal of all other shapes up to 5x5 and foreign dimension names"),
    Space("same-axes", units_same, run_same, "equal longitude and latitude axes: one object, equal, view, integer, masked x 3 dimension orders"),
    Space("file", units_file, run_file, "axes x 6 name pairs x both storage orders x with and without topology x 3 loaders"),
    Space("corners", lambda tier: units_corner(tier, "R"), run_corner, "points within 2^-8 to 2^-40 of every corner, one by one and together, twice, remembered and not"),
    Space("sizes", Z.units_axes, Z.run_rect, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) of rows or columns, ascending or descending, location and values"),
]
ASSUMPTIONS = ["axes are strictly monotonic with at least two nodes", "a point exactly on the outermost node line may be located in its cell or as outside",
               "in a file the coordinate variables are named as their dimensions (CF coordinate variables)"]
