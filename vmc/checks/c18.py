"""C18 -- the right grid is made of a file.

All combinations of what can tell the kind of a grid (an explicit type, a
topology dictionary, a type attribute, a topology variable, the names of the
variables), all spellings of unconventional files, and all sources.
"""
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import fields as F
from .. import sgrids as S
from ..core import Mismatch, Space, expect
from . import c17 as R

_N = itertools.count()


def blank():
    import netCDF4

    return netCDF4.Dataset("vmc-c18-%d-%d" % (os.getpid(), next(_N)), "w", diskless=True, persist=False)


def dims(nc, **sizes):
    for d, n in sizes.items():
        if d not in nc.dimensions:
            nc.createDimension(d, n)


def var(nc, name, dd, a, dtype="f8", **at):
    v = nc.createVariable(name, dtype, dd)
    v[:] = a
    for k, x in at.items():
        v.setncattr(k, x)
    return v


def lst(a):
    return None if a is None else np.ma.filled(np.ma.asarray(a[:]).astype(float), -99).tolist()


# --- which kind ------------------------------------------------------------------------
KIND = {
    "U": ["ugrid", "pygrid_u", "triangular", "unstructured"],
    "S": ["sgrid", "pygrid_s", "staggered", "curvilinear", "roms"],
    "R": ["rgrid", "regular", "rectangular", "rectilinear"],
}
COORDS = [None, ("lon", "lat", 1), ("lon", "lat", 2), ("longitude", "latitude", 1), ("lon_psi", "lat_psi", 2), ("node_lon", "node_lat", 1), ("nodes", None, 0), ("LON", "LAT", 1)]
FACES = [None, "nv", "faces", "ele"]
TOPO = [None, "U", "S", "U+S-style", "unrelated role"]
ATTR = [None, "c-grid"] + [n for v in KIND.values() for n in v] + ["Rectangular", "UGRID", "ROMS"]
ARGS = [None, "hexagonal", ""] + [n for v in KIND.values() for n in v] + ["UGrid", "ROMS", "Rectangular", "class U", "class S", "class R"]


def kind_of(name):
    return next((k for k, v in KIND.items() if name.lower() in v), None)


LON = {1: [0.0, 4.0, 1.0, 5.0], 2: [[0.0, 4.0, 8.0], [1.0, 5.0, 9.0]]}
LAT = {1: [0.5, 0.0, 4.0, 6.0], 2: [[0.5, 0.0, 0.25], [4.0, 6.0, 5.0]]}
NV = [[1, 2, 3], [3, 2, 4]]


def make(nc, coords, faces, topo, attr):
    dims(nc, n=4, m=2, k=3, two=2, three=3, tm=2, tk=3)
    if coords:
        a, b, nd = coords
        if nd == 0:
            var(nc, a, ("n", "two"), list(zip(LON[1], LAT[1])))
        else:
            dd = ("n",) if nd == 1 else ("m", "k")
            var(nc, a, dd, LON[nd], standard_name="longitude")
            var(nc, b, dd, LAT[nd], standard_name="latitude")
    if faces:
        var(nc, faces, ("m", "three"), NV, "i4")
    if topo:
        for nm, std, val in (("tx", "longitude", LON), ("ty", "latitude", LAT)):
            var(nc, nm, ("n",), [x + 40 for x in val[1]], standard_name=std)
            var(nc, nm + "s", ("tm", "tk"), [[x + 40 for x in r] for r in val[2]], standard_name=std)
        var(nc, "tf", ("m", "three"), NV, "i4", start_index=np.int32(1))
        t = nc.createVariable("topo", "i4", ())
        t.topology_dimension = 2
        if topo == "U":
            t.cf_role = "mesh_topology"
            t.node_coordinates = "tx ty"
            t.face_node_connectivity = "tf"
        elif topo.startswith("S") or topo == "U+S-style":
            t.cf_role = "grid_topology"
            t.node_dimensions = "tk tm"
            t.face_dimensions = "kc: tk (padding: none) mc: tm (padding: none)"
            if topo == "S":  # else left to be found
                t.node_coordinates = "txs tys"
        else:
            t.cf_role = "timeseries_id"
    if attr:
        nc.grid_type = attr


def decide(coords, faces, topo, attr, arg):
    """Kind and where from, or None if it must be refused."""
    topo = topo if topo in ("U", "S", "U+S-style") else None
    if arg is not None:
        kind = arg[-1] if arg.startswith("class") else kind_of(arg)
        if kind is None:
            return None
    elif attr is not None and kind_of(attr):
        kind = kind_of(attr)
    elif topo:
        kind = "U" if topo == "U" else "S"
    elif coords is None:
        return None
    elif faces:
        kind = "U"
    elif coords[2] != 2:
        kind = "R"
    else:
        kind = "S"
    if topo:
        if kind != ("U" if topo == "U" else "S"):
            return None
        return kind, topo
    if coords is None or (coords[2] == 0 and kind != "U"):
        return "skip" if coords else None
    if (kind == "U" and not faces) or (kind == "R" and coords[2] == 2):
        return None
    return kind, "names"


def units_kind(tier):
    return [[c, f, t] for c in range(len(COORDS)) for f in range(len(FACES)) for t in range(len(TOPO))]


def run_kind(ctx, unit):
    from gridded.grids import Grid, Grid_R, Grid_S, Grid_U

    class MyU(Grid_U):
        pass

    class MyS(Grid_S):
        pass

    class MyR(Grid_R):
        pass

    coords, faces, topo = COORDS[unit[0]], FACES[unit[1]], TOPO[unit[2]]
    if faces and coords and coords[2] == 2:
        return
    if coords and coords[2] == 0 and not faces and topo not in ("U", "S", "U+S-style"):
        return  # pairs of coordinates are of no use without faces
    classes = {"U": Grid_U, "S": Grid_S, "R": Grid_R}
    mine = {"U": MyU, "S": MyS, "R": MyR}
    for attr in ATTR:
        nc = blank()
        try:
            make(nc, coords, faces, topo, attr)
            for arg in ARGS:
                for own in (False, True) if arg is None or not arg.startswith("class") else (False,):
                    def one():
                        kw = {}
                        if arg is not None:
                            kw["grid_type"] = classes[arg[-1]] if arg.startswith("class") else arg
                        if own:
                            kw["_default_types"] = (("ugrid", MyU), ("sgrid", MyS), ("rgrid", MyR))
                        want = decide(coords, faces, topo, attr, arg)
                        ctx.step()
                        if want == "skip":
                            return
                        if arg is None and topo in ("U", "S", "U+S-style") and kind_of(attr or "x"):
                            by_topo = decide(coords, faces, topo, None, None)
                        else:
                            by_topo = want
                        try:
                            g = Grid.from_netCDF(dataset=nc, **kw)
                        except Exception as e:  # noqa: BLE001 -- of whatever type
                            expect(want is None or by_topo != want, "refused (%s: %s), expected a grid of kind %s", type(e).__name__, e, want)
                            if arg in ("hexagonal", "") or coords is None and topo in (None, "unrelated role") and arg is None and kind_of(attr or "x") is None:
                                expect(isinstance(e, ValueError), "refused with %s: %s", type(e).__name__, e)
                            return
                        want = want or by_topo  # a type attribute and a topology that do not agree
                        expect(want is not None, "accepted as %s, expected a refusal", type(g).__name__)
                        kind, src = want
                        expect(type(g) is (mine if own else classes)[kind], "made a %s, expected kind %s", type(g).__name__, kind)
                        nd = 1 if kind == "U" and src != "names" else 2 if src != "names" else coords[2] or 1
                        off = 0 if src == "names" else 40
                        for got, w in ((g.node_lon, LON), (g.node_lat, LAT)):
                            w = (np.array(w[nd]) + off).tolist()
                            expect(lst(got) == w, "coordinates are %s, expected %s", lst(got), w)
                        if kind == "U":
                            expect(lst(g.faces) == [[0, 1, 2], [2, 1, 3]], "faces are %s", lst(g.faces))
                        ctx.outcome(kind, src)

                    ctx.case("kind coords=%s faces=%s topology=%s attribute=%s argument=%s%s" % (coords, faces, topo, attr, arg, " own types" if own else ""), one)
                    ctx.state("kind", unit[0], unit[1], unit[2], attr, arg, own)
        finally:
            nc.close()


# --- unconventional unstructured files ------------------------------------------------------
TRI = [n for n in R.MESHES if n.startswith("tri") or n == "clockwise"]
U_COORD = [("node_lon", "node_lat"), ("lon", "lat"), ("lon_psi", "lat_psi"), ("longitude", "latitude"), ("nodes", None), ("node", None)]
U_FACES = ["faces", "tris", "nv", "ele", "nele"]


def run_u(ctx, unit):
    from gridded.gridded import Dataset
    from gridded.grids import Grid, Grid_U

    name = unit[0]
    nn, faces = R.MESHES[name]
    for (a, b), fname, case, order, base, dt in itertools.product(U_COORD, U_FACES, (str, str.upper, str.capitalize), "CF", (0, 1), ("i4", "i8")):
        if base and max(map(max, faces)) != nn - 1:
            continue
        if len(faces) == 3 and order == "C":
            continue  # a square table is taken to be in Fortran order

        def one():
            nc = blank()
            try:
                dims(nc, node_=nn, ele_=len(faces), three=3, two=2)
                pts = R.NODES[:nn]
                if b is None:
                    var(nc, case(a), ("node_", "two"), pts)
                else:
                    var(nc, case(a), ("node_",), [p[0] for p in pts])
                    var(nc, case(b), ("node_",), [p[1] for p in pts])
                f = np.array(faces) + base
                dd = ("ele_", "three")
                if order == "F":
                    f, dd = f.T, dd[::-1]
                var(nc, case(fname), dd, f, dt)
                want = R.wanted(name, ())
                for g in (Grid.from_netCDF(dataset=nc), Grid_U.from_netCDF(dataset=nc), Dataset.from_netCDF(nc).grid):
                    ctx.step()
                    expect(isinstance(g, Grid_U), "made a %s", type(g).__name__)
                    R.same(R.describe(g), want, "from names")
                ref = Grid_U(nodes=np.array(pts), faces=np.array(faces))
                expect(R.answers(g) == R.answers(ref), "answers %s, expected %s", R.answers(g), R.answers(ref))
            finally:
                nc.close()

        ctx.case("unstructured %s coords=%s/%s faces=%s %s order=%s base=%d %s" % (name, a, b, fname, case.__name__, order, base, dt), one)
        ctx.state("u", name, a, fname, case.__name__, order, base, dt)


# --- unconventional curvilinear files -------------------------------------------------------
C_COORD = [None, ("center_lon", "center_lat"), ("lon_rho", "lat_rho"), ("lonc", "latc")]
E1_COORD = [None, ("edge1_lon", "edge1_lat"), ("lon_u", "lat_u")]
E2_COORD = [None, ("edge2_lon", "edge2_lat"), ("lon_v", "lat_v")]
N_COORD = [("node_lon", "node_lat"), ("lon", "lat"), ("lon_psi", "lat_psi"), ("longitude", "latitude")]
SHAPES = [(2, 3), (3, 3), (3, 2), (2, 4)]
MASKS = ("mask_psi", "mask_rho", "mask_u", "mask_v")


def units_s(tier):
    return [[i, n] for i in range(len(SHAPES)) for n in range(len(N_COORD))]


def run_s(ctx, unit):
    from gridded.grids import Grid, Grid_S

    m, n = SHAPES[unit[0]]
    na, nb = N_COORD[unit[1]]
    sg = S.grid("warp", "e", m, n)
    lon, lat = sg.arrays()
    sizes = {"node": (m, n), "center": (m + 1, n + 1), "edge1": (m + 1, n), "edge2": (m, n + 1)}
    pts = [tuple(map(float, sg.image(c, S.Fr(1, 4), S.Fr(5, 8)))) for c in sg.cells]
    for k, (c, e1, e2, masks, case) in enumerate(itertools.product(C_COORD, E1_COORD, E2_COORD, range(16), (str, str.upper))):
        if case is str.upper and masks not in (0, 15):
            continue

        def one():
            nc = blank()
            try:
                put = {"node": (na, nb), "center": c, "edge1": e1, "edge2": e2}
                want, wmask = {}, {}
                for j, (loc, names) in enumerate(put.items()):
                    sh = sizes[loc]
                    dims(nc, **{loc + "_y": sh[0], loc + "_x": sh[1]})
                    if names is not None:
                        x, y = (lon, lat) if loc == "node" else (S.values(sh, j), S.values(sh, j + 10))
                        var(nc, case(names[0]), (loc + "_y", loc + "_x"), x)
                        var(nc, case(names[1]), (loc + "_y", loc + "_x"), y)
                        want[loc] = (x.tolist(), y.tolist())
                    if masks >> j & 1:
                        mk = np.arange(sh[0] * sh[1]).reshape(sh) % (2 + j)
                        var(nc, MASKS[j], (loc + "_y", loc + "_x"), mk)
                        if names is not None:
                            wmask[loc] = mk.tolist()
                ctx.step(2)
                g = Grid.from_netCDF(dataset=nc)
                h = Grid_S.from_netCDF(dataset=nc)
                for x in (g, h):
                    expect(type(x) is Grid_S, "made a %s", type(x).__name__)
                    for loc in put:
                        got = [lst(getattr(x, "%s_%s" % (loc, w))) for w in ("lon", "lat")]
                        w = list(want.get(loc, (None, None)))
                        expect(got == w, "%s coordinates are %s, expected %s", loc, got, w)
                        mk = getattr(x, loc + "_mask")
                        mk = None if mk is None else np.asarray(mk[:]).tolist()
                        expect(mk == wmask.get(loc), "%s mask is %s, expected %s", loc, mk, wmask.get(loc))
                    for loc in put:
                        expect((x.infer_location(np.zeros(sizes[loc])) == loc) == (loc in want), "data of the shape of %s are put on %s", loc, x.infer_location(np.zeros(sizes[loc])))
                if not masks:
                    f = np.asarray(g.locate_faces(np.array(pts))).tolist()
                    expect(f == [list(cc) for cc in sg.cells], "cells %s found, expected %s", f, sg.cells)
            finally:
                nc.close()

        ctx.case("curvilinear %dx%d node=%s center=%s edge1=%s edge2=%s masks=%d %s" % (m, n, na, c, e1, e2, masks, case.__name__), one)
        ctx.state("s", unit[0], unit[1], c, e1, e2, masks, case.__name__)


# --- topology dictionaries --------------------------------------------------------------------
def run_topo(ctx, unit):
    """A dictionary names the variables; others of familiar names are decoys."""
    from gridded.gridded import Dataset
    from gridded.grids import Grid, Grid_R, Grid_S, Grid_U
    from gridded.variable import Variable

    kind = unit[0]
    for decoys, names, typ, extra in itertools.product((False, True), ("p q", "Xn Yn", "lat lon"), (0, 1, 2, 3, 4), (False, True)):
        n1, n2 = names.split()
        parts = [()]
        if kind == "S":
            parts = [p for k in range(4) for p in itertools.combinations(("center", "edge1", "edge2"), k)]
        if kind == "U":
            parts = [("separate",), ("composite nodes",), ("composite node",)]
        for part, masks in itertools.product(parts, (False, True) if kind == "S" else (False,)):
            def one():
                nc = blank()
                try:
                    top, want, wmask = {}, {}, {}
                    dims(nc, ny=4, nx=3, two=2, ne=2, three=3)
                    if kind == "R":
                        x, y = [0.0, 1.0, 4.0], [2.0, 3.0, 5.0, 6.0]
                        var(nc, n1, ("nx",), x)
                        var(nc, n2, ("ny",), y)
                        top = {"node_lon": n1, "node_lat": n2, "grid_type": "rectangular"}
                        want["node"] = (x, y)
                    elif kind == "U":
                        x, y = LON[1], LAT[1]
                        if part[0] == "separate":
                            var(nc, n1, ("ny",), x)
                            var(nc, n2, ("ny",), y)
                            top = {"node_lon": n1, "node_lat": n2}
                        else:
                            var(nc, n1, ("ny", "two"), list(zip(x, y)))
                            top = {part[0].split()[1]: n1}
                        var(nc, "conn", ("ne", "three"), NV, "i4")
                        top["faces"] = "conn"
                        want["node"] = (x, y)
                    else:
                        x, y = S.grid("shear", "e", 4, 3).arrays()
                        sizes = {"node": (4, 3), "center": (5, 4), "edge1": (5, 3), "edge2": (4, 4)}
                        for j, loc in enumerate(("node",) + part):
                            sh = sizes[loc]
                            dims(nc, **{"y%d" % sh[0]: sh[0], "x%d" % sh[1]: sh[1]})
                            vx, vy = (x, y) if loc == "node" else (S.values(sh, j), S.values(sh, j + 7))
                            dd = ("y%d" % sh[0], "x%d" % sh[1])
                            a, b = (n1, n2) if loc == "node" else ("q%dx" % j, "q%dy" % j)
                            var(nc, a, dd, vx)
                            var(nc, b, dd, vy)
                            top[loc + "_lon"], top[loc + "_lat"] = a, b
                            want[loc] = (vx.tolist(), vy.tolist())
                            if masks:
                                mk = np.arange(sh[0] * sh[1]).reshape(sh) % 2
                                var(nc, "q%dm" % j, dd, mk)
                                top[loc + "_mask"] = "q%dm" % j
                                wmask[loc] = mk.tolist()
                    if typ:
                        top["grid_type"] = {"U": "ugrid Triangular UNSTRUCTURED pygrid_U", "S": "curvilinear Staggered ROMS SGRID", "R": "rectangular Rectilinear REGULAR RGrid"}[kind].split()[typ - 1]
                    if extra:  # an optional part the file does not have
                        top["edge1_lon" if kind == "S" and "edge1" not in part else "remark"] = "nowhere"
                    if decoys:
                        dims(nc, dd=4, dd2=2, d5=5, d6=6)
                        for nm in ("node_lon", "node_lat", "lon_psi", "lat_psi"):
                            var(nc, nm, ("dd",), [9, 8, 7, 6])
                        var(nc, "nodes", ("dd", "two"), [[1, 2], [3, 4], [5, 6], [7, 8]])
                        var(nc, "node", ("dd", "two"), [[1, 2], [3, 4], [5, 6], [7, 8]])
                        var(nc, "nv", ("three", "dd"), [[1] * 4, [2] * 4, [3] * 4], "i4")
                        for nm in ("center_lon", "center_lat", "lon_rho", "lat_rho", "lon_u", "lat_u", "mask_rho", "mask_psi"):
                            var(nc, nm, ("d5", "d6"), np.ones((5, 6)))
                    keep = dict(top)
                    cls = {"U": Grid_U, "S": Grid_S, "R": Grid_R}[kind]
                    sh = {"U": (4,), "S": (4, 3), "R": (4, 3)}[kind]
                    data = S.values(sh, 3)
                    var(nc, "thing", nc[n1].dimensions[:1] if kind == "U" else ("y4", "x3") if kind == "S" else ("ny", "nx"), data, units="m")
                    loads = [Grid.from_netCDF(dataset=nc, grid_topology=dict(top)), cls.from_netCDF(dataset=nc, grid_topology=dict(top))]
                    v = Variable.from_netCDF(dataset=nc, varname="thing", grid_topology=dict(top))
                    expect(np.asarray(v.data[:]).tolist() == data.tolist() and v.location == "node", "variable read as %s on %s", np.asarray(v.data[:]).tolist(), v.location)
                    loads.append(v.grid)
                    loads.append(Dataset.from_netCDF(nc, grid_topology=dict(top)).grid)
                    for g in loads:
                        ctx.step()
                        expect(type(g) is cls, "made a %s", type(g).__name__)
                        for loc in ("node", "center", "edge1", "edge2") if kind == "S" else ("node",):
                            got = [lst(getattr(g, "%s_%s" % (loc, w))) for w in ("lon", "lat")]
                            w = list(want.get(loc, (None, None)))
                            expect(got == w, "%s coordinates are %s, expected %s", loc, got, w)
                            if kind == "S":
                                mk = getattr(g, loc + "_mask")
                                mk = None if mk is None else np.asarray(mk[:]).tolist()
                                expect(mk == wmask.get(loc), "%s mask is %s, expected %s", loc, mk, wmask.get(loc))
                        if kind == "U":
                            expect(lst(g.faces) == [[0, 1, 2], [2, 1, 3]], "faces are %s", lst(g.faces))
                    expect(top == keep, "the dictionary was changed to %s", top)
                finally:
                    nc.close()

            if extra and kind == "S" and "edge1" not in part and typ:
                pass
            ctx.case("topology %s names=%s parts=%s masks=%s typed=%s decoys=%s extra=%s" % (kind, names, "+".join(part), masks, typ, decoys, extra), one)
            ctx.state("topo", kind, names, part, masks, typ, decoys, extra)


# --- sources -----------------------------------------------------------------------------------
def run_src(ctx, unit):
    """Where the grid and the data are taken from, for every way to say so."""
    import netCDF4
    from pathlib import Path
    from gridded.gridded import Dataset
    from gridded.grids import Grid
    from gridded.variable import Variable, VectorVariable

    kind = unit[0]
    d = tempfile.mkdtemp(prefix="vmc-c18-")

    def write(path, k, with_grid=True, with_data=True):
        nc = netCDF4.Dataset(path, "w")
        dims(nc, ny=2, nx=3, nn=4, ne=2, three=3, time=2)
        sh = {"U": ("nn",), "S": ("ny", "nx"), "R": ("ny", "nx")}[kind]
        if with_grid:
            if kind == "U":
                var(nc, "lon", ("nn",), np.array(LON[1]) + 10 * k)
                var(nc, "lat", ("nn",), LAT[1])
                var(nc, "nv", ("ne", "three"), NV, "i4")
            elif kind == "S":
                var(nc, "lon", sh, np.array(LON[2]) + 10 * k)
                var(nc, "lat", sh, LAT[2])
            else:
                var(nc, "lon", ("nx",), np.array([0.0, 1, 3]) + 10 * k)
                var(nc, "lat", ("ny",), [0.0, 2])
        if with_data:
            var(nc, "time", ("time",), [0, 3600 * (k + 1)], units="seconds since 2020-01-01 00:00:00")
            shp = (2,) + tuple({"nn": 4, "ny": 2, "nx": 3}[x] for x in sh)
            for j, nm in enumerate(("u", "v")):
                var(nc, nm, ("time",) + sh, S.values(shp, 3 * k + j), units="m s-1", time="time", standard_name=("eastward", "northward")[j])
        nc.close()
        return path

    A = write(os.path.join(d, "a.nc"), 0)
    B = write(os.path.join(d, "b.nc"), 1)
    Dt = write(os.path.join(d, "data_only.nc"), 2, with_grid=False)
    G = write(os.path.join(d, "grid_only.nc"), 3, with_data=False)
    sources = {A: 0, B: 1, Dt: 2, G: 3}

    def gridno(g):
        return int(round(float(np.asarray(g.node_lon).ravel()[0]) / 10))

    def datano(v):
        for k in range(4):
            if np.asarray(v.data[:]).tolist() == S.values(v.data.shape, 3 * k).tolist():
                return k
        return "?"

    forms = {"str": lambda p: p, "Path": Path, "list": lambda p: [p], "dataset": lambda p: netCDF4.Dataset(p)}
    plans = []
    for form in forms:
        for p in (A, B):
            plans.append(({"filename": (form, p)}, p, p))
            plans.append(({"data_file": (form, p), "grid_file": (form, p)}, p, p))
            for q in (A, B, G):
                if q != p:
                    plans.append(({"data_file": (form, p), "grid_file": ("str", q)}, p, q))
                    plans.append(({"dataset": ("dataset", p), "grid_file": (form, q)}, p, q))
        for q in (A, B, G):
            plans.append(({"data_file": (form, Dt), "grid_file": (form, q)}, Dt, q))
    for p, q, form in itertools.product((A, B), (A, B), forms):
        plans.append(({"filename": (form, p), "grid_file": ("str", q)}, p, q))
        plans.append(({"filename": (form, Dt), "grid_file": ("Path", q)}, Dt, q))
        plans.append(({"filename": (form, q), "data_file": ("str", p)}, p, q))
        plans.append(({"filename": (form, G), "data_file": ("str", p)}, p, G))
        plans.append(({"filename": (form, G), "data_file": ("str", p), "grid_file": ("str", q)}, p, q))
        plans.append(({"filename": (form, G), "dataset": ("dataset", p), "grid_file": ("str", q)}, p, q))
    for p in (A, B):
        plans.append(({"dataset": ("dataset", p)}, p, p))
        for q in (A, B):
            for form in forms:
                plans.append(({"dataset": ("dataset", p), "filename": (form, q)}, p, p))
    try:
        for k, (args, pd, pg) in enumerate(plans):
            def one():
                op = []

                def val(form, p):
                    x = forms[form](p)
                    if form == "dataset":
                        op.append(x)
                    return x

                kw = {a: val(*fp) for a, fp in args.items()}
                try:
                    g = Grid.from_netCDF(**kw)
                    expect(gridno(g) == sources[pg], "the grid of source %s was read, expected %s", gridno(g), sources[pg])
                    v = Variable.from_netCDF(varname="u", **kw)
                    w = VectorVariable.from_netCDF(varnames=["v", "u"], **kw)
                    ctx.step(3)
                    for x in (v, w.variables[1]):
                        expect(gridno(x.grid) == sources[pg], "a variable is on the grid of source %s, expected %s", gridno(x.grid), sources[pg])
                        expect(datano(x) == sources[pd], "the data of source %s were read, expected %s", datano(x), sources[pd])
                        expect(x.units == "m s-1" and x.location == "node", "units %s, location %s", x.units, x.location)
                        expect((x.time.data[1] - x.time.data[0]).total_seconds() == 3600 * (sources[pd] + 1), "times %s", x.time.data)
                    if set(args) == {"filename"} and args["filename"][0] != "list":
                        ds = Dataset.from_netCDF(kw["filename"])
                        expect(gridno(ds.grid) == sources[pg] and datano(ds.variables["u"]) == sources[pd], "the Dataset is of other sources")
                        op.append(ds.nc_dataset)
                finally:
                    for x in op:
                        try:
                            x.close()
                        except RuntimeError:
                            pass

            ctx.case("source %s #%d %s" % (kind, k, {a: "%s:%s" % (f, os.path.basename(p)) for a, (f, p) in args.items()}), one)
            ctx.state("src", kind, k)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SPACES = [
    Space("kind", units_kind, run_kind, "8 coordinate forms x 4 face names x 5 topology variables x 18 type attributes x 22 type arguments x default or own classes"),
    Space("unstructured", lambda tier: [[n] for n in TRI], run_u, "7 meshes x 6 coordinate names x 5 face names x 3 letter cases x 2 orders x 2 bases x 2 integer types"),
    Space("curvilinear", units_s, run_s, "4 shapes x 4 node names x 4 centre, 3 edge1, 3 edge2 names or none x all subsets of masks x letter cases"),
    Space("topology", lambda tier: [["U"], ["S"], ["R"]], run_topo, "topology dictionaries of every kind x names x parts x masks x decoys x superfluous entries, through 4 loaders"),
    Space("sources", lambda tier: [["U"], ["S"], ["R"]], run_src, "every way to name one or two of four files (path, Path, list, open dataset; filename, dataset, data_file, grid_file)"),
]
ASSUMPTIONS = ["a 3 x 3 connectivity table without any convention is in Fortran order", "one-based indices are recognised by the highest index being the number of nodes"]
