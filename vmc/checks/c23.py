"""C23 -- a Dataset is its grid, its variables and its attributes.

Every kind of variable (location x number type x missing values x attributes) and every
pair of names, saved and loaded through every call; files of every grid kind with
all sets of the other variables that files contain; every form of source; every query.
"""
import itertools
import os
import warnings

import numpy as np

from ..core import Mismatch, Space, expect, raises
from .c17 import MESHES, NODES, Scratch, describe, faces_of, parts_of, quiet
from .c18 import blank, dims, var

LENGTH = {"node": "nodes", "face": "faces", "edge": "edges", "boundary": "boundaries"}


# --- save and load ---------------------------------------------------------------------
def grid_of(name, parts, mesh_name="mesh", salt=0):
    from gridded.grids import Grid_U

    nn, _ = MESHES[name]
    ps = parts_of(name, salt)
    return Grid_U(nodes=np.array(NODES[:nn], dtype=float), faces=faces_of(name), mesh_name=mesh_name, **{p: ps[p] for p in parts})


ATTRS = {
    "none": {},
    "usual": {"units": "m", "long_name": "an elevation", "standard_name": "sea_surface_height"},
    "numbers": {"units": "1", "level": 3, "factor": 0.25, "pair": np.array([1, 2], dtype="i4"), "list": [0.5, 1.5], "empty": ""},
    "stale": {"location": "somewhere", "mesh": "other", "coordinates": "lon lat", "long_name": "moved"},
    "fill": {"_FillValue": -99, "long_name": "filled"},
    "missing": {"missing_value": -99, "units": "s"},
    "packed": {"scale_factor": 0.5, "add_offset": 10.0, "units": "K"},
    "packed filled": {"scale_factor": 0.25, "add_offset": -2.0, "_FillValue": -99},
    "time-like": {"units": "days since 2000-01-01", "standard_name": "time", "axis": "T"},
    "coordinate-like": {"standard_name": "longitude", "units": "degrees_east", "axis": "X"},
}
DTYPES = {"netcdf4": ("f8", "f4", "i4", "i2", "i1", "i8", "u1"), "netcdf3": ("f8", "f4", "i4", "i2", "i1")}
DSATTRS = {
    "none": {},
    "usual": {"title": "a title", "history": "made\nhere", "Conventions": "UGRID-1.0"},
    "numbers": {"count": 3, "ratio": 0.5, "triple": np.array([1.0, 2.0, 3.0])},
    "kind": {"grid_type": "ugrid", "name": "x", "title": ""},
}


def field(n, dtype, masked, attrs, salt=0):
    a = np.array([(7 * i + 3 + 5 * salt) % 23 + 20 for i in range(n)], dtype=dtype)
    if dtype[0] == "f" and "scale_factor" not in attrs:
        a = a + np.array(0.25, dtype=dtype)
    if "_FillValue" in attrs:
        attrs = dict(attrs, _FillValue=np.dtype(dtype).type(attrs["_FillValue"]))
    if "missing_value" in attrs:
        attrs = dict(attrs, missing_value=np.dtype(dtype).type(attrs["missing_value"]))
    if masked:
        a = np.ma.array(a, mask=[(i + salt) % 3 == 1 for i in range(n)])
    return a, attrs


def values(a):
    a = np.ma.asarray(a[:])
    m = np.ma.getmaskarray(a)
    return [None if k else round(float(x), 6) for x, k in zip(a.data.ravel().tolist(), m.ravel().tolist())]


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return np.asarray(a).shape == np.asarray(b).shape and bool(np.all(np.asarray(a) == np.asarray(b)))


def squeeze(v):
    return np.ravel(v)[0] if isinstance(v, (list, np.ndarray)) and np.size(v) == 1 else v


def check_loaded(ctx, e, want, gd, dsattrs, what):
    """`want`: key -> (location, values, attributes, units)"""
    ctx.step()
    expect(sorted(e.variables) == sorted(want), "%s: variables %s, expected %s", what, sorted(e.variables), sorted(want))
    got = describe(e.grid)
    for k in gd:
        expect(got[k] == gd[k], "%s: %s of the grid are %s, expected %s", what, k, got[k], gd[k])
    for k, (loc, vals, at, units) in want.items():
        v = e[k]
        expect(v is e.variables[k], "%s: ds[%r] is not the variable", what, k)
        expect(v.grid is e.grid, "%s: %s is not on the grid of the dataset", what, k)
        expect(v.location == loc, "%s: %s is on the %s, expected %s", what, k, v.location, loc)
        expect(values(v.data) == vals, "%s: %s holds %s, expected %s", what, k, values(v.data), vals)
        expect(v.units == units, "%s: units of %s are %r, expected %r", what, k, v.units, units)
        for a, x in at.items():
            if a in ("location", "mesh", "coordinates"):
                continue
            expect(a in v.attributes, "%s: %s lost its attribute %s", what, k, a)
            expect(equal(squeeze(v.attributes[a]), squeeze(x)), "%s: attribute %s of %s is %r, expected %r", what, a, k, v.attributes[a], x)
        extra = set(v.attributes) - set(at) - {"location", "mesh", "coordinates", "_FillValue", "units"}
        expect(not extra, "%s: %s has new attributes %s", what, k, sorted(extra))
        expect(v.attributes.get("location") == loc, "%s: location attribute of %s is %r", what, k, v.attributes.get("location"))
    expect(set(e.attributes) == set(dsattrs) and all(equal(squeeze(e.attributes[a]), squeeze(x)) for a, x in dsattrs.items()), "%s: attributes %s, expected %s", what, e.attributes, dsattrs)


def close(e):
    e.nc_dataset.close()


def load_ways(p):
    import netCDF4
    from gridded import Dataset

    def deprecated():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return Dataset(p)

    return {
        "from_netCDF": lambda: Dataset.from_netCDF(p), "open dataset": lambda: Dataset.from_netCDF(netCDF4.Dataset(p)),
        "list": lambda: Dataset.from_netCDF([p]), "Dataset(path)": deprecated,
    }


def snapshot(ds):
    return (
        describe(ds.grid), {k: (id(v), v.location, v.units, values(v.data), {a: str(x) for a, x in v.attributes.items()}) for k, v in ds.variables.items()},
        {a: str(x) for a, x in ds.attributes.items()}, list(ds.variables),
    )


QUERY = np.array([(3.0, 1.0), (0.75, 3.5), (5.0, 3.0), (3.5, 1.25), (-2.0, 9.0)])


def at(v):
    import datetime

    if v.location not in ("node", "face") or np.ma.getmaskarray(v.grid.faces).any() or v.grid.faces.shape[1] != 3:
        return None
    r = np.ma.asarray(v.at(np.c_[QUERY, np.zeros(5)], datetime.datetime(2001, 1, 1)))
    return values(r)


def round_trip(ctx, sc, fn, g, specs, dsattrs, fmt, ways, again=None):
    """specs: key -> (location, data, attributes, units or None)"""
    from gridded import Dataset, Variable

    vs = {}
    for k, (loc, a, attrs, units) in specs.items():
        vs[k] = Variable(name="the " + k, data=a, grid=g, location=loc, attributes=dict(attrs), units=units)
    ds = Dataset(grid=g, variables=vs, attributes=dict(dsattrs))
    before = snapshot(ds)
    ctx.step()
    quiet(ds.save, fn, fmt)
    expect(snapshot(ds) == before, "saving changed the dataset")
    # without an attribute of its own, units given to the variable are its units
    want = {k: (loc, values(a), attrs, attrs.get("units", units)) for k, (loc, a, attrs, units) in specs.items()}
    gd = describe(g)
    answers = {k: at(v) for k, v in vs.items()}
    allways = load_ways(fn)
    for w in ways:
        e = allways[w]()
        try:
            check_loaded(ctx, e, want, gd, dsattrs, w)
            for k in specs:
                got = at(e[k])
                # the answers off the grid are the fill value; compare where there is a number
                expect(got == answers[k], "%s: %s answers %s, expected %s", w, k, got, answers[k])
            if again and w == ways[0]:
                f2 = sc.path()
                quiet(e.save, f2, again)
                h = load_ways(f2)["from_netCDF"]()
                try:
                    check_loaded(ctx, h, {k: (x[0], x[1], x[2], x[3]) for k, x in want.items()}, gd, dsattrs, "saved again")
                finally:
                    close(h)
                    os.remove(f2)
        finally:
            close(e)


PARTSETS = ((), ("edges", "boundaries"), ("edges", "boundaries", "face_coordinates", "edge_coordinates", "boundary_coordinates", "face_face_connectivity"))


def units_kinds(tier):
    names = ("tri1", "tri2", "tri3", "flex3", "quad1") if tier == "quick" else tuple(MESHES)
    return [[n, p, f] for n in names for p in range(3) for f in ("netcdf4", "netcdf3")]


def lengths(g):
    return {loc: (0 if getattr(g, "_" + a if a != "nodes" else "_nodes") is None else len(getattr(g, a))) for loc, a in LENGTH.items()}


def run_kinds(ctx, unit):
    name, pi, fmt = unit
    with Scratch() as sc:
        fn = sc.path()
        n = 0
        for loc in LENGTH:
            if pi == 0 and loc in ("edge", "boundary"):
                continue
            for dtype, masked, an in itertools.product(DTYPES[fmt], (False, True), ATTRS):
                n += 1
                if dtype == "u1" and ATTRS[an].get("_FillValue", ATTRS[an].get("missing_value", 0)) < 0:
                    continue
                if "packed" in an and dtype in ("i1", "u1"):
                    continue  # the packed values do not fit in a byte
                if masked and dtype in ("i1", "u1") and "_FillValue" not in ATTRS[an] and "missing_value" not in ATTRS[an]:
                    continue

                def one():
                    g = grid_of(name, PARTSETS[pi], ("mesh", "tide", "m2")[n % 3], salt=n % 2)
                    a, attrs = field(lengths(g)[loc], dtype, masked, ATTRS[an], n % 3)
                    units = (None, "kg")[n % 2] if "units" not in attrs else attrs["units"]
                    da = DSATTRS[list(DSATTRS)[n % 4]]
                    ways = (("from_netCDF", "open dataset"), ("list",), ("Dataset(path)",))[n % 3]
                    round_trip(ctx, sc, fn, g, {"eta": (loc, a, attrs, units)}, da, fmt, ways, again=(None, "netcdf4", None, "netcdf3")[n % 4] if dtype not in ("i8", "u1") else None)

                ctx.case("%s, parts %d, %s: %s %s%s, attributes %s" % (name, pi, fmt, loc, dtype, " masked" if masked else "", an), one)
                ctx.state("kind", name, pi, fmt, loc, dtype, masked, an)


KEYS = ("eta", "time", "data", "of", "depth", "node", "face", "two", "x", "lon", "lat", "longitude", "mesh2", "mesh_", "a b", "a.b", "T-1", "topology", "unstructured", "2D", "crs", "location", "units", "mesh_topology", "u", "v", "faces", "nodes")


def units_names(tier):
    return [[i, f] for i in range(len(KEYS)) for f in ("netcdf4", "netcdf3")]


def run_names(ctx, unit):
    i, fmt = unit
    with Scratch() as sc:
        fn = sc.path()
        for j, (name, mesh_name) in itertools.product(range(len(KEYS)), (("tri2", "mesh"), ("tri3", "grid"), ("flex3", "Mesh2"))):
            if j < i:
                continue
            locs = ("node", "face", "edge", "boundary")
            l1, l2 = locs[(i + j) % 4], locs[(i + 2 * j + 1) % 4]
            order = (i * j) % 2

            def one():
                g = grid_of(name, PARTSETS[1 + (i + j) % 2], mesh_name)
                L = lengths(g)
                specs = {KEYS[i]: (l1, field(L[l1], "f8", False, {})[0], {"long_name": "first"}, "m")}
                if i != j:
                    specs[KEYS[j]] = (l2, field(L[l2], "f4", True, {}, 1)[0], {"long_name": "second", "units": "s"}, "s")
                if order:
                    specs = dict(reversed(list(specs.items())))
                round_trip(ctx, sc, fn, g, specs, {"title": "pair"}, fmt, ("from_netCDF",), again="netcdf4")

            ctx.case("%s named %s, %s: %s on %s, %s on %s" % (name, mesh_name, fmt, KEYS[i], l1, KEYS[j], l2), one)
            ctx.state("names", i, j, name, fmt)
        # all sets of up to four variables
        if i < 6:
            for sub in itertools.product((0, 1, 2), repeat=4):
                def two():
                    g = grid_of("tri3", PARTSETS[1])
                    L = lengths(g)
                    specs = {}
                    for loc, m in zip(LENGTH, sub):
                        for q in range(m):
                            k = KEYS[(i + q) % len(KEYS)] + "_" + loc
                            specs[k] = (loc, field(L[loc], ("f8", "i4")[q], False, {}, q)[0], {"long_name": k}, None)
                    round_trip(ctx, sc, fn, g, specs, {}, fmt, ("from_netCDF",))

                ctx.case("sets %s %s: %s of node, face, edge, boundary" % (KEYS[i], fmt, sub), two)
                ctx.state("sets", i, fmt, sub)


# --- reading files ---------------------------------------------------------------------
def ugrid_file(nc, nt, layers, style, first=None):
    dims(nc, node=5, face=3, three=3, two=2, edge=7, bnd=4, siglay=layers, strlen=9)
    nc.createDimension("time", nt)
    if first:
        first()
    m = var(nc, "mesh", (), 0, "i4", cf_role="mesh_topology", topology_dimension=2, node_coordinates="lon lat", face_node_connectivity="fn", boundary_node_connectivity="bn", edge_node_connectivity="en")
    m.long_name = ("the data of a mesh", "topology of time")[style]
    var(nc, "lon", ("node",), [0, 1, 1, 0, 2], standard_name="longitude", units="degrees_east")
    var(nc, "lat", ("node",), [0, 0, 1, 1, 0.5], standard_name="latitude", units="degrees_north")
    var(nc, "fn", ("face", "three"), [(0, 1, 2), (0, 2, 3), (1, 4, 2)], "i4", start_index=0)
    var(nc, "bn", ("bnd", "two"), [(0, 1), (1, 4), (4, 2), (2, 3)], "i4", start_index=0)
    var(nc, "en", ("edge", "two"), [(0, 1), (1, 4), (4, 2), (2, 3), (0, 3), (0, 2), (1, 2)], "i4", start_index=0)


def sgrid_file(nc, nt, layers, style, first=None):
    dims(nc, y=4, x=5, yc=3, xc=4, siglay=layers, strlen=9)
    nc.createDimension("time", nt)
    if first:
        first()
    yy, xx = np.mgrid[0:4.0, 0:5.0]
    for n, a, d in (("lat_psi", yy, ("y", "x")), ("lon_psi", xx, ("y", "x")), ("lat_rho", yy[:3, :4] + 0.5, ("yc", "xc")), ("lon_rho", xx[:3, :4] + 0.5, ("yc", "xc"))):
        var(nc, n, d, a)
    if style:
        var(nc, "grid", (), 0, "i4", cf_role="grid_topology", topology_dimension=2, node_dimensions="x y", node_coordinates="lon_psi lat_psi",
            face_dimensions="xc: x (padding: none) yc: y (padding: none)", face_coordinates="lon_rho lat_rho")


def rgrid_file(nc, nt, layers, style, first=None):
    dims(nc, y=4, x=5, siglay=layers, strlen=9)
    nc.createDimension("time", nt)
    names = (("lat", "y"), ("lon", "x"))
    if style:
        dims(nc, lat=4, lon=5)
        names = (("lat", "lat"), ("lon", "lon"))
    if first:
        first()
    for n, d in names:
        var(nc, n, (d,), np.arange(len(nc.dimensions[d])) * 1.0)


FILES = {"U": ugrid_file, "S": sgrid_file, "R": rgrid_file}
# where a variable's last dimensions are -> location
PLACES = {
    "U": {("node",): "node", ("face",): "face", ("bnd",): "boundary"},
    "S": {("y", "x"): "node", ("yc", "xc"): "center"},
    "R": {("y", "x"): "node"},
}
PLACES_R_STYLE1 = {("lat", "lon"): "node"}


def others(kind, places):
    """What else a file may hold: (name, type, dimensions, attributes, location or None)"""
    out = []
    for d, loc in places.items():
        t = d[-1]
        out += [
            ("f_" + t, "f8", d, {}, loc), ("t_" + t, "f4", ("time",) + d, {"units": "m"}, loc), ("i_" + t, "i2", d, {"_FillValue": -9, "long_name": "with fill"}, loc),
            ("l_" + t, "f8", d, {"location": loc}, loc), ("b_" + t, "f8", d, {"location": "nowhere"}, loc), ("k_" + t, "f8", ("siglay",) + d, {}, loc),
            ("tk_" + t, "f8", ("time", "siglay") + d, {"long_name": "all of it"}, loc),
        ]
    d = next(iter(places))
    out += [(n, "f8", d, {}, places[d]) for n in ("data", "of", "mesh_topology", "e", "topology")]
    if kind == "U":
        out += [("on_edges", "f8", ("edge",), {"location": "edge"}, "edge"), ("te", "f8", ("time", "edge"), {"location": "edge"}, "edge"), ("no_edges", "f8", ("edge",), {}, None)]
    out += [("crs", "i4", (), {"grid_mapping_name": "latitude_longitude"}, None), ("label", "S1", ("strlen",), {}, None), ("scalar", "f8", (), {"units": "m"}, None)]
    return out


def units_files(tier):
    nts = (1, 2, 3, 4, 5)
    return [[k, s, nt, lay] for k in FILES for s in (0, 1) for nt in nts for lay in ((2,) if tier == "quick" else (2, 6))]


def run_files(ctx, unit):
    from gridded import Dataset
    from gridded.grids import Grid_R, Grid_S, Grid_U

    kind, style, nt, layers = unit
    places = PLACES_R_STYLE1 if kind == "R" and style else PLACES[kind]
    menu = others(kind, places)
    coords = {"S": ("lat_psi", "lon_psi", "lat_rho", "lon_rho", "grid"), "U": ("mesh", "lon", "lat", "fn", "bn", "en"), "R": ("lat", "lon")}[kind]
    combos = [(i,) for i in range(len(menu))] + list(itertools.combinations(range(len(menu)), 2)) + [tuple(range(len(menu)))]
    if os.environ.get("VMC_TIER") == "quick":
        combos = combos[: len(menu)] + combos[len(menu) + nt % 3 : -1 : 3] + combos[-1:]
    for c in combos:
        for timed in (True, False):
            if not timed and any("time" in menu[i][2] for i in c):
                continue

            def one():
                nc = blank()
                try:
                    want = {}

                    def put():
                        for i in c:
                            n, dt, dd, attrs, loc = menu[i]
                            v = nc.createVariable(n, dt, dd, fill_value=attrs.get("_FillValue"))
                            for a, x in attrs.items():
                                if a != "_FillValue":
                                    v.setncattr(a, x)
                            if dt != "S1":
                                shape = v.shape
                                k = int(np.prod(shape)) if shape else 1
                                a = (np.arange(k) * 3 + i).astype(dt).reshape(shape)
                                if "_FillValue" in attrs:
                                    a = np.ma.array(a, mask=np.arange(k).reshape(shape) % 4 == 1)
                                v[...] = a
                                if loc is not None:
                                    want[n] = (loc, values(a), nt if timed and "time" in dd else 1, attrs, shape)

                    # the data before or after what defines the grid
                    early = (sum(c) // 2) % 2
                    FILES[kind](nc, nt, layers, style, put if early else None)
                    if timed:
                        var(nc, "time", ("time",), np.arange(nt) * 1.0, units="days since 2000-01-01", standard_name="time")
                        if sum(c) % 2:
                            var(nc, "siglay", ("siglay",), np.arange(layers) * 1.0)
                    nc.title = "file"
                    if not early:
                        put()
                    ctx.step()
                    ds = quiet(Dataset.from_netCDF, nc)
                    expect(type(ds.grid) is {"U": Grid_U, "S": Grid_S, "R": Grid_R}[kind], "grid %s", type(ds.grid))
                    expect(not set(coords) & set(ds.variables), "variables of the grid loaded as data: %s", sorted(set(coords) & set(ds.variables)))
                    expect(set(ds.variables) == set(want), "variables %s, expected %s", sorted(ds.variables), sorted(want))
                    expect(ds.attributes == {"title": "file"}, "attributes %s", ds.attributes)
                    for n, (loc, vals, lt, attrs, shape) in want.items():
                        v = ds[n]
                        expect(v.location == loc, "%s is on the %s, expected %s", n, v.location, loc)
                        expect(tuple(v.data.shape) == shape and values(v.data) == vals, "%s holds %s, expected %s", n, values(v.data), vals)
                        expect(len(v.time.data) == lt, "%s has %d times, expected %d", n, len(v.time.data), lt)
                        expect(v.grid is ds.grid, "%s has another grid", n)
                        expect(v.units == attrs.get("units"), "units %r of %s", v.units, n)
                        expect(v.name == attrs.get("long_name", n) and v.varname == n, "names %r, %r of %s", v.name, v.varname, n)
                        expect({a: str(x) for a, x in v.attributes.items()} == {a: str(x) for a, x in attrs.items()}, "attributes %s of %s", v.attributes, n)
                    text, info = str(ds), ds.info
                    for n in want:
                        expect(n in text and n in info, "%s is not in the description of the dataset", n)
                    expect("title: file" in info, "attributes are not in info")
                finally:
                    nc.close()

            ctx.case("%s file style %d, %d times%s, %d layers, with %s" % (kind, style, nt, "" if timed else " (no variable)", layers, ", ".join(menu[i][0] for i in c)), one)
            ctx.state("file", kind, style, nt, layers, c, timed)


# --- sources, refusals and queries ------------------------------------------------------
def run_sources(ctx, unit):
    import pathlib

    import netCDF4
    from gridded import Dataset

    kind = unit
    place = {"U": ("node",), "S": ("y", "x"), "R": ("y", "x")}[kind]
    with Scratch() as sc:
        # one record dimension divided over files in all ways
        for n, style in itertools.product((1, 2, 3, 4), (0, 1)):
            for cuts in itertools.chain.from_iterable(itertools.combinations(range(1, n), k) for k in range(n)):
                for form in ("list", "tuple", "MFDataset", "pathlike", "path", "open", "Dataset(list)"):
                    nfiles = len(cuts) + 1
                    if form in ("path", "open", "pathlike") and nfiles > 1:
                        continue

                    def one():
                        paths = []
                        for a, b in zip((0,) + cuts, cuts + (n,)):
                            p = sc.path()
                            paths.append(p)
                            nc = netCDF4.Dataset(p, "w", format="NETCDF3_CLASSIC")
                            nc.createDimension("time", None)
                            real = nc.createDimension
                            nc2 = _Proxy(nc)
                            FILES[kind](nc2, None, 2, style)
                            var(nc, "time", ("time",), np.arange(a, b) * 1.0, units="days since 2000-01-01", standard_name="time")
                            shape = tuple(len(nc.dimensions[d]) for d in place)
                            pl = ("lat", "lon") if kind == "R" and style else place
                            v = nc.createVariable("eta", "f8", ("time",) + pl)
                            v.units, v.long_name = "m", "the height"
                            v[:] = np.array([np.arange(np.prod(shape)).reshape(shape) * 1.0 + 100 * t for t in range(a, b)])
                            nc.title = "part"
                            nc.close()
                        src = {
                            "list": lambda: paths, "tuple": lambda: tuple(paths), "MFDataset": lambda: netCDF4.MFDataset(paths), "pathlike": lambda: pathlib.Path(paths[0]), "path": lambda: paths[0],
                            "open": lambda: netCDF4.Dataset(paths[0]), "Dataset(list)": lambda: paths,
                        }[form]()
                        ctx.step()
                        if form == "Dataset(list)":
                            with warnings.catch_warnings(record=True) as seen:
                                warnings.simplefilter("always")
                                ds = quiet(Dataset, src)
                            expect(any(w.category is DeprecationWarning for w in seen), "no deprecation warning")
                        else:
                            ds = quiet(Dataset.from_netCDF, src)
                        try:
                            expect(set(ds.variables) == {"eta"}, "variables %s", sorted(ds.variables))
                            v = ds["eta"]
                            a = np.asarray(v.data[:])
                            m = int(np.prod(a.shape[1:]))
                            expect(a.shape[0] == n and a.ravel().tolist() == [100.0 * t + i for t in range(n) for i in range(m)], "data %s", a.tolist())
                            days = [t.day - 1 for t in v.time.data]
                            expect(days == list(range(n)) and v.location == "node", "times %s, location %s", days, v.location)
                            expect(v.units == "m" and v.name == "the height" and v.attributes == {"units": "m", "long_name": "the height"}, "attributes %s of eta, name %r, units %r", v.attributes, v.name, v.units)
                            expect(ds.attributes == {"title": "part"}, "attributes %s", ds.attributes)
                            # a quarter of a day after each time
                            import datetime

                            pt = np.array([{"U": (0.75, 0.25), "S": (1.5, 1.5), "R": (1.5, 1.5)}[kind] + (0.0,)])
                            # the dimensions of rectangular data must be named as the coordinates
                            for t in range(n - 1 if kind != "R" or style else 0):
                                w0, w1 = [float(v.at(pt, datetime.datetime(2000, 1, 1 + t + k))[0, 0]) for k in (0, 1)]
                                wq = float(v.at(pt, datetime.datetime(2000, 1, 1 + t, 6))[0, 0])
                                expect(abs(w1 - w0 - 100) < 1e-6 and abs(wq - w0 - 25) < 1e-6, "values %s, %s, %s at days %d, +0.25, +1", w0, wq, w1, t)
                        finally:
                            close(ds)
                            for p in paths:
                                os.remove(p)

                    ctx.case("%s file style %d of %d times cut at %s as %s" % (kind, style, n, cuts, form), one)
                    ctx.state("source", kind, n, cuts, form, style)


class _Proxy:
    """A file whose time dimension is there already."""

    def __init__(self, nc):
        self.nc = nc

    def createDimension(self, name, size):
        if name != "time":
            self.nc.createDimension(name, size)

    def __getattr__(self, a):
        return getattr(self.nc, a)


def run_refusals(ctx, unit):
    from gridded import Dataset, Variable

    with Scratch() as sc:
        g = grid_of("tri2", ())
        v = Variable(data=np.arange(4.0), grid=g, location="node")
        fn = sc.path()
        Dataset(grid=g, variables={"v": v}).save(fn)
        parts = {"grid": g, "variables": {"v": v}, "attributes": {"a": 1}}
        empties = {"grid": g, "variables": {}, "attributes": {}}
        for pool in (parts, empties):
            for sub in itertools.product((False, True), repeat=3):
                kw = {k: pool[k] for k, s in zip(pool, sub) if s}

                def one():
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        ctx.step(2)
                        if kw:
                            expect(raises(ValueError, Dataset, fn, **kw), "a file and %s are accepted together", sorted(kw))
                        else:
                            d = Dataset(fn)
                            expect(list(d.variables) == ["v"], "variables %s", list(d.variables))
                            close(d)
                    d = Dataset(**kw)
                    expect(d.grid is kw.get("grid") and d.variables == kw.get("variables", {}) and d.attributes == kw.get("attributes", {}), "not what was given")
                    expect(Dataset(**{k: x for k, x in kw.items() if k == "grid"}).variables is not d.variables, "datasets share their variables")

                ctx.case("made of %s%s" % (sorted(kw), " (empty)" if pool is empties else ""), one)
        for fmt in ("netcdf4", "netcdf3", "NETCDF4", "nc", "", None, "netcdf", 4):
            def two():
                p = sc.path()
                d = Dataset(grid=g, variables={"v": v})
                ctx.step()
                if fmt in ("netcdf4", "netcdf3"):
                    d.save(p, format=fmt)
                    head = open(p, "rb").read(4)
                    expect(head[:3] == b"CDF" if fmt == "netcdf3" else head == b"\x89HDF", "format %s written as %r", fmt, head)
                else:
                    expect(raises(ValueError, d.save, p, format=fmt), "format %r accepted", fmt)
                    expect(not os.path.exists(p), "a refused format left a file")

            ctx.case("format %r" % (fmt,), two)
        for what, kw in {"grid_file": {"grid_file": fn}, "variable_files": {"variable_files": [fn]}, "both": {"filename": fn, "grid_file": fn}}.items():
            def three():
                ctx.step()
                expect(raises(NotImplementedError, Dataset.from_netCDF, **kw), "not refused")

            ctx.case("separate files: %s" % what, three)
        for bad in ("node ", "cell", "center", "edge1"):
            def four():
                d = Dataset(grid=g, variables={"v": v, "w": v})
                p = sc.path()
                w = Variable(data=np.arange(4.0), grid=g, location="node")
                w._location = bad
                d.variables["w"] = w
                ctx.step()
                expect(raises(ValueError, d.save, p), "saved a variable located on %r", bad)

            ctx.case("location %r" % bad, four)
        # saving over an older file
        for a, b in itertools.product(range(3), repeat=2):
            def five():
                p = sc.path()
                for k in (a, b):
                    gk = grid_of(("tri1", "tri3", "flex3")[k], PARTSETS[k])
                    n = len(gk.nodes)
                    Dataset(grid=gk, variables={"v%d" % k: Variable(data=np.arange(n) + 1.5, grid=gk, location="node")}, attributes={"k%d" % k: k}).save(p)
                e = Dataset.from_netCDF(p)
                ctx.step()
                try:
                    expect(list(e.variables) == ["v%d" % b] and list(e.attributes) == ["k%d" % b] and describe(e.grid) == describe(grid_of(("tri1", "tri3", "flex3")[b], PARTSETS[b])), "the older file shows through")
                finally:
                    close(e)
                    os.remove(p)

            ctx.case("save %d over %d" % (b, a), five)


def run_queries(ctx, unit):
    from gridded import Dataset, Variable

    g = grid_of("tri2", ())
    opts = [None, "m", "s", "M", 1, 1.0, np.array(2)]
    for vals in itertools.product(range(len(opts)), repeat=3):
        def one():
            vs, atts = {}, []
            for i, k in enumerate(vals):
                a = {"long_name": "v%d" % i}
                if opts[k] is not None:
                    a["tag"] = opts[k]
                atts.append(a)
                vs["v%d" % i] = Variable(data=np.arange(4.0), grid=g, location="node", attributes=a)
            ds = Dataset(grid=g, variables=vs)
            for q in ("m", "s", "M", "S", "", 1, 2, None):
                ctx.step()
                got = ds.get_variables_by_attribute("tag", q)
                want = [vs["v%d" % i] for i, a in enumerate(atts) if "tag" in a and a["tag"] == q]
                expect(isinstance(got, list) and len(got) == len(want) and all(x is y for x, y in zip(got, want)), "%r finds %s", q, [x.attributes for x in got])
            expect(ds.get_variables_by_attribute("other", "m") == [], "found by an attribute nobody has")
            for i in range(3):
                expect(ds["v%d" % i] is vs["v%d" % i] and ds.get_variables_by_attribute("long_name", "v%d" % i) == [vs["v%d" % i]], "v%d not found", i)
            expect(raises(KeyError, ds.__getitem__, "v3"), "no KeyError")

        ctx.case("tags %s" % (vals,), one)
        ctx.state("query", vals)


SPACES = [
    Space("kinds", units_kinds, run_kinds, "5 (thorough: all 10) meshes x 3 sets of parts x 2 formats x 4 locations x 5-7 number types x missing values or none x 10 sets of attributes; 4 ways to load; loaded ones saved again"),
    Space("names", units_names, run_names, "all pairs of 28 names x 3 meshes x 2 formats; all sets of up to 2 variables at each of the 4 locations under 6 names"),
    Space("files", units_files, run_files, "3 kinds of files in 2 styles x 1-5 times x 2 (thorough: also 6) layers x all single, all pairs (quick: a third) and all together of up to 29 other variables, with and without time"),
    Space("sources", lambda tier: list(FILES), run_sources, "up to 4 times in files divided in all ways, given in 7 forms"),
    Space("refusals", lambda tier: [0], run_refusals, "all combinations of constructor arguments; formats; overwriting"),
    Space("queries", lambda tier: [0], run_queries, "three variables with all combinations of 7 attribute values x 8 queries"),
]
ASSUMPTIONS = [
    "UGRID variables to be saved have one value per element; saving rectangular and curvilinear datasets is not implemented",
    "names of variables do not collide with the names the saved mesh itself uses", "number types are those the format can hold",
    "without a location attribute a variable of an unstructured grid is placed by its length, as documented",
]
