"""C17 -- an unstructured grid survives its file.

Every combination of optional parts, mesh shape, name, format and way of saving
and loading; and every dialect of hand-written UGRID files that denotes the same
mesh.  Sizes are chosen so that dimensions coincide (three faces, two edges, ...).
"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import fields as F
from .. import sizes as Z
from ..core import Mismatch, Space, expect

NODES = [(0.7, 0.3), (4.0, 0.0), (4.3, 4.5), (0.0, 4.0), (9.0, 5.0), (-3.0, 2.1), (2.0, -4.5)]
MESHES = {
    "tri1": (3, [(0, 1, 2)]),
    "tri2": (4, [(0, 1, 2), (3, 0, 2)]),
    "tri3": (5, [(0, 1, 2), (3, 0, 2), (1, 4, 2)]),
    "tri4": (6, [(0, 1, 2), (3, 0, 2), (1, 4, 2), (5, 0, 3)]),
    "tri3-unused": (7, [(0, 1, 2), (3, 0, 2), (1, 4, 2)]),
    "quad1": (4, [(0, 1, 2, 3)]),
    "flex2": (5, [(0, 1, 2, 3), (1, 4, 2)]),
    "flex3": (6, [(1, 4, 2), (0, 1, 2, 3), (3, 5, 0)]),
    "flex4": (7, [(1, 4, 2), (0, 1, 2, 3), (3, 5, 0), (6, 1, 0)]),
    "clockwise": (4, [(2, 1, 0), (2, 0, 3)]),
}
PARTS = ("edges", "boundaries", "face_face_connectivity", "face_edge_connectivity", "face_coordinates", "edge_coordinates", "boundary_coordinates")


def parts_of(name, salt=0):
    """Every optional part, made up here (it need only come back as it was)."""
    nn, faces = MESHES[name]
    w = max(map(len, faces))
    edges = sorted({tuple(sorted((f[j - 1], f[j]))) for f in faces for j in range(len(f))})
    if salt:
        edges = edges[: 2 + salt % 2][::-1]  # two or three of them
    bounds = edges[: [2, 3, len(edges)][(salt + len(faces)) % 3]]
    ff = np.full((len(faces), w), -1)
    fe = np.full((len(faces), w), -1)
    for i, f in enumerate(faces):
        for j in range(len(f)):
            ff[i, j] = (i + j + salt) % (len(faces) + 1) - 1
            fe[i, j] = (2 * i + j) % max(len(edges), 1)
    m = np.array([[j >= len(f) for j in range(w)] for f in faces])
    if m.any():
        fe = np.ma.array(fe, mask=m)
    crd = lambda n, k: np.array([[k + 0.1 * i + 120.7, -k - 0.3 * i * i] for i in range(n)])
    return {
        "edges": np.array(edges), "boundaries": np.array(bounds), "face_face_connectivity": ff, "face_edge_connectivity": fe,
        "face_coordinates": crd(len(faces), 1), "edge_coordinates": crd(len(edges), 5), "boundary_coordinates": crd(len(bounds), 9),
    }


def faces_of(name):
    nn, faces = MESHES[name]
    w = max(map(len, faces))
    a = np.full((len(faces), w), -1, np.int32)
    for i, f in enumerate(faces):
        a[i, :len(f)] = f
    return np.ma.masked_equal(a, -1) if (a < 0).any() else a


def plain(x):
    """Comparable form: masked entries are -1, as padding is."""
    if x is None:
        return None
    return np.ma.filled(np.ma.asarray(x).astype(float), -1).tolist()


def describe(g):
    d = {"nodes": plain(g.nodes), "faces": plain(g.faces)}
    d.update({p: plain(getattr(g, p)) for p in PARTS})
    return d


def wanted(name, chosen, salt=0):
    nn, _ = MESHES[name]
    ps = parts_of(name, salt)
    d = {"nodes": [list(map(float, n)) for n in NODES[:nn]], "faces": plain(faces_of(name))}
    d.update({p: plain(ps[p]) if p in chosen else None for p in PARTS})
    return d


def same(got, want, what):
    for k in want:
        expect(got[k] == want[k], "%s: %s is %s, expected %s", what, k, got[k], want[k])


def answers(g):
    """What a user asks of the loaded grid."""
    q = np.array([(3.0, 1.0), (0.75, 3.5), (5.0, 3.0), (3.5, 1.25), (-2.0, 9.0), (0.5, 0.5)])
    f = g.locate_faces(q)
    v = g.interpolate_var_to_points(q, np.arange(len(g.nodes)) * 1.5 + 2, location="node") if np.ma.getmaskarray(g.faces).sum() == 0 and g.faces.shape[1] == 3 else []
    return np.asarray(f).tolist(), np.asarray(v).tolist()


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


_N = itertools.count()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vmc-c17-")
        return self

    def path(self):
        return os.path.join(self.d, "f%d.nc" % next(_N))

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def legal(chosen):
    return ("edges" in chosen or "edge_coordinates" not in chosen) and ("boundaries" in chosen or "boundary_coordinates" not in chosen)


# --- save and load -------------------------------------------------------------------
def units_rt(tier):
    out = []
    for name in MESHES:
        for n in range(len(PARTS) + 1):
            for chosen in itertools.combinations(PARTS, n):
                if legal(chosen):
                    out.append([name, list(chosen)])
    return out


WAYS = ("file", "open dataset", "save_as_netcdf", "Dataset.save")
LOADS = ("from_ncfile", "from_nc_dataset", "Grid.from_netCDF", "Grid_U.from_netCDF", "Grid dataset", "Dataset.from_netCDF")


def save(way, g, sc, fmt):
    """-> (path or None, open dataset or None)"""
    import netCDF4
    from gridded.gridded import Dataset

    if way == "open dataset":
        nc = netCDF4.Dataset("vmc-c17-%d-%d" % (os.getpid(), next(_N)), "w", diskless=True, persist=False)
        quiet(g.save, nc, fmt)
        return None, nc
    p = sc.path()
    if way == "file":
        quiet(g.save, p, format=fmt).close()
    elif way == "save_as_netcdf":
        quiet(g.save_as_netcdf, p, fmt)
        import gc
        gc.collect()
    else:
        quiet(Dataset(grid=g).save, p, fmt)
    return p, None


def load(how, p, nc):
    import netCDF4
    from gridded.grids import Grid, Grid_U
    from gridded.gridded import Dataset

    if p is not None:
        if how == "from_ncfile":
            return Grid_U.from_ncfile(p)
        if how == "Grid.from_netCDF":
            return Grid.from_netCDF(p)
        if how == "Grid_U.from_netCDF":
            return Grid_U.from_netCDF(p)
        if how == "Dataset.from_netCDF":
            d = Dataset.from_netCDF(p)
            d.nc_dataset.close()
            return d.grid
        nc2 = netCDF4.Dataset(p)
        try:
            return Grid_U.from_nc_dataset(nc2) if how == "from_nc_dataset" else Grid.from_netCDF(dataset=nc2)
        finally:
            nc2.close()
    if how in ("from_nc_dataset", "from_ncfile"):
        return Grid_U.from_nc_dataset(nc)
    if how == "Dataset.from_netCDF":
        return Dataset.from_netCDF(nc).grid
    return Grid.from_netCDF(dataset=nc)


def run_rt(ctx, unit):
    from gridded.grids import Grid_U

    name, chosen = unit
    nn, faces = MESHES[name]
    thorough = os.environ.get("VMC_TIER") == "thorough"
    k = len(chosen) + sum(map(ord, name))
    ways = WAYS if thorough or len(chosen) in (0, 7) else (WAYS[k % 4], "open dataset")
    with Scratch() as sc:
        for way in ways:
            for fmt in ("netcdf4", "netcdf3") if thorough or len(chosen) in (0, 7) else (("netcdf4", "netcdf3")[k % 2],):
                for mesh_name in ("mesh", "Mesh2_x"):
                    for salt in (0, 1, 2):
                        def one():
                            ps = parts_of(name, salt)
                            g = Grid_U(nodes=np.array(NODES[:nn]), faces=faces_of(name), mesh_name=mesh_name, **{p: ps[p].copy() for p in chosen})
                            want = wanted(name, chosen, salt)
                            same(describe(g), want, "the grid itself")
                            a = answers(g)
                            p, nc = save(way, g, sc, fmt)
                            same(describe(g), want, "after saving, the grid itself")
                            try:
                                for how in LOADS if (salt == 0 and mesh_name != "mesh") or thorough else (LOADS[(k + salt) % 6], "Grid.from_netCDF"):
                                    ctx.step()
                                    h = load(how, p, nc)
                                    expect(isinstance(h, Grid_U), "%s: loaded as %s", how, type(h).__name__)
                                    expect(h.mesh_name == mesh_name, "%s: mesh name %s", how, h.mesh_name)
                                    same(describe(h), want, how)
                                    expect(answers(h) == a, "%s: the loaded grid answers %s, the saved one %s", how, answers(h), a)
                                p2, nc2 = save("open dataset", h, sc, "netcdf4")
                                same(describe(load("Grid.from_netCDF", p2, nc2)), want, "saved twice")
                                nc2.close()
                            finally:
                                if nc is not None:
                                    nc.close()
                                if p is not None and os.path.exists(p):
                                    os.remove(p)

                        ctx.case("%s %s %s %s %s salt=%d" % (name, "+".join(chosen) or "-", way, fmt, mesh_name, salt), one)
                        ctx.state("rt", name, tuple(chosen), salt)


# --- dialects of the convention ----------------------------------------------------------
COORD = {
    "standard_name": (("standard_name", "longitude"), ("standard_name", "latitude")),
    "projection": (("standard_name", "projection_x_coordinate"), ("standard_name", "projection_y_coordinate")),
    "degrees_east": (("units", "degrees_east"), ("units", "degrees_north")),
    "degree_E": (("units", "degree_E"), ("units", "degree_N")),
    "degreesE": (("units", "degreesE"), ("units", "degreesN")),
    "degree_east": (("units", "degree_east"), ("units", "degree_north")),
    "degrees_E": (("units", "degrees_E"), ("units", "degrees_N")),
    "degreeE": (("units", "degreeE"), ("units", "degreeN")),
}
START = ("0 stated", "0 unstated", "1 stated", "1 unstated", "2 stated")
ORDER = ("C+dim", "F+dim", "C", "F")


def units_dia(tier):
    return [[m, s, o] for m in MESHES for s in START for o in ORDER]


def run_dia(ctx, unit):
    import netCDF4

    name, start, order = unit
    nn, faces = MESHES[name]
    base = int(start[0])
    if start == "1 unstated" and max(map(max, faces)) != nn - 1:
        return  # nothing in the file tells
    if order == "F" and len(faces) in (2, 3, 4):
        pass
    thorough = os.environ.get("VMC_TIER") == "thorough"
    ps = parts_of(name, 0)
    sets = [(), ("edges", "boundaries"), ("face_face_connectivity",), PARTS, ("edges", "face_edge_connectivity", "edge_coordinates"), ("face_coordinates", "boundaries", "boundary_coordinates")]
    i = -1
    for chosen, coord, names, dtype, pad in itertools.product(sets, COORD, ("lon lat", "lat lon"), ("i4", "i8", "i2"), ("fill", "default", "-1")):
        i += 1
        if not thorough and (i + len(name)) % 3 and not (coord == "standard_name" and dtype == "i4"):
            continue
        w = max(map(len, faces))
        ragged = any(len(f) < w for f in faces)
        if pad == "-1" and base:
            continue  # -1 shifted by a start index is not what the file means
        # without a named dimension, only the shape tells the order
        if not order.endswith("dim"):
            if w != 3 and order == "F":
                continue
            if len(faces) == 3 and (order == "F" or w != 3):
                continue
            if order == "F" and any(len(ps[p]) == 2 for p in ("edges", "boundaries") if p in chosen):
                continue
            if order == "C" and (len(faces) == 3 and w != 3 or any(len(ps[p]) == 2 and ps[p].shape[1] != 2 for p in ("edges", "boundaries") if p in chosen)):
                continue
        if start == "1 unstated" and ("boundaries" in chosen and ps["boundaries"].max() != nn - 1 or "edges" in chosen and ps["edges"].max() != nn - 1):
            continue

        def one():
            nc = netCDF4.Dataset("vmc-c17d-%d-%d" % (os.getpid(), next(_N)), "w", diskless=True, persist=False)
            try:
                write(nc, name, chosen, ps, base, "unstated" not in start, order, coord, names, dtype, pad)
                g = load("from_nc_dataset", None, nc)
                want = wanted(name, chosen)
                got = describe(g)
                same(got, want, "from_nc_dataset")
                same(describe(load("Grid.from_netCDF", None, nc)), want, "Grid.from_netCDF")
                ctx.step(2)
                answers(g)
            finally:
                nc.close()

        ctx.case("dialect %s start %s %s %s %s names=%s %s pad=%s" % (name, start, order, "+".join(chosen) or "-", coord, names, dtype, pad), one)
        ctx.state("dia", name, start, order, chosen, coord, names, dtype, pad)


def write(nc, name, chosen, ps, base, stated, order, coord, names, dtype, pad):
    nn, faces = MESHES[name]
    w = max(map(len, faces))
    sizes = {"n_node": nn, "n_face": len(faces), "n_max": w, "n_two": 2, "n_edge": len(ps["edges"]), "n_bnd": len(ps["boundaries"])}
    for d, n in sizes.items():
        nc.createDimension(d, n)
    mesh = nc.createVariable("topo", "i4", ())
    mesh.cf_role = "mesh_topology"
    mesh.topology_dimension = 2

    def coords(prefix, dim, xy):
        for k, (axis, (att, val)) in enumerate(zip(("lon", "lat"), COORD[coord])):
            v = nc.createVariable("%s_%s" % (prefix, axis), "f8", (dim,))
            v.setncattr(att, val)
            if att == "standard_name":
                v.units = "degrees"
            v[:] = [p[k] for p in xy]
        return " ".join("%s_%s" % (prefix, a) for a in names.split())

    mesh.node_coordinates = coords("nd", "n_node", NODES[:nn])
    if order.endswith("dim"):
        mesh.face_dimension = "n_face"
        mesh.edge_dimension = "n_edge"
        mesh.boundary_dimension = "n_bnd"

    def conn(role, attr, dim, second, arr):
        a = np.ma.masked_less(np.ma.asarray(arr), 0) if role in ("face_node_connectivity", "face_edge_connectivity") else np.ma.asarray(arr)
        dims = (dim, second)
        kw = {"fill_value": -1 if pad == "-1" else 9999} if pad in ("fill",) else {}
        if pad == "-1":
            kw = {"fill_value": -1}
            if role == "face_face_connectivity":
                kw = {}
        b = a.astype(np.int64) + base
        if role == "face_face_connectivity":
            b = np.ma.asarray(np.where(np.asarray(a) < 0, -1, np.asarray(a) + base))
        if order[0] == "F":
            b, dims = b.T, dims[::-1]
        v = nc.createVariable(role, dtype, dims, **kw)
        if role == "face_face_connectivity":
            v.flag_values = -1
        if stated:
            v.start_index = np.int32(base)
        v[:] = b
        mesh.setncattr(attr or role, role)

    conn("face_node_connectivity", None, "n_face", "n_max", faces_of(name))
    if "edges" in chosen:
        conn("edge_node_connectivity", None, "n_edge", "n_two", ps["edges"])
    if "boundaries" in chosen:
        conn("boundary_node_connectivity", None, "n_bnd", "n_two", ps["boundaries"])
    for p in ("face_face_connectivity", "face_edge_connectivity"):
        if p in chosen:
            conn(p, None, "n_face", "n_max", ps[p])
    for p, d in (("face_coordinates", "n_face"), ("edge_coordinates", "n_edge"), ("boundary_coordinates", "n_bnd")):
        if p in chosen:
            mesh.setncattr(p, coords(p[:4], d, ps[p]))


# --- which mesh, and what is refused ---------------------------------------------------------
def run_refuse(ctx, unit):
    import netCDF4
    from gridded.grids import Grid, Grid_U

    def build(mut):
        nc = netCDF4.Dataset("vmc-c17r-%d-%d" % (os.getpid(), next(_N)), "w", diskless=True, persist=False)
        write(nc, "tri4", (), parts_of("tri4"), 0, True, "C+dim", "standard_name", "lon lat", "i4", "default")
        mut(nc)
        return nc

    def second(nc, role="mesh_topology", dim=2):
        m = nc.createVariable("other", "i4", ())
        m.cf_role = role
        m.topology_dimension = dim
        m.node_coordinates = "nd2_lon nd2_lat"
        m.face_node_connectivity = "fn2"
        for a, v in (("lon", "longitude"), ("lat", "latitude")):
            x = nc.createVariable("nd2_" + a, "f8", ("n_max",))
            x.standard_name = v
            x[:] = [0, 1, 2] if a == "lon" else [0, 5, 1]
        f = nc.createVariable("fn2", "i4", ("n_two", "n_max"))
        f.start_index = 0
        f[:] = [[0, 1, 2], [2, 1, 0]]

    def attempt(nc, **kw):
        try:
            return Grid_U.from_nc_dataset(nc, **kw)
        except ValueError:
            return None

    muts = {
        "missing variable": (lambda nc: nc["topo"].setncattr("node_coordinates", "nowhere_lon nowhere_lat"), None),
        "no node_coordinates": (lambda nc: nc["topo"].delncattr("node_coordinates"), None),
        "no cf_role": (lambda nc: nc["topo"].delncattr("cf_role"), None),
        "other role": (lambda nc: nc["topo"].setncattr("cf_role", "timeseries_id"), None),
        "three-dimensional": (lambda nc: nc["topo"].setncattr("topology_dimension", 3), None),
        "foreign standard name": (lambda nc: nc["nd_lon"].setncattr("standard_name", "depth"), None),
        "no units": (lambda nc: (nc["nd_lon"].delncattr("standard_name"), nc["nd_lon"].delncattr("units")), None),
        "foreign units": (lambda nc: (nc["nd_lon"].delncattr("standard_name"), nc["nd_lon"].setncattr("units", "m")), None),
        "two meshes": (second, None),
        "two, one not 2-D": (lambda nc: second(nc, dim=3), "topo"),
        "two, one no mesh": (lambda nc: second(nc, role="something"), "topo"),
        "role with blanks": (lambda nc: nc["topo"].setncattr("cf_role", " mesh_topology "), "topo"),
    }
    for what, (mut, want) in muts.items():

        def one():
            nc = build(mut)
            try:
                ctx.step()
                g = attempt(nc)
                expect((g is None) == (want is None), "%s: %s", what, "refused" if g is None else "accepted as %s" % g.mesh_name)
                if g is not None:
                    same(describe(g), wanted("tri4", ()), what)
                if what.startswith("two"):
                    same(describe(attempt(nc, mesh_name="topo")), wanted("tri4", ()), "named")
                    expect(attempt(nc, mesh_name="absent") is None, "an absent mesh was found")
                    h = attempt(nc, mesh_name="other")
                    expect((h is not None) == (what == "two meshes"), "the other mesh: %s", h)
                    expect(h is None or describe(h)["faces"] == [[0, 1, 2], [2, 1, 0]] and describe(h)["nodes"] == [[0, 0], [1, 5], [2, 1]], "the other mesh was read as %s", h and describe(h))
            finally:
                nc.close()

        ctx.case("mesh choice: " + what, one)
        ctx.state("refuse", what)

    def formats():
        g = Grid_U(nodes=np.array(NODES[:3]), faces=[(0, 1, 2)])
        with Scratch() as sc:
            for bad in ("netcdf5", "", "NETCDF4", "text"):
                p = sc.path()
                try:
                    quiet(g.save, p, format=bad)
                except ValueError:
                    expect(not os.path.exists(p), "a file was written in format %r", bad)
                    continue
                raise Mismatch("format %r accepted" % bad)
            for fmt, models in (("netcdf3", ("NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF3_64BIT")), ("netcdf4", ("NETCDF4", "NETCDF4_CLASSIC"))):
                nc = quiet(g.save, sc.path(), format=fmt)
                expect(nc.data_model in models, "%s written as %s", fmt, nc.data_model)
                nc.close()

    ctx.case("formats", formats)


def run_sizes(ctx, unit):
    """Meshes whose numbers pass the limits of the small integer types, saved and loaded."""
    import netCDF4
    from gridded.grids import Grid_U

    n, shape = unit
    nodes, f, faces, k, pts = Z.strip(n, shape)
    g = Grid_U(nodes=nodes, faces=f.copy(), edges=[(i, i + 1) for i in range(len(nodes) - 1)], boundaries=[(i, i + 2) for i in range(0, len(nodes) - 2)])
    wide = np.full((n, 3), -1)
    for r in range(n):
        wide[r] = [r - 1, r + 1 if r + 1 < n else -1, -1]
    if shape == "triangles":
        g.face_face_connectivity = wide

    def one(fmt):
        with Scratch() as sc:
            p = sc.path()
            ctx.step(2)
            nc = quiet(g.save, p, format=fmt)
            nc.close() if nc.isopen() else None
            h = quiet(Grid_U.from_netCDF, filename=p)
            expect(np.array_equal(h.nodes, nodes), "nodes differ")
            for what in ("faces", "edges", "boundaries", "face_face_connectivity"):
                a, b = getattr(g, what), getattr(h, what)
                if a is None:
                    continue
                a, b = (np.ma.filled(np.ma.asarray(x), -1) for x in (a, b))
                expect(a.shape == b.shape, "%s are %s, not %s", what, b.shape, a.shape)
                bad = np.nonzero((a != b).any(axis=1))[0]
                expect(not len(bad), "%s number %s is %s, not %s", what, bad[:1], b[bad[:1]], a[bad[:1]])

    for fmt in ("netcdf4", "netcdf3"):
        ctx.case("strip of %d %s, %s" % (n, shape, fmt), one, fmt)
        ctx.state("sizes", n, shape, fmt)


SPACES = [
    Space("sizes", Z.units_strip, run_sizes, "strips of 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) triangles or mixed faces, in either format"),
    Space("round-trip", units_rt, run_rt, "10 meshes (1-4 triangles, quads, mixed, clockwise, unused nodes) x all legal subsets of the 7 optional parts x 3 contents x 2 names x 2-4 ways to save x formats x 2-6 ways to load; saved twice"),
    Space("dialects", units_dia, run_dia, "10 meshes x 5 start indices x 4 storage orders x 6 part sets x 8 coordinate conventions x 2 name orders x 3 integer types x 3 paddings"),
    Space("mesh-choice", lambda tier: [0], run_refuse, "12 ill-formed or ambiguous files, formats"),
]
ASSUMPTIONS = ["square connectivity arrays without a named dimension are in the standard order", "-1 denotes a missing entry only with start index 0 or as flag value"]
