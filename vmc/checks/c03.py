"""C03 -- the caller's arrays are the caller's, and results are not windows into the library.

A world is a set of caller-owned inputs (arrays, lists, dictionaries), an object
made from them and an alphabet of public queries that take them.  All sequences
of queries up to the bound are run; after every single call the inputs must be
bit for bit what they were, and every array a query returned is then filled with
garbage, which must not show in anything that follows.
"""
import copy
import itertools
import os
from datetime import timedelta

import numpy as np

from .. import fields as F
from .. import meshes as M
from .. import sgrids as S
from ..core import Space, expect

FORMS = ("plain", "readonly", "fortran", "masked", "list", "int")


def shape_input(a, form):
    a = np.array(a)
    if form == "readonly":
        a.setflags(write=False)
    elif form == "fortran":
        a = np.asfortranarray(a)
    elif form == "masked":
        a = np.ma.array(a, mask=np.zeros(a.shape, bool))
    elif form == "list":
        a = a.tolist()
    elif form == "int":
        a = np.round(a).astype(np.int64)
    return a


def freeze(x):
    """A comparable snapshot of a caller-owned thing."""
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", x.shape, str(x.dtype), np.ma.getdata(x).tobytes(), np.ma.getmaskarray(x).tobytes(), bool(x.hardmask))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), repr(x.tolist()) if x.dtype == object else x.tobytes(), x.flags.writeable)
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    return ("v", repr(x))


def value(x):
    """A comparable snapshot of a result (the value under a mask does not count)."""
    if isinstance(x, (tuple, list)):
        return tuple(value(v) for v in x)
    if isinstance(x, np.ma.MaskedArray):
        return ("a", x.shape, repr(np.round(np.ma.filled(x.astype(float), -9.75e9), 9).tolist()))
    if isinstance(x, np.ndarray):
        return ("a", x.shape, repr(np.round(x.astype(float), 9).tolist()))
    return ("v", repr(x))


def spoil(x):
    if isinstance(x, (tuple, list)):
        for v in x:
            spoil(v)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
        if isinstance(x, np.ma.MaskedArray):
            x.soften_mask()
            if x.mask is not np.ma.nomask:
                x.mask = np.zeros(x.shape, bool)
            np.ma.getdata(x)[...] = 1 if x.dtype.kind in "iub" else -12345.5
            x.mask = np.arange(x.size).reshape(x.shape) % 2 == 0
        else:
            x[...] = 1 if x.dtype.kind in "iub" else -12345.5


# --- worlds ---------------------------------------------------------------------
PTS_U = [(3, 1), (0.5, 3), (5, 3), (-2, 1), (3, 2), (1, 0.25)]


def world_u(form):
    from gridded.grids import Grid_U

    nodes = np.array([(0, 0), (4, 0), (4, 4), (0, 4), (9, 5)], float)
    faces = np.array([(0, 1, 2), (3, 0, 2), (1, 4, 2)])
    I = {"nodes": shape_input(nodes, form), "faces": shape_input(faces, form), "pts": shape_input(PTS_U, form),
         "ndata": shape_input(S.values((5,), 1), form), "fdata": shape_input(S.values((3,), 2), form), "ndata3": np.asanyarray(shape_input(S.values((3, 5), 3), form)),
         "one": shape_input([3, 1], form), "edges": shape_input([[0, 1], [1, 2]], form), "bounds": shape_input([[0, 1], [1, 4]], form),
         "fcoord": shape_input([[3, 1], [1, 3], [6, 3]], form), "data": {}}
    g = Grid_U(nodes=I["nodes"], faces=I["faces"], edges=I["edges"], boundaries=I["bounds"], face_coordinates=I["fcoord"], data=I["data"])
    A = np.asanyarray
    ops = {
        "locate": lambda: g.locate_faces(I["pts"]),
        "locate1": lambda: g.locate_faces(I["one"]),
        "simple": lambda: g.locate_faces(I["pts"], method="simple"),
        "index_of": lambda: g.index_of(I["pts"]),
        "nodes_near": lambda: g.locate_nodes(I["pts"]),
        "alphas": lambda: g.interpolation_alphas(A(I["pts"])),
        "inode": lambda: g.interpolate_var_to_points(I["pts"], A(I["ndata"]), location="node"),
        "iface": lambda: g.interpolate_var_to_points(I["pts"], A(I["fdata"]), location="face"),
        "islice": lambda: g.interpolate_var_to_points(I["pts"], I["ndata3"], location="node", slices=(1,)),
        "infer": lambda: g.infer_location(A(I["ndata"])),
        "build_fc": lambda: g.build_face_coordinates(),
        "build_edges": lambda: g.build_edges(),
        "build_ff": lambda: g.build_face_face_connectivity(),
        "build_b": lambda: g.build_boundaries(),
        "build_fe": lambda: (g.build_edges(), g.build_face_edge_connectivity(), None)[2],
        "build_ec": lambda: g.build_edge_coordinates(),
        "set_nodes": lambda: setattr(g, "nodes", I["nodes"]),
        "set_faces": lambda: setattr(g, "faces", I["faces"]),
    }
    return I, ops


def world_s(form):
    from gridded.grids import Grid_S

    sg = S.grid("rect", "e", 3, 4)
    lon, lat = sg.arrays()
    sh = lambda a: np.asanyarray(shape_input(a, "plain" if form == "list" else form))  # noqa: E731
    I = {"lon": sh(lon), "lat": sh(lat), "cmask": sh(np.array([[0, 0, 1], [0, 0, 0]], bool)) if form not in ("int",) else np.array([[0, 0, 1], [0, 0, 0]], bool),
         "pts": shape_input([(1, 1), (6, 3), (10, 2), (-3, -3), (5, 6), (9, 7)], form), "one": shape_input([1, 1], form),
         "node": sh(S.values((3, 4), 1)), "center": sh(S.values((2, 3), 2)), "edge1": sh(S.values((2, 4), 3)), "edge2": sh(S.values((3, 3), 4)),
         "node3": sh(S.values((2, 3, 4), 5)), "idx": sh(np.array([[0, 0], [1, 2], [1, 1]])), "idxm": np.ma.array([[0, 0], [1, 2], [1, 1]], mask=[[0, 0], [1, 1], [0, 0]]),
         "three": shape_input([(1, 1), (6, 3), (5, 6)], form)}
    kw = dict(node_lon=I["lon"], node_lat=I["lat"])
    I["clon"], I["clat"] = ((np.asarray(a)[:-1, :-1] + np.asarray(a)[1:, 1:]) / 2 for a in (I["lon"], I["lat"]))
    g = Grid_S(center_mask=I["cmask"], center_lon=I["clon"], center_lat=I["clat"], **kw)
    A = np.asanyarray
    ops = {
        "locate": lambda: g.locate_faces(I["pts"]),
        "locate1": lambda: g.locate_faces(I["one"]),
        "locate_memo": lambda: g.locate_faces(I["pts"], _memo=True),
        "nomask": lambda: (g.locate_faces(I["pts"], use_mask=False), g.locate_faces(I["pts"], use_mask=True))[0],
        "near": lambda: g.locate_nearest(I["pts"], "node"),
        "inode": lambda: g.interpolate_var_to_points(A(I["pts"]), I["node"], location="node"),
        "icenter": lambda: g.interpolate_var_to_points(A(I["pts"]), I["center"], location="center"),
        "iedge1": lambda: g.interpolate_var_to_points(A(I["pts"]), I["edge1"], location="edge1"),
        "iedge2": lambda: g.interpolate_var_to_points(A(I["pts"]), I["edge2"], location="edge2"),
        "iedge2m": lambda: g.interpolate_var_to_points(A(I["pts"]), I["edge2"], location="edge2", _memo=True),
        "islice": lambda: g.interpolate_var_to_points(A(I["pts"]), I["node3"], location="node", slices=(1,)),
        "inodem": lambda: g.interpolate_var_to_points(A(I["pts"]), I["node"], location="node", _memo=True),
        "iindices": lambda: g.interpolate_var_to_points(A(I["three"]), I["node"], location="node", indices=I["idxm"]),
        "byindex": lambda: g.get_variable_by_index(I["node"], I["idxm"]),
        "atindex": lambda: g.get_variable_at_index(I["center"], I["idxm"]),
        "infer": lambda: g.infer_location(A(I["edge1"])),
        "slices": lambda: g.get_padding_slices(("low", "none")),
        "nodes": lambda: g.nodes,
        "centers": lambda: g.centers,
    }
    return I, ops


def world_r(form):
    from gridded.grids import Grid_R

    sh = lambda a: np.asanyarray(shape_input(a, "plain" if form == "list" else form))  # noqa: E731
    I = {"lon": shape_input(np.array([-5.0, -4, -2, 2]), form), "lat": shape_input(np.array([10.0, 11, 14]), form),
         "pts": shape_input([(-4.5, 10.25), (1, 13), (3, 12), (-2, 11)], form), "one": shape_input([1, 13], form),
         "v": sh(S.values((3, 4), 1)), "vt": sh(S.values((4, 3), 2)), "v3": sh(S.values((2, 3, 4), 3))}
    g = Grid_R(node_lon=np.asanyarray(I["lon"]), node_lat=np.asanyarray(I["lat"]))
    ops = {
        "locate": lambda: g.locate_faces(np.asanyarray(I["pts"])),
        "locate1": lambda: g.locate_faces(np.asanyarray(I["one"])),
        "i": lambda: g.interpolate_var_to_points(I["pts"], I["v"]),
        "i1": lambda: g.interpolate_var_to_points(I["one"], I["v"]),
        "it": lambda: g.interpolate_var_to_points(I["pts"], I["vt"]),
        "islice": lambda: g.interpolate_var_to_points(I["pts"], I["v3"], slices=(1,)),
        "inear": lambda: g.interpolate_var_to_points(I["pts"], I["v"], method="nearest"),
        "nodes": lambda: g.nodes,
        "centers": lambda: g.centers,
        "center_lon": lambda: g.center_lon,
        "infer": lambda: g.infer_location(np.asanyarray(I["v"])),
    }
    return I, ops


def _world_v(fxn):
    def make(form):
        from gridded.depth import L_Depth
        from gridded.time import Time
        from gridded.variable import Variable, VectorVariable

        fx = F.FIXTURES[fxn]
        sh = lambda a: np.asanyarray(shape_input(a, "plain" if form == "list" else form))  # noqa: E731
        pairs, pts = F.batch(fx, "L3")
        pts = pts[5:17]
        times = [F.at_minute(m) for m in F.TIMES["t3"]]
        I = {"data": shape_input(F.data_for(fx, "t3", "L3", 3), form), "flat": shape_input(F.data_for(fx, "t3", "nodepth", 5), form), "pts": shape_input(pts, form),
             "wide": shape_input(np.ascontiguousarray(pts.T), form), "lons": pts[:, 0].copy(), "lats": pts[:, 1].tolist(), "one": shape_input(pts[1], form),
             "times": np.array(times, dtype=object) if form != "list" else list(times), "levels": sh(np.array([0.0, 2, 5])), "attrs": {"a": 1, "b": [2, 3]},
             "grid": fx.make()}
        grid = I.pop("grid")
        dep = L_Depth(terms={"depth_levels": I["levels"]})
        v = Variable(name="v", grid=grid, time=I["times"], depth=dep, data=I["data"], location=fx.loc, attributes=I["attrs"])
        w = Variable(name="w", grid=grid, time=Time(I["times"], tz_offset=0), data=I["flat"], location=fx.loc, attributes=I["attrs"])
        vv = VectorVariable(name="vv", grid=grid, time=w.time, variables=[w, w])
        t = F.at_minute(3)
        late = t + timedelta(days=30)
        ops = {
            "at": lambda: v.at(I["pts"], t),
            "at2": lambda: v.at(I["pts"], F.at_minute(12)),
            "atflat": lambda: w.at(I["pts"], t),
            "atwide": lambda: v.at(I["wide"], t),
            "atone": lambda: v.at(I["one"], t),
            "lonlat": lambda: w.at(lons=I["lons"], lats=I["lats"], time=t),
            "unmask": lambda: v.at(I["pts"], t, unmask=True),
            "extra": lambda: v.at(I["pts"], late, extrapolate=True, bottom_boundary_condition="extrapolate"),
            "vector": lambda: vv.at(I["pts"], t),
            "nomem": lambda: v.at(I["pts"], t, _mem=False),
            "alphas": lambda: dep.interpolation_alphas(np.asarray(I["pts"], float), t, (3,)),
            "setdata": lambda: setattr(w, "data", I["flat"]),
            "settime": lambda: setattr(w, "time", I["times"]),
            "tzedit": lambda: (setattr(w.time, "tz_offset", 0), setattr(w.time, "tz_offset", 5), setattr(w.time, "tz_offset", 0), None)[3],
            "shape": lambda: (v.data_shape, v.grid_shape, tuple(v.dimension_ordering)),
            "info": lambda: (v.info, str(vv))[0] and None,
        }
        return I, ops

    return make


def world_x(form):
    from gridded import utilities as U
    from gridded.io import verdat
    from gridded.pysgrid import utils as SU
    from gridded.pyugrid import util as UU
    from gridded.time import Time

    sh = lambda a: np.asanyarray(shape_input(a, "plain" if form == "list" else form))  # noqa: E731
    times = [F.at_minute(m) for m in F.TIMES["t3"]]
    I = {"pts": shape_input([(1, 2, 3), (4, 5, 6), (7, 8, 9), (10, 11, 12)], form), "mask": sh(np.array([[0, 1], [1, 0]])), "tri": sh(np.array([[0.0, 0], [4, 0], [0, 4]])),
         "p": sh(np.array([1.0, 1])), "x": sh(np.array([1.0, 2, 3])), "segs": shape_input([[0, 1], [1, 2], [2, 0], [5, 6], [6, 7], [7, 5]], form),
         "times": np.array(times), "res": sh(np.array([1.0, 2, 3, 4])), "nodes": np.array([[0.0, 0], [9, 0], [0, 9], [0, 0], [0, 0], [1, 1], [3, 1], [1, 3]])}
    ops = {
        "reorg": lambda: U._reorganize_spatial_data(I["pts"]),
        "mask": lambda: U.convert_mask_to_numpy_mask(I["mask"]),
        "tri": lambda: UU.point_in_tri(I["tri"], I["p"]),
        "pair": lambda: SU.pair_arrays(I["x"], I["x"]),
        "order": lambda: verdat.order_boundary_segments(np.asanyarray(I["segs"])),
        "time": lambda: (lambda t: (setattr(t, "tz_offset", 3), None)[1])(Time(I["times"], tz_offset=0, displacement=timedelta(hours=1), origin=times[1])),
        "timeof": lambda: (lambda a: (setattr(Time(a, tz_offset=0), "tz_offset", 3), value(np.array([(x - times[0]).total_seconds() for x in a.data])))[1])(Time(I["times"], tz_offset=0)),
    }
    return I, ops


def world_grid_files(form):
    """Constructing through dictionaries: the topology and attributes belong to the caller."""
    import netCDF4

    from gridded.gridded import Dataset
    from gridded.grids import Grid

    nc = netCDF4.Dataset("vmc-c03-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
    F._NC.append(nc)
    nc.createDimension("y", 3)
    nc.createDimension("x", 4)
    sg = S.grid("rect", "e", 3, 4)
    lon, lat = sg.arrays()
    for n, a in (("my_lon", lon), ("my_lat", lat)):
        nc.createVariable(n, "f8", ("y", "x"))[:] = a
    nc.createVariable("data", "f8", ("y", "x"))[:] = S.values((3, 4))
    from gridded.variable import Variable

    I = {"topo": {"node_lon": "my_lon", "node_lat": "my_lat"}, "attrs": {"title": "x"}, "vars": {}}
    ops = {
        "grid": lambda: Grid.from_netCDF(dataset=nc, grid_topology=I["topo"]).node_lon[:],
        "variable": lambda: Variable.from_netCDF(dataset=nc, varname="data", grid_topology=I["topo"]).at([[1.0, 1.0]], None),
        "dataset": lambda: str(sorted(Dataset(grid=Grid.from_netCDF(dataset=nc, grid_topology=I["topo"]), variables=I["vars"], attributes=I["attrs"]).attributes)),
        "stype": lambda: str(type(Grid.from_netCDF(dataset=nc, grid_topology=I["topo"], grid_type="sgrid")).__name__),
    }
    return I, ops


WORLDS = {"U": world_u, "S": world_s, "R": world_r, "V-U": _world_v("U-node"), "V-S": _world_v("S-edge1"), "V-R": _world_v("R"), "X": world_x, "files": world_grid_files}
FORMS_OF = {"files": ("plain",)}
NOSPOIL = {"reorg"}  # documented to hand back the caller's own data


def tier():
    return os.environ.get("VMC_TIER", "quick")


def units(t):
    out = []
    for w in WORLDS:
        for f in FORMS_OF.get(w, FORMS):
            n = len(WORLDS[w]("plain")[1])
            out += [[w, f, k] for k in range(n)]
    return out


def run(ctx, unit):
    wname, form, k = unit
    _, ops = WORLDS[wname](form)
    names = list(ops)
    base = {}
    for n in names:
        I, o = WORLDS[wname](form)
        base[n] = value(o[n]())
    first = names[k]
    depth = 3 if (form == "plain" or tier() == "thorough") else 2
    for rest in itertools.product(names, repeat=depth - 1):
        hist = (first,) + rest

        def one():
            I, o = WORLDS[wname](form)
            before = {n: freeze(x) for n, x in I.items()}
            for n in hist:
                ctx.step()
                r = o[n]()
                for key, x in I.items():
                    expect(freeze(x) == before[key], "%s changed the caller's %s", n, key)
                expect(value(r) == base[n], "%s now gives %s, it gave %s before results were written to", n, str(value(r))[:300], str(base[n])[:300])
                if n not in NOSPOIL:
                    spoil(r)
                    for key, x in I.items():
                        expect(freeze(x) == before[key], "writing into the result of %s changes the caller's %s", n, key)
            ctx.state(wname, form, hist[-2:])
            ctx.outcome(base[hist[-1]])

        ctx.case("%s/%s %s" % (wname, form, " > ".join(hist)), one)


SPACES = [
    Space("worlds", units, run, "8 worlds (unstructured, curvilinear, rectangular grid, 3 variables, utilities, files) x 6 input forms x all sequences of 2 (plain: 3; thorough: 3) of 4-18 queries"),
]
ASSUMPTIONS = ["a query may refuse an input form it cannot read; it may not change it"]
