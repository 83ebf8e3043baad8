"""C22 -- a curvilinear grid survives its SGRID file.

Every padding of every axis, storage order, way of stating the coordinates and
subset of the optional parts, written to a file by hand; loaded, it must be the
grid described (and answer as the one made by hand); saved and loaded again it
must still be.
"""
import itertools
import os
import shutil
import tempfile
import warnings
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .. import sgrids as S
from ..core import Mismatch, Space, expect
from .c18 import blank, dims, lst, var

PAD = S.PAD
_N = itertools.count()
SIZE = {"none": -1, "low": 0, "high": 0, "both": 1}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


class Desc:
    """What a file says."""

    def __init__(self, sg, order="yx", face=("none", "none"), e1=None, e2=None, vert=None, parts=(), how="attribute", masks=(), bare=True, names=0, loc="stated"):
        self.sg, self.order, self.face, self.e1, self.e2, self.vert = sg, order, face, e1, e2, vert  # face: (y, x)
        self.parts, self.how, self.masks, self.bare, self.names, self.loc = parts, how, masks, bare, names, loc
        ny, nx = sg.M, sg.N
        self.size = {"xn": nx, "yn": ny}
        if face is not None:
            self.size.update(yf=ny + SIZE[face[0]], xf=nx + SIZE[face[1]])
        if e1 is not None:
            self.size.update(yu=ny + SIZE[e1], xu=nx)
        if e2 is not None:
            self.size.update(xv=nx + SIZE[e2], yv=ny)
        self.dims = {"node": ("yn", "xn"), "face": ("yf", "xf"), "edge1": ("yu", "xn" if bare else "xu"), "edge2": ("yn" if bare else "yv", "xv")}

    def has(self, where):
        return {"node": True, "face": self.face is not None, "edge1": self.e1 is not None, "edge2": self.e2 is not None}[where]

    def shape(self, where):
        return tuple(self.size[d] for d in self.dims[where])

    def coords(self, where):
        if where == "node":
            return self.sg.arrays()
        k = {"face": 1, "edge1": 2, "edge2": 3}[where]
        # smooth, so that bearings mean something
        i, j = np.indices(self.shape(where), dtype=float)
        return (j * 2 + i * .25) / 8 + k, (i * 1.5 + j * j * .125) / 8 + 40 + k

    def mask(self, where):
        """0 masked, 1 not, as in ROMS"""
        sh = self.shape(where)
        m = np.ones(sh)
        m.flat[{"node": 0, "face": -1, "edge1": 1, "edge2": 2}[where] % m.size] = 0
        return m

    def of(self, a):
        return a if self.order == "yx" else np.swapaxes(a, -1, -2)

    def vdims(self, where):
        return self.dims[where] if self.order == "yx" else self.dims[where][::-1]


NAMES = [
    {"node": ("lon_psi", "lat_psi"), "face": ("lon_rho", "lat_rho"), "edge1": ("lon_u", "lat_u"), "edge2": ("lon_v", "lat_v")},
    {"node": ("XCOR", "YCOR"), "face": ("XZ", "YZ"), "edge1": ("XU", "YU"), "edge2": ("XV", "YV")},
    # names that are attributes of a grid, of something else
    {"node": ("center_lon", "center_lat"), "face": ("node_lon", "node_lat"), "edge1": ("edge2_lon", "edge2_lat"), "edge2": ("edge1_lon", "edge1_lat")},
]


def put(nc, d, fields=True, dtype="f8", packed=False, angle=False):
    dims(nc, **{k: v for k, v in d.size.items() if not (d.bare and k in ("xu", "yv"))})
    if d.vert:
        dims(nc, zl=2 if d.vert == "none" else 3, zw=3)
    g = nc.createVariable("grid" if d.names != 2 else "angles", "i4", ())
    g.cf_role = "grid_topology"
    g.topology_dimension = 2
    g.node_dimensions = "xn yn"
    if d.face is not None:
        g.face_dimensions = "xf: xn (padding: %s) yf: yn (padding: %s)" % (d.face[1], d.face[0])
    if d.e1 is not None:
        g.edge1_dimensions = "%s yu: yn (padding: %s)" % ("xn" if d.bare else "xu: xn", d.e1)
    if d.e2 is not None:
        g.edge2_dimensions = "xv: xn (padding: %s) %s" % (d.e2, "yn" if d.bare else "yv: yn")
    if d.vert:
        g.vertical_dimensions = "zl: zw (padding: %s)" % d.vert
    if d.how == "spaces":
        for a in g.ncattrs():
            if a.endswith("_dimensions"):
                g.setncattr(a, g.getncattr(a).replace(" ", "  "))
    nm = NAMES[d.names]
    for where in ("face", "edge2", "node", "edge1"):
        if where != "node" and where not in d.parts:
            continue
        for n, a, std in zip(nm[where], d.coords(where), ("longitude", "latitude")):
            v = nc.createVariable(n, "i2" if packed else dtype, d.vdims(where))
            v.standard_name = std
            v.long_name = "%s of %s" % (std, where)
            v.units = "degrees_east" if std == "longitude" else "degrees_north"
            v.axis = "X" if std == "longitude" else "Y"
            if packed:
                v.scale_factor = 1 / 64.0
                v.add_offset = 1.0
            v[:] = d.of(a)
        if d.how in ("attribute", "spaces") or (where != "node" and d.how == "names"):
            setattr(g, where + "_coordinates", "  ".join(nm[where]) if d.how == "spaces" else " ".join(nm[where]))
    for where in d.masks:
        v = nc.createVariable("mask_" + where, "f4", d.vdims(where))
        v.flag_values = np.array([0., 1.])
        v.flag_meanings = "land, water"
        v[:] = d.of(d.mask(where))
    if angle and d.face is not None:
        var(nc, "angle", d.vdims("face"), d.of(S.values(d.shape("face"), 5) / 1024))
    if fields:
        for where in ("node", "face", "edge1", "edge2"):
            if d.has(where):
                at = {"grid": "grid"}
                if where in d.parts or where == "node":
                    at["coordinates"] = " ".join(nm[where])
                if where != "node" and d.loc == "stated":
                    at["location"] = where
                elif d.loc == "edge" and where in ("edge1", "edge2"):
                    at["location"] = "edge"
                if where in AXES:
                    at["axes"] = " ".join("%s: %s" % x for x in zip("XYZ", AXES[where]) if x[1])
                var(nc, "f_" + where, d.vdims(where), d.of(S.values(d.shape(where), 7)), standard_name=STANDARD[where], **at)
    return g


STANDARD = {"node": "thing", "face": "upward_z_flux", "edge1": "sea_water_x_velocity", "edge2": "sea_y_current_2"}
VECTOR = {"node": None, "face": "Z", "edge1": "X", "edge2": "Y"}
AXES = {"node": ("xn", "yn", None), "face": ("NMAX", "eta_2rho", "sigma1"), "edge1": ("u10", None, None)}


def check_axes(ctx, d, g):
    """What a variable of the file says of its axes."""
    for where in ("node", "face", "edge1", "edge2"):
        if d.has(where):
            v = getattr(g, "f_" + where)
            got = (v.x_axis, v.y_axis, v.z_axis)
            expect(got == AXES.get(where, (None,) * 3), "the axes of f_%s are %s", where, got)
            expect(v.vector_axis == VECTOR[where] and v.standard_name == STANDARD[where], "f_%s: %s along %s", where, v.standard_name, v.vector_axis)
            expect(v.grid == "grid" and tuple(v.dimensions) == tuple(d.vdims(where)), "f_%s: grid %s dimensions %s", where, v.grid, v.dimensions)


def same(a, b):
    a, b = np.ma.asarray(a), np.ma.asarray(b)
    return a.shape == b.shape and not np.ma.getmaskarray(b).any() and (a.data == b.data).all() and not np.ma.getmaskarray(a).any()


def expected_angles(d):
    lon, lat = (np.radians(d.of(a)) for a in d.coords("face"))
    out = np.empty(lon.shape)
    n = lon.shape[1]
    for i in range(lon.shape[0]):
        for j in range(n):
            k = min(j, n - 2)
            dl = lon[i, k + 1] - lon[i, k]
            east = np.sin(dl) * np.cos(lat[i, k + 1])
            north = np.cos(lat[i, k]) * np.sin(lat[i, k + 1]) - np.sin(lat[i, k]) * np.cos(lat[i, k + 1]) * np.cos(dl)
            out[i, j] = np.arctan2(north, east)
    return out


ATTR = {"node": ("node_lon", "node_lat", "node_mask"), "face": ("center_lon", "center_lat", "center_mask"), "edge1": ("edge1_lon", "edge1_lat", "edge1_mask"), "edge2": ("edge2_lon", "edge2_lat", "edge2_mask")}


def pads(d):
    """What the grid must say of its paddings, by array axis."""
    turn = (lambda t: t) if d.order == "yx" else (lambda t: t[::-1])
    return {"center_padding": turn(d.face), "edge1_padding": turn((d.e1, None)) if d.e1 else None, "edge2_padding": turn((None, d.e2)) if d.e2 else None}


def check_grid(ctx, d, g, angle=False):
    for where, (lon, lat, mask) in ATTR.items():
        if where == "node" or where in d.parts:
            for at, want in zip((lon, lat), d.coords(where)):
                expect(same(getattr(g, at), d.of(want)), "%s is %s, expected %s", at, lst(getattr(g, at)), d.of(want).tolist())
        else:
            expect(getattr(g, lon) is None and getattr(g, lat) is None, "the file has no %s coordinates, the grid has", where)
        m = getattr(g, mask)
        if where in d.masks and (where == "node" or where in d.parts):
            expect(m is not None and same(m[:], d.of(d.mask(where))), "%s is %s, expected %s", mask, None if m is None else lst(m[:]), d.of(d.mask(where)).tolist())
        elif where not in d.masks:
            expect(m is None, "the file has no mask of the %ss, the grid has %s", where, m)
    if d.face is not None:
        for k, want in pads(d).items():
            if want is not None:
                expect(tuple(getattr(g, k)) == want, "%s is %s, expected %s", k, getattr(g, k), want)
        if d.order == "yx" and "face" in d.parts:
            got = np.asarray(g.angles[:])
            if angle:
                expect(same(got, S.values(d.shape("face"), 5) / 1024), "the angles are not those of the file: %s", got.tolist())
            elif d.shape("face")[1] > 1:
                w = expected_angles(d)
                expect(got.shape == w.shape and np.allclose(np.exp(1j * got), np.exp(1j * w), atol=1e-9, rtol=0), "angles %s, expected %s", got.tolist(), w.tolist())
    expect(g.node_dimensions.split() == ["xn", "yn"], "node_dimensions %s", g.node_dimensions)


def manual(d):
    from gridded.grids import Grid_S

    lon, lat = d.sg.arrays()
    kw = {}
    for where, (a, b, m) in ATTR.items():
        if where != "node" and where in d.parts:
            kw[a], kw[b] = (d.of(x) for x in d.coords(where))
        if where in d.masks and (where in d.parts or where == "node"):
            kw[m] = d.of(d.mask(where))
    p = pads(d)
    return Grid_S(node_lon=d.of(lon), node_lat=d.of(lat), face_padding=p["center_padding"], edge1_padding=p["edge1_padding"], edge2_padding=p["edge2_padding"], **kw)


LM = [(Fr(1, 4), Fr(5, 8)), (Fr(3, 4), Fr(1, 8))]


def check_answers(ctx, d, g):
    """Values of each location, from the definition of the paddings."""
    if d.masks:
        return  # C11 decides those
    pts = [(c, l, m) for c in d.sg.cells for l, m in LM]
    P = np.array([tuple(map(float, d.sg.image(c, l, m))) for c, l, m in pts])
    off = S.offset(d.face)
    V = S.values(d.shape("face"), 7)
    want = [V[c[0] + off[0], c[1] + off[1]] for c, l, m in pts]
    got = g.interpolate_var_to_points(P, d.of(V), location="face")
    expect(lst(np.ma.filled(got, np.nan).reshape(-1)) == want, "face values are %s, expected %s", lst(got.reshape(-1)), want)
    if d.order == "xy":
        return
    if d.e1:
        o = S.EXTRA[d.e1][0]
        V = S.values(d.shape("edge1"), 7)
        want = [float((1 - l) * Fr(V[c[0] + o, c[1]]) + l * Fr(V[c[0] + o, c[1] + 1])) for c, l, m in pts]
        got = g.interpolate_var_to_points(P, V, location="edge1")
        expect(np.allclose(np.ma.filled(got, np.nan).reshape(-1), want, atol=1e-9), "edge1 values are %s, expected %s", lst(got.reshape(-1)), want)
    if d.e2:
        o = S.EXTRA[d.e2][0]
        V = S.values(d.shape("edge2"), 7)
        want = [float((1 - m) * Fr(V[c[0], c[1] + o]) + m * Fr(V[c[0] + 1, c[1] + o])) for c, l, m in pts]
        got = g.interpolate_var_to_points(P, V, location="edge2")
        expect(np.allclose(np.ma.filled(got, np.nan).reshape(-1), want, atol=1e-9), "edge2 values are %s, expected %s", lst(got.reshape(-1)), want)


def trim(pad):
    return {"none": slice(None), "low": slice(1, None), "high": slice(None, -1), "both": slice(1, -1)}[pad]


def check_slicing(ctx, d, g):
    """Averaging the trimmed velocities gives one value per cell, from the two edges of the cell."""
    from gridded.pysgrid.processing_2d import avg_to_cell_center, rotate_vectors, vector_sum

    fv = g._file_variables if hasattr(g, "_file_variables") else None
    v = g.f_face
    expect(v.location == "face", "f_face is said to be on the %ss", v.location)
    a = v[:][v.center_slicing]
    want = d.of(S.values(d.shape("face"), 7)[trim(d.face[0]), trim(d.face[1])])
    expect(same(a, want), "trimmed, the face values are %s, expected %s", lst(a), want.tolist())
    got = {}
    for where, pad, ax in (("edge1", d.e1, 0), ("edge2", d.e2, 1)):
        if pad is None:
            continue
        if d.order == "xy":
            ax = 1 - ax
        v = getattr(g, "f_" + where)
        expect(v.location == where, "f_%s is said to be on the %ss", where, v.location)
        a = v[:][v.center_slicing]
        V = d.of(S.values(d.shape(where), 7))
        sl = [slice(None), slice(None)]
        sl[ax] = trim(pad)
        V = V[tuple(sl)]
        expect(same(a, V), "trimmed, the %s values are %s, expected %s", where, lst(a), V.tolist())
        expect(v.center_axis is not None, "no axis to average %s values along", where)
        b = avg_to_cell_center(a, v.center_axis)
        w = (V[:, 1:] + V[:, :-1]) / 2 if ax == 0 else (V[1:] + V[:-1]) / 2
        expect(same(b, w), "averaged, the %s values are %s, expected %s", where, lst(b), w.tolist())
        got[where] = b
    if len(got) == 2:
        s = vector_sum(got["edge1"], got["edge2"])
        expect(np.allclose(s, np.hypot(got["edge1"], got["edge2"]), rtol=1e-12), "speeds are %s", lst(s))
        for t, (c, sn) in {0.0: (1, 0), np.pi / 2: (0, 1), np.pi: (-1, 0)}.items():
            x, y = rotate_vectors(got["edge1"], got["edge2"], np.full(s.shape, t))
            expect(np.allclose(x, got["edge1"] * c - got["edge2"] * sn) and np.allclose(y, got["edge1"] * sn + got["edge2"] * c), "turned by %s: %s, %s", t, lst(x), lst(y))


def loaders(nc):
    from gridded.grids import Grid, Grid_S
    from gridded.pysgrid.sgrid import SGrid, load_grid

    return {"load_grid": lambda: load_grid(nc), "SGrid.load_grid": lambda: SGrid.load_grid(nc), "Grid_S.from_netCDF": lambda: Grid_S.from_netCDF(dataset=nc), "Grid.from_netCDF": lambda: Grid.from_netCDF(dataset=nc)}


# --- paddings ----------------------------------------------------------------------
def units_pad(tier):
    return [[o, a, b, b2] for o in ("yx", "xy") for a in PAD for b in PAD for b2 in (True, False)]


def run_pad(ctx, unit):
    order, py, px, bare = unit
    thorough = os.environ.get("VMC_TIER") == "thorough"
    PARTS = (("face", "edge1", "edge2"), ("face",), ("edge1", "edge2"), ())
    if thorough:
        forms = list(itertools.product([(3, 4), (4, 3), (2, 4), (4, 2), (3, 3), (4, 5)], (None, "none", "low"), PARTS))
    else:
        forms = [((4, 3), v, PARTS[0]) for v in (None, "none", "low")] + [((3, 4), None, p) for p in PARTS[1:]]
    for e1, e2 in itertools.product((None,) + PAD, (None,) + PAD):
        for k, ((m, n), vert, parts) in enumerate(forms):
            # some files leave the kind of edge, or where variables are, to their dimensions
            loc = ("stated", "edge", "none")[k % 3]
            sg = S.grid("warp", "e", m, n)
            d = Desc(sg, order, (py, px), e1, e2, vert, tuple(p for p in parts if p == "face" or {"edge1": e1, "edge2": e2}[p]), "attribute", (), bare, loc=loc)

            def one():
                nc = blank()
                try:
                    put(nc, d)
                    for name, f in loaders(nc).items():
                        if not thorough and (name in ("SGrid.load_grid", "load_grid") or name == "Grid_S.from_netCDF" and len(parts) != 1):
                            continue
                        ctx.step()
                        g = quiet(f)
                        check_grid(ctx, d, g)
                        if name == "Grid.from_netCDF" and len(parts) == 1:
                            continue
                        check_axes(ctx, d, g)
                        check_answers(ctx, d, g)
                        check_slicing(ctx, d, g)
                finally:
                    nc.close()

            ctx.case("%s stored %s, faces padded %s, edges %s %s%s, vertical %s, coordinates of %s, locations %s" % (sg.name, order, d.face, e1, e2, " bare" if bare else "", vert, "+".join(d.parts) or "nodes", loc), one)
            ctx.state("pad", order, d.face, e1, e2, vert, d.parts, m, n, bare)


# --- stating the coordinates ---------------------------------------------------------
def units_how(tier):
    return [[h, n, o] for h in ("attribute", "spaces", "names", "location") for n in (0, 1, 2) for o in ("yx", "xy")]


def subsets(t):
    return [c for k in range(len(t) + 1) for c in itertools.combinations(t, k)]


def run_how(ctx, unit):
    how, names, order = unit
    sg = S.grid("shear", "e", 3, 4)
    thorough = os.environ.get("VMC_TIER") == "thorough"
    for parts, masks, face, (e1, e2), angle in itertools.product(subsets(("face", "edge1", "edge2")), subsets(("node", "face", "edge1", "edge2")), (("both", "both"), ("low", "low"), ("none", "low")), (("both", "both"), ("none", "low"), ("low", "none")), (False, True)):
        if not thorough and (len(masks) not in (0, 4)) and (face != ("low", "low") or angle):
            continue
        if names == 2 and how != "attribute":
            continue
        d = Desc(sg, order, face, e1, e2, None, parts, how, masks, True, names)

        def one():
            nc = blank()
            try:
                put(nc, d, angle=angle)
                for name, f in loaders(nc).items():
                    if not thorough and name != ("Grid.from_netCDF" if len(parts) < 2 else "Grid_S.from_netCDF" if angle else "load_grid"):
                        continue
                    ctx.step()
                    g = quiet(f)
                    check_grid(ctx, d, g, angle)
            finally:
                nc.close()

        ctx.case("coordinates of %s stated by %s as %s, masks of %s, faces %s edges %s %s stored %s%s" % ("+".join(parts) or "nodes", how, NAMES[names]["node"][0], "+".join(masks) or "none", face, e1, e2, order, ", angles" if angle else ""), one)
        ctx.state("how", how, names, order, parts, masks, face, e1, e2, angle)


# --- round trip ----------------------------------------------------------------------
def units_rt(tier):
    return [[o, k] for o in ("yx", "xy") for k in ("f8", "f4", "packed")] + [["yx", "changed"]]


def snapshot(g):
    out = {}
    for where, ats in ATTR.items():
        for a in ats:
            v = getattr(g, a)
            out[a] = None if v is None else np.ma.array(v[:], copy=True)
    for a in ("face_padding", "edge1_padding", "edge2_padding", "node_dimensions", "edge1_dimensions", "edge2_dimensions", "face_dimensions", "vertical_dimensions", "node_coordinates", "face_coordinates", "edge1_coordinates", "edge2_coordinates", "dimensions", "variables", "grid_variables"):
        v = getattr(g, a)
        out[a] = list(v) if isinstance(v, (list, tuple)) else v
    return out


def check_attributes(nc, path):
    """What the saved file says of the grid is what the first file says."""
    import netCDF4

    with netCDF4.Dataset(path) as out:
        (a,), (b,) = ([v for v in f.variables.values() if getattr(v, "cf_role", None) == "grid_topology"] for f in (nc, out))
        expect(a.name == b.name, "the topology is called %s, was %s", b.name, a.name)
        for k in a.ncattrs():
            if k.endswith("_coordinates") or k in ("node_dimensions", "topology_dimension"):
                expect(getattr(b, k, None) == getattr(a, k), "saved, %s is %s, was %s", k, getattr(b, k, None), getattr(a, k))
                if k.endswith("_coordinates"):
                    for n in a.getncattr(k).split():
                        for at in ("standard_name", "long_name", "units", "axis"):
                            x, y = (getattr(f.variables[n], at, None) for f in (nc, out))
                            expect(x == y, "saved, %s of %s is %s, was %s", at, n, y, x)


def run_rt(ctx, unit):
    from gridded.grids import Grid
    from gridded.pysgrid.sgrid import load_grid

    order, kind = unit
    sg = S.grid("warp", "e", 3, 4)
    tmp = tempfile.mkdtemp(prefix="vmc-c22-")
    try:
        for parts, masks, face, (e1, e2), names, angle, vert in itertools.product(
            subsets(("face", "edge1", "edge2")), subsets(("node", "face", "edge1", "edge2")), (("both", "both"), ("low", "low"), ("high", "none"), None), (("both", "both"), ("none", "low"), (None, None)), (0, 2), (False, True), (None, "low")
        ):
            if (e1 is None and ("edge1" in parts or "edge1" in masks)) or (e2 is None and ("edge2" in parts or "edge2" in masks)):
                continue
            if os.environ.get("VMC_TIER") != "thorough":
                if len(masks) in (1, 2, 3) and (face != ("low", "low") or angle or kind != "f8" or vert):
                    continue
                if vert and not angle or kind == "changed" and (angle or names):
                    continue
            if face is None and ("face" in parts or "face" in masks or angle):
                continue
            d = Desc(sg, order, face, e1, e2, vert, parts, "attribute", masks, True, names)

            def one():
                nc = blank()
                path = os.path.join(tmp, "g%d.nc" % next(_N))
                try:
                    put(nc, d, dtype="f8" if kind == "changed" else kind if kind != "packed" else "f8", packed=kind == "packed", angle=angle)
                    g = quiet(load_grid, nc)
                    check_grid(ctx, d, g, angle)
                    if kind == "changed":
                        g.node_lon = g.node_lon + .5
                        if "edge1" in parts:
                            g.edge1_lat = g.edge1_lat + .5
                    before = snapshot(g)
                    ctx.step()
                    quiet(g.save_as_netcdf, path)
                    after = snapshot(g)
                    for k in before:
                        expect(np.ma.allequal(before[k], after[k]) if isinstance(before[k], np.ndarray) else before[k] == after[k], "saving changed %s from %s to %s", k, before[k], after[k])
                    if kind == "changed":
                        d.sg.arrays, keep = (lambda f=d.sg.arrays: (f()[0] + .5, f()[1])), d.sg.arrays
                        d.coords, keep2 = (lambda w, f=d.coords: (f(w)[0], f(w)[1] + .5) if w == "edge1" else f(w)), d.coords
                    check_attributes(nc, path)
                    try:
                        for f in (lambda: load_grid(path), lambda: Grid.from_netCDF(path)):
                            ctx.step()
                            h = quiet(f)
                            check_grid(ctx, d, h, angle)
                            again = snapshot(h)
                            for k in ("edge1_dimensions", "edge2_dimensions", "face_dimensions", "vertical_dimensions", "dimensions", "node_coordinates", "face_coordinates", "edge1_coordinates", "edge2_coordinates"):
                                expect(again[k] == before[k], "loaded again, %s is %s, expected %s", k, again[k], before[k])
                            for k in ("variables", "grid_variables"):
                                expect(sorted(again[k]) == sorted(before[k]), "loaded again, %s are %s, expected %s", k, again[k], before[k])
                            for at in ("node_mask", "center_mask", "edge1_mask", "edge2_mask"):
                                if before[at] is not None:
                                    a, b = (x[at] if isinstance(x, dict) else getattr(x, at) for x in (g.__dict__, h))
                                    expect(lst(a.flag_values) == lst(b.flag_values) and a.flag_meanings == b.flag_meanings, "the meaning of %s is lost", at)
                            for n in before["variables"]:
                                a, b = g._file_variables[n], h._file_variables[n]
                                for at in ("dimensions", "standard_name", "coordinates", "location", "center_axis", "center_slicing", "x_axis", "y_axis", "z_axis", "vector_axis"):
                                    expect(getattr(a, at) == getattr(b, at), "%s of variable %s is %s, was %s", at, n, getattr(b, at), getattr(a, at))
                    finally:
                        if kind == "changed":
                            d.sg.arrays, d.coords = keep, keep2
                finally:
                    nc.close()
                    if os.path.exists(path):
                        os.remove(path)

            ctx.case("%s %s: %s, masks %s, faces %s edges %s %s names %d%s%s" % (order, kind, "+".join(parts) or "nodes", "+".join(masks) or "none", face, e1, e2, names, ", angles" if angle else "", ", vertical" if vert else ""), one)
            ctx.state("rt", order, kind, parts, masks, face, e1, e2, names, angle, vert)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SPACES = [
    Space("paddings", units_pad, run_pad, "2 storage orders x 16 face paddings x 25 edge paddings x 3 vertical paddings x bare or renamed edge dimensions x 4 sets of coordinates x 2 sizes (thorough: 6 sizes, all combinations, 4 loaders)"),
    Space("coordinates", units_how, run_how, "coordinates stated by attribute, loose spacing, names or the variables' locations x 3 name styles x all subsets of coordinates and masks x 9 paddings x angles or not"),
    Space("round trip", units_rt, run_rt, "all subsets of coordinates and masks x paddings x name styles x angles x number types (float, double, packed), also after changes"),
]
ASSUMPTIONS = ["edge values are interpolated for files stored (y, x)", "a mask belongs to the coordinates that have its dimensions", "data of variables that are not the grid's are not saved"]
