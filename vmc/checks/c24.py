"""C24 -- regridding: what is put on the other grid is what the source answers there.

All kinds of source (grid, location, times, levels, storage) x all kinds of destination
in all positions over and beside the source; exact rational values at every destination
point, time and level.
"""
import itertools
import os
from datetime import timedelta
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .. import meshes as M
from .. import sgrids as S
from ..core import Mismatch, Space, expect, raises

# --- sources: exact weights at any point --------------------------------------------------
UN = [(0, 0), (4, 0), (4, 4), (0, 4), (9, 5)]
UF = [(0, 1, 2), (3, 0, 2), (1, 4, 2)]
LATS, LONS = [0, 1, 3, 4], [-1, 0, 3, 4, 6]


class Source:
    def __init__(self, kind, loc):
        self.kind, self.loc, self.name = kind, loc, "%s-%s" % (kind, loc)

    @property
    def hshape(self):
        return {"U-node": (5,), "U-face": (3,), "S-node": (4, 5), "S-center": (3, 4), "S-edge1": (3, 5), "S-edge2": (4, 4), "R-node": (4, 5), "R-swapped": (5, 4)}[self.name]

    def grid(self):
        from gridded.grids import Grid_R, Grid_S, Grid_U

        if self.kind == "U":
            return Grid_U(nodes=np.array(UN, float), faces=np.array(UF))
        if self.kind == "S":
            i, j = np.mgrid[0:4.0, 0:5.0]
            return Grid_S(node_lon=j + 0.5 * i, node_lat=i)
        return Grid_R(node_lon=np.array(LONS, float), node_lat=np.array(LATS, float))

    @property
    def location(self):
        return "node" if self.loc == "swapped" else self.loc

    def weights(self, q):
        """{flat index: weight}, or None off the grid."""
        x, y = q
        if self.kind == "U":
            s, touch = _MESH.where(q)
            assert s is not None or not touch, q
            if s is None:
                return None
            if self.loc == "face":
                return {s: Fr(1)}
            return dict(zip(UF[s], M.bary([UN[k] for k in UF[s]], q)))
        if self.kind == "S":
            l, m = x - y / 2, y
            if not (0 <= l <= 4 and 0 <= m <= 3):
                return None
            i, j = int(m), int(l)
            assert i != m and j != l
            b, a = m - i, l - j
            n = self.hshape[1]
            return {
                "node": {i * n + j: (1 - a) * (1 - b), i * n + j + 1: a * (1 - b), (i + 1) * n + j: (1 - a) * b, (i + 1) * n + j + 1: a * b},
                "center": {i * n + j: Fr(1)}, "edge1": {i * n + j: 1 - a, i * n + j + 1: a}, "edge2": {i * n + j: 1 - b, (i + 1) * n + j: b},
            }[self.loc]
        if not (LATS[0] <= y <= LATS[-1] and LONS[0] <= x <= LONS[-1]):
            return None
        i = max(k for k in range(3) if LATS[k] <= y)
        j = max(k for k in range(4) if LONS[k] <= x)
        b, a = (y - LATS[i]) / (LATS[i + 1] - LATS[i]), (x - LONS[j]) / (LONS[j + 1] - LONS[j])
        w = {}
        for ii, jj, ww in ((i, j, (1 - a) * (1 - b)), (i, j + 1, a * (1 - b)), (i + 1, j, (1 - a) * b), (i + 1, j + 1, a * b)):
            if ww:
                w[jj * 4 + ii if self.loc == "swapped" else ii * 5 + jj] = ww
        return w


    def options(self, q):
        """What may be said at a point on the lines of the source: the weights of every cell
        that touches it, and None where it is not inside."""
        x, y = q
        if self.kind == "R":
            return [self.weights(q)]
        if self.kind == "U":
            s, touch = _MESH.where(q)
            out = [{t: Fr(1)} if self.loc == "face" else dict(zip(UF[t], M.bary([UN[k] for k in UF[t]], q))) for t in touch]
            return out if out and not _MESH.on_outer_boundary(q) else out + [None]
        l, m = x - y / 2, y
        if not (0 <= l <= 4 and 0 <= m <= 3):
            return [None]
        n = self.hshape[1]
        out = []
        for i in range(3):
            for j in range(4):
                if i <= m <= i + 1 and j <= l <= j + 1:
                    b, a = m - i, l - j
                    out.append({
                        "node": {i * n + j: (1 - a) * (1 - b), i * n + j + 1: a * (1 - b), (i + 1) * n + j: (1 - a) * b, (i + 1) * n + j + 1: a * b},
                        "center": {i * n + j: Fr(1)}, "edge1": {i * n + j: 1 - a, i * n + j + 1: a}, "edge2": {i * n + j: 1 - b, (i + 1) * n + j: b},
                    }[self.loc])
        return out if 0 < l < 4 and 0 < m < 3 else out + [None]


_MESH = M.Mesh("u", UN, UF)
SOURCES = [Source(k, l) for k, l in (("U", "node"), ("U", "face"), ("S", "node"), ("S", "center"), ("S", "edge1"), ("S", "edge2"), ("R", "node"), ("R", "swapped"))]


# --- destinations: points that avoid the lines of every source -------------------------
def P(a, b):
    """A point of a lattice that meets no edge of the sources."""
    return Fr(a, 4) + Fr(1, 9), Fr(b, 4) + Fr(1, 11)


DEST = ("U/node", "U/face", "U/face given", "S/node", "S/center", "S/face", "R/node", "R/center", "R/face", "U/center")


def Q(a, b):
    """A point of a lattice that meets the nodes, the edges and the rim of every source."""
    return Fr(a, 2), Fr(b, 2)


def destination(kind, a0, b0, da, db, P=P):
    """(grid, location, shape, exact points, expected location); lattice origin and steps"""
    from gridded.grids import Grid_R, Grid_S, Grid_U

    g, loc = kind.split("/")
    f = lambda ps: np.array([[float(c) for c in p] for p in ps])
    if g == "U":
        pts = [P(a0, b0), P(a0 + 2 * da, b0), P(a0 + da, b0 + db), P(a0 - da, b0 + 2 * db), P(a0 + 3 * da, b0 + 3 * db)]
        faces = [(0, 1, 2), (0, 2, 3), (1, 4, 2)]
        if loc == "node":
            return Grid_U(nodes=f(pts), faces=np.array(faces)), "node", (5,), pts, "node"
        if loc == "face given":
            fc = [P(a0 + da, b0), P(a0, b0 + db), P(a0 + 2 * da, b0 + 3 * db)]
            return Grid_U(nodes=f(pts), faces=np.array(faces), face_coordinates=f(fc)), "face", (3,), fc, "face"
        fc = [(sum(pts[k][0] for k in t) / 3, sum(pts[k][1] for k in t) / 3) for t in faces]
        return Grid_U(nodes=f(pts), faces=np.array(faces)), loc, (3,), fc, "face"
    if g == "S":
        m, n = 3, 2
        pts = [P(a0 + j * da + i, b0 + i * db - j) for i in range(m) for j in range(n)]
        cts = [P(a0 + j * da, b0 + i * db) for i in range(m - 1) for j in range(n - 1)]
        A = f(pts).reshape(m, n, 2)
        C = f(cts).reshape(m - 1, n - 1, 2)
        gr = Grid_S(node_lon=A[..., 0].copy(), node_lat=A[..., 1].copy(), center_lon=C[..., 0].copy(), center_lat=C[..., 1].copy())
        if loc == "node":
            return gr, "node", (m, n), pts, "node"
        return gr, loc, (m - 1, n - 1), cts, "center"
    lons = [P(a0 + k * da, 0)[0] for k in (0, 1, 3)]
    lats = [P(0, b0 + k * db)[1] for k in (0, 2, 3, 4)]
    gr = Grid_R(node_lon=np.array([float(x) for x in lons]), node_lat=np.array([float(y) for y in lats]))
    if loc == "node":
        return gr, "node", (4, 3), [(x, y) for y in lats for x in lons], "node"
    cx, cy = [(s + t) / 2 for s, t in zip(lons, lons[1:])], [(s + t) / 2 for s, t in zip(lats, lats[1:])]
    return gr, loc, (3, 2), [(x, y) for y in cy for x in cx], "center"


TIMES = {"notime": None, "t1": [0], "t1 no dimension": [0], "t2": [0, 8], "t3": [0, 5, 20]}
LEVELS = {"nodepth": None, "L3": [0.0, 2.0, 5.0], "L3d": [5.0, 2.0, 0.0], "L2": [1.0, 4.0], "surf": 3, "layers": [0.0, 2.0, 5.0]}


def time_axis(name):
    from gridded.time import Time

    return None if TIMES[name] is None else Time([F.T0 + timedelta(minutes=m) for m in TIMES[name]])


def depth_axis(name):
    from gridded.depth import Depth, L_Depth

    if name == "nodepth":
        return None, None
    if name == "surf":
        return Depth.surface_only(surface_index=1), 3
    n = len(LEVELS[name])
    return L_Depth(terms={"depth_levels": np.array(LEVELS[name])}), n - 1 if name == "layers" else n


def make(src, grid, tname, dname, container, salt=0):
    from gridded.variable import Variable

    depth, n = depth_axis(dname)
    lead = () if TIMES[tname] is None or "no dim" in tname else (len(TIMES[tname]),)
    if n is not None:
        lead += (n,)
    data = S.values(lead + src.hshape, salt)
    d = data.copy()
    if container == "float32":
        d = d.astype("f4")
    elif container == "int":
        d = d.astype("i4")
    elif container == "masked type":
        d = np.ma.array(d, mask=np.zeros(d.shape, bool))
    elif container == "netcdf":
        import netCDF4

        nc = netCDF4.Dataset("vmc-c24-%d-%d" % (os.getpid(), salt), "w", diskless=True, persist=False)
        names = (("time",) if len(lead) == (n is not None) + 1 else ()) + (("lev",) if n is not None else ())
        names += {"U": ("element",), "S": ("y", "x"), "R": ("lon", "lat") if src.loc == "swapped" else ("lat", "lon")}[src.kind]
        for k, s in zip(names, d.shape):
            nc.createDimension(k, s)
        v = nc.createVariable("v", "f8", names)
        v[:] = d
        d = v
        _OPEN.append(nc)
    return Variable(name="v%d" % salt, units="m", time=time_axis(tname), depth=depth, data=d, grid=grid, location=src.location), data


_OPEN = []


def close_all():
    while _OPEN:
        _OPEN.pop().close()


def expected(src, data, lead_shape, pts):
    """Values [lead..., point] with None where the source has none."""
    ws = [src.weights(p) for p in pts]
    rows = []
    for lead in itertools.product(*map(range, lead_shape)):
        flat = data[lead].reshape(-1)
        rows.append([None if w is None else float(sum(float(c) * flat[k] for k, c in w.items())) for w in ws])
    return rows, ws


def verify(src, v, data, w, grid, shape, pts, outloc, tname, dname, label=""):
    depth, n = depth_axis(dname)
    lead = () if TIMES[tname] is None else (len(TIMES[tname]),)
    full = lead + (() if n is None else (n,))
    expect(w.grid is grid, "%snot on the grid asked for", label)
    expect(w.location == outloc, "%slocated on %r, expected %r", label, w.location, outloc)
    expect(w.time is v.time, "%stime changed", label)
    expect(w.depth is v.depth, "%sdepth changed", label)
    expect(w.units == "m", "%sunits are %r", label, w.units)
    got = np.ma.asarray(w.data)
    expect(got.shape == full + shape, "%sdata of shape %s, expected %s", label, got.shape, full + shape)
    src_lead = data.shape[: data.ndim - len(src.hshape)]
    rows, _ = expected(src, data, src_lead, pts)
    g = got.reshape((len(rows), len(pts)))
    vals, mask = np.ma.getdata(g), np.ma.getmaskarray(g)
    for r, (want, a, m) in enumerate(zip(rows, vals.tolist(), mask.tolist())):
        for p, x, y, k in zip(pts, want, a, m):
            if x is None:
                expect(k, "%sentry %d at %s, off the source, is %s, not masked", label, r, p, y)
            else:
                expect(not k and abs(x - y) <= 1e-7 * max(1, abs(x)), "%sentry %d at %s: %s, expected %s", label, r, p, "masked" if k else y, x)


PLACES = [(1, 1, 1, 1), (2, 3, 3, 2), (0, 2, 4, 3), (-6, -3, 5, 5), (9, 6, 5, 4), (3, 7, 2, 1), (-20, -9, 12, 9), (5, 0, 1, 3), (11, 9, -2, -2), (14, 3, 3, 3), (4, 6, -3, 2)]
FAR = [(400, 400, 1, 1), (-300, 2, 2, 2)]


def units_values(tier):
    return [[i, d] for i in range(len(SOURCES)) for d in DEST]


def legal_place(kind, pl):
    return kind[0] != "R" or (pl[2] > 0 and pl[3] > 0)


def run_values(ctx, unit):
    from gridded.utilities import regrid_variable

    src, kind = SOURCES[unit[0]], unit[1]
    full = os.environ.get("VMC_TIER") != "quick"
    k = 0
    for pl in PLACES:
        if not legal_place(kind, pl):
            continue
        for tname, dname, cont in itertools.product(TIMES, LEVELS, ("array", "netcdf", "float32", "int", "masked type")):
            k += 1
            if not full and cont not in ("array", "netcdf") and k % 3:
                continue

            def one():
                try:
                    sg = src.grid()
                    v, data = make(src, sg, tname, dname, cont, 1 + k % 7)
                    grid, loc, shape, pts, outloc = destination(kind, *pl)
                    if all(src.weights(p) is None for p in pts):
                        return far(ctx, v, grid, loc)
                    before = np.array(v.data[:]).tolist()
                    gb = [np.asarray(x).tolist() for x in (grid.nodes, sg.nodes)]
                    ctx.step()
                    if loc == "node":
                        w = regrid_variable(grid, v) if k % 2 else regrid_variable(grid, v, location="node")
                    else:
                        w = regrid_variable(grid, v, location=loc)
                    verify(src, v, data, w, grid, shape, pts, outloc, tname, dname)
                    expect(np.array(v.data[:]).tolist() == before and [np.asarray(x).tolist() for x in (grid.nodes, sg.nodes)] == gb, "regridding changed the source")
                finally:
                    close_all()

            ctx.case("%s %s to %s at %s: %s, %s" % (src.name, cont, kind, pl, tname, dname), one)
            ctx.state("value", src.name, kind, pl, tname, dname, cont)


def far(ctx, v, grid, loc):
    from gridded.utilities import regrid_variable

    ctx.step()
    expect(raises(ValueError, regrid_variable, grid, v, location=loc), "no refusal although the grids do not meet")


# --- points on the lines of the source ------------------------------------------------------
LINES = ("U/node", "U/face given", "S/node", "S/center", "R/node", "R/center")


def run_lines(ctx, unit):
    from gridded.utilities import regrid_variable

    src, kind = SOURCES[unit[0]], unit[1]
    thorough = os.environ.get("VMC_TIER") == "thorough"
    steps = (1, 2, 3, 4) if thorough else (1, 2)
    for a0, b0, da, db in itertools.product(range(-3, 19), range(-1, 11), steps, steps):
        tname, dname = (("notime", "nodepth"), ("t2", "L3"), ("t1", "layers"))[(a0 + b0) % 3]

        def one():
            sg = src.grid()
            v, data = make(src, sg, tname, dname, "array", 1)
            grid, loc, shape, pts, outloc = destination(kind, a0, b0, da, db, Q)
            opts = [src.options(p) for p in pts]
            ctx.step()
            try:
                w = regrid_variable(grid, v, location=loc)
            except ValueError:
                inner = [p for p, o in zip(pts, opts) if None not in o and (src.kind != "R" or LONS[0] < p[0] < LONS[-1] and LATS[0] < p[1] < LATS[-1])]
                expect(not inner, "refused, with %s inside the source", inner)
                return
            got = np.ma.asarray(w.data)
            lead = data.shape[: data.ndim - len(src.hshape)]
            g = got.reshape((-1, len(pts)))
            vals, mask = np.ma.getdata(g).tolist(), np.ma.getmaskarray(g).tolist()
            for r, at in enumerate(itertools.product(*map(range, lead))):
                flat = data[at].reshape(-1)
                for p, o, y, k in zip(pts, opts, vals[r], mask[r]):
                    want = [None if c is None else float(sum(float(x) * flat[i] for i, x in c.items())) for c in o]
                    ok = None in want if k else any(x is not None and abs(x - y) <= 1e-7 * max(1, abs(x)) for x in want)
                    expect(ok, "entry %d at %s: %s, expected one of %s", r, p, "masked" if k else y, want)

        ctx.case("%s to %s on lines at %s: %s, %s" % (src.name, kind, (a0, b0, da, db), tname, dname), one)
        ctx.state("lines", src.name, kind, a0, b0, da, db)


# --- sigma coordinates --------------------------------------------------------------------
def roms(src, grid, tname, vt, orient, surface, bottom, salt):
    from gridded.depth import ROMS_Depth
    from gridded.variable import Variable

    s_w = np.array([-1.0, -0.5, -0.25, 0.0])
    s_r = np.array([-0.75, -0.375, -0.125])
    if orient:
        s_w, s_r = s_w[::-1].copy(), s_r[::-1].copy()
    h = 20 + S.values(src.hshape, salt) % 7 * 4
    bathy = Variable(name="h", data=h, grid=grid, location=src.location)
    t = time_axis(tname)
    zshape = () if TIMES[tname] is None else (len(TIMES[tname]),)
    z = S.values(zshape + src.hshape, salt + 1) % 5 * 0.25
    zeta = Variable(name="zeta", data=z, grid=grid, time=t, location=src.location)
    terms = {"Cs_w": s_w * 0.9, "Cs_r": s_r * 0.9, "s_w": s_w, "s_rho": s_r, "hc": 5.0}
    return ROMS_Depth(name="s", time=t, grid=grid, bathymetry=bathy, zeta=zeta, terms=terms, vtransform=vt, surface_boundary_condition=surface, bottom_boundary_condition=bottom), h, z


def fvcom(src, grid, tname, orient, salt):
    from gridded.depth import FVCOM_Depth
    from gridded.variable import Variable

    lev = np.array([[0.0, -0.25, -0.5, -1.0]] * 5).T - np.array([[0.0], [0.02], [0.04], [0.0]]) * np.arange(5)
    if orient:
        lev = lev[::-1].copy()
    lay = (lev[1:] + lev[:-1]) / 2
    h = 20 + S.values((5,), salt) % 7 * 4
    t = time_axis(tname)
    zshape = () if TIMES[tname] is None else (len(TIMES[tname]),)
    z = S.values(zshape + (5,), salt + 1) % 5 * 0.25
    return FVCOM_Depth(
        name="f", time=t, grid=grid, bathymetry=Variable(name="h", data=h, grid=grid, location="node"), zeta=Variable(name="zeta", data=z, grid=grid, time=t, location="node"),
        terms={"siglev": lev, "siglay": lay},
    ), h, z, lev, lay


def units_sigma(tier):
    return [[s, d] for s in ("U-node", "S-node", "R-node", "fvcom") for d in ("U/node", "S/node", "R/node", "U/face")]


def run_sigma(ctx, unit):
    from gridded.utilities import regrid_variable
    from gridded.variable import Variable

    sname, kind = unit
    src = next(s for s in SOURCES if s.name == ("U-node" if sname == "fvcom" else sname))
    for pl, tname, vt, orient, on in itertools.product(PLACES, ("notime", "t1", "t2", "t3"), (1, 2), (False, True), ("levels", "layers")):
        if not legal_place(kind, pl) or (sname == "fvcom" and vt == 2):
            continue
        cond = ("extrapolate", "mask") if vt == 1 else ("mask", "extrapolate")

        def one():
            sg = src.grid()
            if sname == "fvcom":
                sd, h, z, lev, lay = fvcom(src, sg, tname, orient, 3)
            else:
                sd, h, z = roms(src, sg, tname, vt, orient, *cond, 3)
            n = 4 if on == "levels" else 3
            lead = (() if TIMES[tname] is None else (len(TIMES[tname]),)) + (n,)
            data = S.values(lead + src.hshape, 5)
            v = Variable(name="v", units="m", time=sd.time, depth=sd, data=data.copy(), grid=sg, location="node")
            grid, loc, shape, pts, outloc = destination(kind, *pl)
            npts = pts if loc == "node" else [tuple(map(Fr, map(float, p))) for p in grid.nodes]
            if all(src.weights(p) is None for p in pts) or all(src.weights(p) is None for p in npts):
                return far(ctx, v, grid, loc)
            ctx.step()
            if sname == "fvcom" and kind[0] != "U":
                expect(raises(NotImplementedError, regrid_variable, grid, v, location=loc), "levels of an unstructured grid put on another kind of grid")
                return
            w = regrid_variable(grid, v, location=loc)
            got = np.ma.asarray(w.data)
            expect(got.shape == lead + shape and w.location == outloc and w.time is v.time and w.grid is grid, "shape %s, location %s", got.shape, w.location)
            rows, ws = expected(src, data, lead, pts)
            compare_rows(got.reshape((len(rows), len(pts))), rows, pts, "data")
            nd = w.depth
            expect(type(nd) is type(sd) and nd is not sd and nd.grid is grid and nd.time is sd.time and len(nd) == len(sd), "depth %s", nd)
            expect(nd.vtransform == sd.vtransform, "vtransform became %s", nd.vtransform)
            expect(
                (nd.default_surface_boundary_condition, nd.default_bottom_boundary_condition) == (sd.default_surface_boundary_condition, sd.default_bottom_boundary_condition),
                "boundary conditions became %s, %s", nd.default_surface_boundary_condition, nd.default_bottom_boundary_condition,
            )
            expect(nd.bathymetry.grid is grid and nd.zeta.grid is grid and nd.bathymetry.location == "node" and nd.zeta.location == "node", "terms are on another grid")
            hr, nws = expected(src, h, (), npts)
            compare_rows(np.ma.asarray(nd.bathymetry.data).reshape(1, -1), hr, npts, "bathymetry")
            zr, _ = expected(src, z, z.shape[: z.ndim - len(src.hshape)], npts)
            zd = np.ma.asarray(nd.zeta.data)
            compare_rows(zd.reshape(len(zr), -1), zr, npts, "zeta")
            if sname != "fvcom":
                for k in ("Cs_w", "Cs_r", "s_w", "s_rho", "hc"):
                    expect(np.array_equal(getattr(nd, k), getattr(sd, k)) and np.array_equal(nd.terms[k], sd.terms[k]), "term %s changed", k)
            else:
                for k, a in (("siglev", lev), ("siglay", lay)):
                    for lv, row in enumerate(np.asarray(getattr(nd, k))):
                        for wt, x, p in zip(nws, row.tolist(), npts):
                            if wt is not None:
                                want = sum(float(c) * a[lv][i] for i, c in wt.items())
                                expect(abs(x - want) < 1e-9, "%s of level %d at %s: %s, expected %s", k, lv, p, x, want)

        ctx.case("%s to %s at %s: %s, transform %d, %s, %s" % (sname, kind, pl, tname, vt, "up" if orient else "down", on), one)
        ctx.state("sigma", sname, kind, pl, tname, vt, orient, on)


def compare_rows(g, rows, pts, what):
    vals, mask = np.ma.getdata(g), np.ma.getmaskarray(g)
    for r, (want, a, m) in enumerate(zip(rows, vals.tolist(), mask.tolist())):
        for p, x, y, k in zip(pts, want, a, m):
            if x is None:
                expect(k, "%s, entry %d at %s, off the source, is %s, not masked", what, r, p, y)
            else:
                expect(not k and abs(x - y) <= 1e-7 * max(1, abs(x)), "%s, entry %d at %s: %s, expected %s", what, r, p, "masked" if k else y, x)


# --- vectors, the same grid, refusals ------------------------------------------------------
def run_vectors(ctx, unit):
    from gridded.utilities import regrid_variable
    from gridded.variable import VectorVariable

    for combo, kind, pl, tname, dname in itertools.product(((0, 0), (0, 1), (2, 3), (4, 5), (2, 2), (6, 6), (6, 7), (2, 3, 4), (1, 0, 0, 1)), DEST, PLACES[:5], ("notime", "t2"), ("nodepth", "L3")):
        def one():
            srcs = [SOURCES[k] for k in combo]
            sg = srcs[0].grid()
            made = [make(a, sg, tname, dname, "array", k + 1) for k, a in enumerate(srcs)]
            for v, _ in made[1:]:
                if v.time is not None:
                    v.time = made[0][0].time
            vec = VectorVariable(name="vec", units="m", variables=[v for v, _ in made])
            grid, loc, shape, pts, outloc = destination(kind, *pl)
            if all(srcs[0].weights(p) is None for p in pts):
                return far(ctx, vec, grid, loc)
            ctx.step()
            w = regrid_variable(grid, vec, location=loc)
            expect(isinstance(w, VectorVariable) and len(w.variables) == len(combo), "result is %s of %d", type(w), len(w.variables))
            for s, (v, d), r in zip(srcs, made, w.variables):
                expect(r.depth is v.depth, "depth changed")
                verify(s, v, d, r, grid, shape, pts, outloc, tname, dname, s.name + ": ")

        ctx.case("%s to %s at %s: %s, %s" % (", ".join(SOURCES[k].name for k in combo), kind, pl, tname, dname), one)
        ctx.state("vector", combo, kind, pl, tname, dname)


def run_refusals(ctx, unit):
    from gridded.grids import Grid_S
    from gridded.utilities import regrid_variable

    for src, tname, dname in itertools.product(SOURCES, TIMES, LEVELS):
        if src.loc == "swapped":
            continue
        def one():
            g = src.grid()
            v, data = make(src, g, tname, dname, "array")
            ctx.step(3)
            for loc in {"node": ["node"], "face": ["face", "center"], "center": ["center", "face"]}.get(src.loc, []):
                if src.loc == "center":
                    lon, lat = g.node_lon, g.node_lat
                    g.center_lon, g.center_lat = (lon[:-1, :-1] + lon[1:, 1:]) / 2, (lat[:-1, :-1] + lat[1:, 1:]) / 2
                w = regrid_variable(g, v, location=loc)
                expect(w is v, "regridding to the same place made another variable")
            d = destination("U/node", 1, 1, 1, 1)[0]
            for loc in ("edge", "edge1", "edge2"):
                expect(raises(NotImplementedError, regrid_variable, d, v, location=loc), "regridded to %s", loc)
            for loc in ("nowhere", "", "boundary"):
                expect(raises(ValueError, regrid_variable, d, v, location=loc), "regridded to %r", loc)
            lon, lat = np.meshgrid([1.125, 2.125], [1.0625, 2.0625])
            for loc in ("center", "face"):
                expect(raises(ValueError, regrid_variable, Grid_S(node_lon=lon, node_lat=lat), v, location=loc), "regridded to centers of a grid without")
            for kind, pl in itertools.product(DEST, FAR):
                grid, loc, *_ = destination(kind, *pl)
                far(ctx, v, grid, loc)

        ctx.case("%s %s %s" % (src.name, tname, dname), one)
        ctx.state("refusal", src.name, tname, dname)


SPACES = [
    Space("values", units_values, run_values, "8 kinds of source x 10 kinds of destination x 11 positions x 5 time axes x 6 depth axes x 5 (quick: 2 and a third of 3) containers"),
    Space("lines", lambda tier: [[i, d] for i in range(len(SOURCES)) for d in LINES], run_lines, "8 kinds of source x 6 kinds of destination x 264 positions x 4 (thorough: 16) steps of a lattice through the nodes, edges and rim of the source"),
    Space("sigma", units_sigma, run_sigma, "ROMS depths on 3 kinds of grid and FVCOM depths x 4 kinds of destination x 11 positions x 4 time axes x 2 transforms and boundary settings x 2 orders x levels or layers"),
    Space("vectors", lambda tier: [0], run_vectors, "9 sets of 2 to 4 components x 10 destinations x 5 positions x 2 time x 2 depth axes"),
    Space("refusals", lambda tier: [0], run_refusals, "all sources x time x depth axes: onto the same place, edges, unknown locations, no centers, far away"),
]
ASSUMPTIONS = ["at a point on an edge of the source any cell that touches it may answer, and on its rim the point may count as outside (except on rectangular grids)", "the data of the source are not masked", "values to 1e-7"]
