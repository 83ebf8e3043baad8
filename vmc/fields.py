"""Small fields on every kind of grid, and what they evaluate to.

A `Site` of a fixture is a query point with the exact horizontal weights of
its value in the (flattened) trailing data dimensions, or None off the grid.
The weights come from geometry (barycentric, bilinear in known in-cell
coordinates), never from the library.
"""
import itertools
from datetime import datetime, timedelta
from fractions import Fraction as Fr

import numpy as np

from . import meshes as M
from . import sgrids as S
from .core import Mismatch, expect

T0 = datetime(2020, 2, 28, 23, 50)
MASKED = "masked"


# --- horizontal fixtures -----------------------------------------------------
class Fixture:
    def __init__(self, name, make, loc, hshape, sites, outside, dims=("y", "x"), tail=None):
        self.name, self.make, self.loc, self.hshape, self.sites, self.outside = name, make, loc, hshape, sites, outside
        self.dims = dims


def _unstructured():
    nodes = [(0, 0), (4, 0), (4, 4), (0, 4), (9, 5)]
    faces = [(0, 1, 2), (3, 0, 2), (1, 4, 2)]
    mesh = M.Mesh("u", nodes, faces)
    qs = [(3, 1), (Fr(1, 2), 3), (5, 3), (Fr(7, 2), Fr(5, 4)), (-2, 1), (6, Fr(7, 2))]
    ns, fs = [], []
    for q in qs:
        s, touch = mesh.where(q)
        assert s is not None or not touch
        if s is None:
            ns.append((q, None))
            fs.append((q, None))
        else:
            w = {}
            for k, a in zip(faces[s], M.bary([nodes[k] for k in faces[s]], q)):
                w[k] = a
            ns.append((q, w))
            fs.append((q, {s: Fr(1)}))

    def make(dx=0.0):
        from gridded.grids import Grid_U

        return Grid_U(nodes=np.array(nodes, float) + [dx, 0], faces=np.array(faces))

    yield Fixture("U-node", make, "node", (5,), ns, 0.0, ("node",))
    yield Fixture("U-face", make, "face", (3,), fs, 0.0, ("nele",))


def _curvilinear():
    sg = S.grid("fan", "e", 3, 4)
    sites = {}
    lms = [(Fr(1, 4), Fr(1, 2)), (Fr(3, 4), Fr(1, 8))]
    for loc, (m, n) in {"node": (3, 4), "center": (2, 3), "edge1": (2, 4), "edge2": (3, 3)}.items():
        out = []
        for c, (l, mm) in zip(((0, 0), (1, 2), (0, 2), (1, 0), (1, 1)), itertools.cycle(lms)):
            i, j = c
            if loc == "node":
                w = {i * n + j: (1 - l) * (1 - mm), i * n + j + 1: l * (1 - mm), (i + 1) * n + j + 1: l * mm, (i + 1) * n + j: (1 - l) * mm}
            elif loc == "center":
                w = {i * n + j: Fr(1)}
            elif loc == "edge1":
                w = {i * n + j: 1 - l, i * n + j + 1: l}
            else:
                w = {i * n + j: 1 - mm, (i + 1) * n + j: mm}
            out.append((sg.image(c, l, mm), w))
        out.insert(2, ((-3, -3), None))
        out.append(((60, 2), None))
        sites[loc] = ((m, n), out)
    lon, lat = sg.arrays()

    def make(dx=0.0):
        from gridded.grids import Grid_S

        return Grid_S(node_lon=lon + dx, node_lat=lat.copy())

    for loc, (hs, out) in sites.items():
        yield Fixture("S-" + loc, make, loc, hs, out, MASKED)


def _rectangular():
    lats, lons = [10, 11, 14], [-5, -4, -2, 2]
    qs = [(Fr(-9, 2), Fr(41, 4)), (1, 13), (-2, 11), (Fr(-5, 2), Fr(29, 2)), (Fr(1, 2), Fr(43, 4)), (3, 12), (-3, 14)]
    for name, order in (("R", "yx"), ("R-swapped", "xy")):
        sites = []
        for x, y in qs:
            if not (lats[0] <= y <= lats[-1] and lons[0] <= x <= lons[-1]):
                sites.append(((x, y), None))
                continue
            i = max(k for k in range(len(lats) - 1) if lats[k] <= y)
            j = max(k for k in range(len(lons) - 1) if lons[k] <= x)
            a = Fr(y - lats[i]) / (lats[i + 1] - lats[i])
            b = Fr(x - lons[j]) / (lons[j + 1] - lons[j])
            w = {}
            for ii, jj, ww in ((i, j, (1 - a) * (1 - b)), (i, j + 1, (1 - a) * b), (i + 1, j, a * (1 - b)), (i + 1, j + 1, a * b)):
                if ww:
                    w[ii * 4 + jj if order == "yx" else jj * 3 + ii] = ww
            sites.append(((x, y), w))

        def make(dx=0.0):
            from gridded.grids import Grid_R

            return Grid_R(node_lon=np.array(lons, float) + dx, node_lat=np.array(lats, float))

        yield Fixture(name, make, "node", (3, 4) if order == "yx" else (4, 3), sites, 0.0, ("lat", "lon") if order == "yx" else ("lon", "lat"))


FIXTURES = {f.name: f for f in itertools.chain(_unstructured(), _curvilinear(), _rectangular())}

# --- axes ----------------------------------------------------------------------
TIMES = {"notime": None, "t1": [0], "t2": [0, 8], "t3": [0, 5, 20], "t4": [0, 1, 3, 19]}  # minutes after T0


def at_minute(m):
    m = Fr(m)
    return T0 + timedelta(microseconds=int(m * 60 * 10**6))


def time_axis(name):
    from gridded.time import Time

    ts = TIMES[name]
    return None if ts is None else Time([at_minute(m) for m in ts])


def instants(name):
    """(minute, in range?) on, between and beyond the entries."""
    ts = TIMES[name]
    if ts is None:
        return [Fr(3)]
    out = [Fr(ts[0]) - 2]
    for a, b in zip(ts, ts[1:]):
        out += [Fr(a), Fr(a) + Fr(b - a, 4), Fr(b) - Fr(1, 60 * 10**6)]
    return out + [Fr(ts[-1]), Fr(ts[-1]) + Fr(7, 2)]


def time_weights(name, minute, extrapolate):
    """{index: weight}, "raises", or {} when there is no time dimension."""
    ts = TIMES[name]
    if ts is None:
        return {}
    if len(ts) == 1:
        return {0: Fr(1)}
    if minute < ts[0] or minute > ts[-1]:
        if not extrapolate:
            return "raises"
        return {0 if minute < ts[0] else len(ts) - 1: Fr(1)}
    for i, (a, b) in enumerate(zip(ts, ts[1:])):
        if a <= minute <= b:
            al = (minute - a) / (b - a)
            return {k: w for k, w in ((i, 1 - al), (i + 1, al)) if w}


LEVELS = {"L3": [0, 2, 5], "L3d": [5, 2, 0], "L2": [1, 4], "L4": [0, 1, 3, 10], "L4d": [10, 3, 1, 0], "L1": [0]}


class DepthAxis:
    """name: 'nodepth', 'L3', 'L3d/layers', 'surf-1', ..."""

    def __init__(self, name):
        self.name = name
        self.kind, _, self.on = name.partition("/")

    @property
    def size(self):
        if self.kind == "nodepth":
            return None
        if self.kind.startswith("surf"):
            return 3
        n = len(LEVELS[self.kind])
        return n - 1 if self.on == "layers" else n

    def make(self):
        from gridded.depth import Depth, L_Depth

        if self.kind == "nodepth":
            return None
        if self.kind.startswith("surf"):
            return Depth.surface_only(surface_index=int(self.kind[4:]))
        return L_Depth(terms={"depth_levels": np.array(LEVELS[self.kind], float)})

    def depths(self):
        if self.kind == "nodepth":
            return [Fr(0), Fr(3)]
        if self.kind.startswith("surf"):
            return [Fr(-1), Fr(0), Fr(50)]
        z = sorted(LEVELS[self.kind])
        out = [Fr(z[0]) - 1]
        for a, b in zip(z, z[1:]):
            out += [Fr(a), Fr(a) + Fr(b - a, 4), Fr(a) + Fr(b - a, 2)]
        return out + [Fr(z[-1]), Fr(z[-1]) + 3]

    def weights(self, d, surface="extrapolate", bottom="mask"):
        """A list of acceptable answers, each {index: weight} or MASKED."""
        if self.kind == "nodepth":
            return [{}]
        if self.kind.startswith("surf"):
            return [{int(self.kind[4:]) % 3: Fr(1)}]
        z = LEVELS[self.kind]
        n = len(z)
        if n == 1:
            return [{0: Fr(1)}]
        lo, hi = min(z), max(z)
        top = z.index(lo)
        bot = z.index(hi)
        if d < lo or d > hi:
            bc = surface if d < lo else bottom
            if bc == "mask":
                return [MASKED]
            k = top if d < lo else bot
            if self.on == "layers":
                k = min(k, n - 2)
            return [{k: Fr(1)}]
        out = []
        for i in range(n - 1):
            a, b = z[i], z[i + 1]
            if min(a, b) <= d <= max(a, b):
                al = (d - a) / (b - a)
                w = {i: Fr(1)} if self.on == "layers" else {k: x for k, x in ((i, 1 - al), (i + 1, al)) if x}
                if w not in out:
                    out.append(w)
        return out


# --- data ------------------------------------------------------------------------
def data_for(fx, tname, dname, salt=0):
    lead = ()
    if TIMES[tname] is not None:
        lead += (len(TIMES[tname]),)
    n = DepthAxis(dname).size
    if n is not None:
        lead += (n,)
    return S.values(lead + fx.hshape, salt)


_NC = []
_COUNT = itertools.count()


def container(kind, data, fx, tname, dname):
    """The same numbers as a plain array, masked array, integers or a netCDF variable."""
    if kind == "array":
        return data.copy()
    if kind == "list":
        return data.tolist()
    if kind == "masked":
        return np.ma.array(data.copy(), mask=np.zeros(data.shape, bool))
    if kind == "int":
        return data.astype(np.int32)
    if kind == "float32":
        return data.astype(np.float32)
    if kind == "netcdf":
        import netCDF4

        nc = netCDF4.Dataset("vmc-mem%d" % next(_COUNT), "w", diskless=True, persist=False)
        _NC.append(nc)
        if len(_NC) > 50:
            for old in _NC[:-1]:
                old.close()
            del _NC[:-1]
        dims = (("time",) if TIMES[tname] is not None else ()) + (("depth",) if DepthAxis(dname).size is not None else ()) + tuple(fx.dims)
        for d, n in zip(dims, data.shape):
            nc.createDimension(d, n)
        v = nc.createVariable("v", "f8", dims)
        v[:] = data
        return v
    raise ValueError(kind)


def h_value(fx, w, data, lead):
    flat = data[lead].reshape(-1)
    return sum(float(a) * flat[k] for k, a in w.items())


def reference(fx, tname, dname, data, site, depth, minute, extrapolate=False, surface="extrapolate", bottom="mask"):
    """The list of acceptable answers: numbers, MASKED; or "raises"."""
    tw = time_weights(tname, minute, extrapolate)
    if tw == "raises":
        return "raises"
    q, hw = site
    out = []
    for dw in DepthAxis(dname).weights(depth, surface, bottom):
        if dw == MASKED:
            out.append(MASKED)
        elif hw is None:
            out.append(fx.outside)
        else:
            total = 0.0
            for t, a in tw.items() if tw else [(None, Fr(1))]:
                for k, b in dw.items() if dw else [(None, Fr(1))]:
                    lead = tuple(i for i in (t, k) if i is not None)
                    total += float(a) * float(b) * h_value(fx, hw, data, lead)
            out.append(total)
    return out


def agree(v, masked, want, tol=1e-9, unmasked_fill=None):
    for w in want:
        if w == MASKED:
            if masked or (unmasked_fill is not None and v == unmasked_fill):
                return True
        elif not masked and abs(v - w) <= tol * max(1.0, abs(w)):
            return True
    return False


def compare(ctx, got, wants, labels, tol=1e-9, fill=None):
    expect(np.shape(got) == (len(wants), 1), "result has shape %s for %d points", np.shape(got), len(wants))
    vals = np.ma.getdata(got).reshape(-1).tolist()
    masks = np.ma.getmaskarray(got).reshape(-1).tolist()
    if fill is not None:
        expect(not any(masks), "unmask=True left masked values")
    for v, m, want, lab in zip(vals, masks, wants, labels):
        ctx.transitions += 1
        if not agree(v, m, want, tol, fill):
            raise Mismatch("%s: got %s, expected %s" % (lab, "masked" if m else v, " or ".join(map(str, want))))


def batch(fx, dname):
    """All (site, depth) pairs as one (N, 3) query."""
    pairs = [(s, d) for d in DepthAxis(dname).depths() for s in fx.sites]
    pts = np.array([[float(s[0][0]), float(s[0][1]), float(d)] for s, d in pairs])
    return pairs, pts


def variable(fx, tname, dname, data, grid=None, **kw):
    from gridded.variable import Variable

    kw.setdefault("location", fx.loc)
    return Variable(name="v", grid=grid or fx.make(), time=time_axis(tname), depth=DepthAxis(dname).make(), data=data, **kw)
