"""C02 -- what Variable.at answers does not depend on what was asked or set before.

Explicit-state search over histories of queries, attribute assignments, time
zone edits and abuse of returned arrays, on one real object; every answer is
compared with the stateless reference of fields.py for the current settings.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from .. import sgrids as S
from .c15 import run_near, units_near
from ..core import Mismatch, Space, expect

DX = 100.0
HOUR = 60


class Model:
    """Current settings of the variable; knows how to answer a query."""

    def __init__(self, fx, tn, dn, ncomp=1):
        self.fx, self.tn, self.dn = fx, tn, dn
        self.datasets = {k: F.data_for(fx, tn, dn, salt=17 * k + 1) for k in range(4)}
        self.data = list(range(ncomp))
        self.axis = tn
        self.shift = 0
        self.dx = 0.0
        self.depth = dn
        self.surface, self.bottom, self.fill = "extrapolate", "mask", 0

    def key(self):
        return (tuple(self.data), self.axis, self.shift, self.dx, self.depth, self.surface, self.bottom, self.fill)

    def wants(self, comp, pts, minute, ex, surface=None, bottom=None, flat=False):
        out = []
        for (site, dx, d) in pts:
            s = site if dx == self.dx else (site[0], None)
            out.append(F.reference(self.fx, self.axis, self.depth, self.datasets[self.data[comp]], s, Fr(0) if flat else d, Fr(minute) - self.shift,
                                   ex, surface or self.surface, bottom or self.bottom))
        return out


AXES = {"t3": ("t3", "t3b"), "notime": ("notime", "notime")}
F.TIMES.setdefault("t3b", [0, 15, 30])
DAXES = {"L3": ("L3", "L3d"), "nodepth": ("nodepth", "nodepth"), "L3/layers": ("L3/layers", "L3d/layers")}


def point_sets(fx, dn):
    ds = F.DepthAxis(dn).depths()
    ds = [ds[0], ds[2], ds[-1], ds[3 % len(ds)]] if len(ds) > 3 else [Fr(0)] * 4
    s = fx.sites
    out = next(i for i, x in enumerate(s) if x[1] is None)
    ins = [i for i, x in enumerate(s) if x[1] is not None]
    a = [(s[ins[0]], 0.0, ds[1]), (s[ins[1]], 0.0, ds[0]), (s[out], 0.0, ds[1]), (s[ins[2]], 0.0, ds[2]), (s[ins[0]], DX, ds[3])]
    b = [(s[ins[2]], 0.0, ds[1]), (s[ins[0]], 0.0, ds[3]), (s[ins[1]], DX, ds[1]), (s[ins[1]], 0.0, ds[3]), (s[out], DX, ds[0])]
    return {"A": a, "B": b, "Arev": a[::-1], "Ahead": a[:4]}


def coords(pts):
    return np.array([[float(s[0][0]) + dx, float(s[0][1]), float(d)] for s, dx, d in pts])


# queries: name -> (points, minute, extrapolate, unmask, surface, bottom, flat)
QUERIES = {
    "A@3": ("A", 3, False, False, None, None, False),
    "B@3": ("B", 3, False, False, None, None, False),
    "A@12": ("A", 12, False, False, None, None, False),
    "Arev@3": ("Arev", 3, False, False, None, None, False),
    "A@-9x": ("A", -9, True, False, None, None, False),
    "A@-9": ("A", -9, False, False, None, None, False),
    "A@3u": ("A", 3, False, True, None, None, False),
    "A@3sm": ("A", 3, False, False, "mask", None, False),
    "A@3be": ("A", 3, False, False, None, "extrapolate", False),
    "A@3flat": ("A", 3, False, False, None, None, True),
    "Ahead@3": ("Ahead", 3, False, False, None, None, False),
}
QUERIES_TIMELESS = ("A@3", "B@3", "Arev@3", "A@3u", "A@3sm", "A@3be", "A@3flat", "Ahead@3")
QUERIES_DEPTHLESS = ("A@3", "B@3", "A@12", "Arev@3", "A@-9x", "A@-9", "A@3u", "Ahead@3")
MIDDLE = ("A@3", "B@3", "A@-9x", "A@3u", "A@3be", "A@3flat")
EDITS = ("data", "time", "tz+1", "tz0", "grid", "depth", "surface", "bottom", "fill", "spoil", "remask", "respoint")


class Harness:
    def __init__(self, fx, tn, dn):
        from gridded.time import Time

        self.fx = fx
        self.m = Model(fx, tn, dn)
        self.axis = AXES[tn]
        self.daxis = DAXES[dn]
        self.P = point_sets(fx, dn)
        self.v = F.variable(fx, tn, dn, self.m.datasets[0].copy(), grid=fx.make())
        if tn != "notime":
            self.v.time = Time([F.at_minute(x) for x in F.TIMES[tn]], tz_offset=0)
        self.last = None
        self.lastpts = None

    def edit(self, op):
        """Returns False when the edit changes nothing (the history is redundant)."""
        from gridded.time import Time

        m, v = self.m, self.v
        if op == "data":
            m.data[0] = 1 - m.data[0]
            v.data = m.datasets[m.data[0]].copy()
        elif op == "time":
            if m.axis == "notime":
                return False
            m.axis = self.axis[1 - self.axis.index(m.axis)]
            m.shift = 0
            v.time = Time([F.at_minute(x) for x in F.TIMES[m.axis]], tz_offset=0)
        elif op in ("tz+1", "tz0"):
            want = HOUR if op == "tz+1" else 0
            if m.axis == "notime" or m.shift == want:
                return False
            m.shift = want
            v.time.tz_offset = want // HOUR
        elif op == "grid":
            m.dx = DX - m.dx
            v.grid = self.fx.make(m.dx)
        elif op == "depth":
            if m.depth == "nodepth":
                return False
            m.depth = self.daxis[1 - self.daxis.index(m.depth)]
            v.depth = F.DepthAxis(m.depth).make()
        elif op == "surface":
            m.surface = "mask" if m.surface == "extrapolate" else "extrapolate"
            v.surface_boundary_condition = m.surface
        elif op == "bottom":
            m.bottom = "mask" if m.bottom == "extrapolate" else "extrapolate"
            v.bottom_boundary_condition = m.bottom
        elif op == "fill":
            m.fill = -99 if m.fill == 0 else 0
            v.fill_value = m.fill
        elif op == "spoil":
            if self.last is None:
                return False
            self.last[:] = -12345.0
        elif op == "remask":
            if self.last is None or not isinstance(self.last, np.ma.MaskedArray):
                return False
            self.last[0] = np.ma.masked
            self.last.mask = np.ones(self.last.shape, bool)
        elif op == "respoint":
            if self.lastpts is None:
                return False
            self.lastpts[:] = 7.25
        return True

    def query(self, ctx, name):
        from gridded.time import OutOfTimeRangeError

        pset, minute, ex, unmask, s, b, flat = QUERIES[name]
        pts = self.P[pset]
        arr = coords(pts)
        if flat:
            arr = np.ascontiguousarray(arr[:, :2])
        kw = {k: x for k, x in (("surface_boundary_condition", s), ("bottom_boundary_condition", b)) if x}
        minute = minute + self.m.shift if minute >= 0 else minute
        wants = self.m.wants(0, pts, minute, ex, s, b, flat)
        ctx.step()
        if wants[0] == "raises":
            try:
                self.v.at(arr, F.at_minute(minute), extrapolate=ex, unmask=unmask, **kw)
            except OutOfTimeRangeError:
                ctx.outcome("raises")
                return
            raise Mismatch("%s: answered an instant out of range" % name)
        got = self.v.at(arr, F.at_minute(minute), extrapolate=ex, unmask=unmask, **kw)
        F.compare(ctx, got, wants, ["%s point %d" % (name, i) for i in range(len(pts))], fill=float(self.m.fill) if unmask else None)
        self.last, self.lastpts = got, arr
        ctx.outcome(name, self.m.key())


CONF = [("U-node", "t3", "L3"), ("S-node", "t3", "L3"), ("S-center", "t3", "nodepth"), ("S-edge1", "notime", "L3"), ("R", "t3", "nodepth"), ("U-face", "t3", "L3/layers"),
        ("S-edge2", "t3", "L3/layers"), ("R-swapped", "notime", "L3")]


def alphabet(tn, dn):
    qs = [q for q in QUERIES if (tn != "notime" or q in QUERIES_TIMELESS) and (dn != "nodepth" or q in QUERIES_DEPTHLESS)]
    es = [e for e in EDITS if not (tn == "notime" and e in ("time", "tz+1", "tz0")) and not (dn == "nodepth" and e in ("depth", "surface", "bottom"))]
    return qs, es


def units_hist(tier):
    out = []
    for c in CONF:
        qs, es = alphabet(*c[1:])
        depth = 4 if tier == "thorough" else 3 if c[0] in ("S-center", "S-edge1", "R") else 2
        for first in qs:  # an edit before anything was asked is a different constructor, covered by C01
            if depth < 4:
                out.append([list(c), [first], depth])
            else:
                out += [[list(c), [first, second], depth] for second in qs + es]
    return out


def run_hist(ctx, unit):
    (fxn, tn, dn), prefix, depth = unit
    fx = F.FIXTURES[fxn]
    qs, es = alphabet(tn, dn)
    # depth = number of operations after the first query; the last one is a query
    rest = depth + 1 - len(prefix)
    midq = qs if rest == 2 else [q for q in qs if q in MIDDLE]
    for mid in itertools.product(midq + es, repeat=rest - 1):
        for last in qs:
            hist = list(prefix) + list(mid) + [last]

            def one():
                h = Harness(fx, tn, dn)
                for op in hist:
                    if op in QUERIES:
                        h.query(ctx, op)
                    elif not h.edit(op):
                        return
                    ctx.state(fxn, h.m.key())

            ctx.case("%s/%s/%s %s" % (fxn, tn, dn, " > ".join(hist)), one)


# --- more queries than any memo holds ----------------------------------------------
def units_many(tier):
    return [[list(c), e] for c in CONF for e in alphabet(*c[1:])[1] + ["none"]]


def run_many(ctx, unit):
    (fxn, tn, dn), edit = unit
    fx = F.FIXTURES[fxn]
    qs, _ = alphabet(tn, dn)
    for n in range(1, len(qs) + 1) if os.environ.get("VMC_TIER") == "thorough" else (1, 4, 6, len(qs)):
        for back in range(n):
            for then in ("same", "reverse"):

                def one():
                    h = Harness(fx, tn, dn)
                    first = qs[back:n] + qs[:back]
                    for q in first:
                        h.query(ctx, q)
                    if edit != "none" and not h.edit(edit):
                        return
                    for q in first if then == "same" else first[::-1]:
                        h.query(ctx, q)
                    ctx.state("many", fxn, n, h.m.key())

                ctx.case("many %s/%s/%s n=%d from=%d %s %s" % (fxn, tn, dn, n, back, edit, then), one)


# --- variables that share one grid and one time axis -----------------------------
def units_shared(tier):
    return [[k, q] for k in ("S", "U", "R") for q in range(8)]


SHARED = {"S": ("S-node", "S-center", "S-edge1", "S-edge2"), "U": ("U-node", "U-face"), "R": ("R", "R-swapped")}


def run_shared(ctx, unit):
    from gridded.time import Time

    kind, first = unit
    names = SHARED[kind]
    ops = [(n, p, t) for n in names for p in ("A", "B") for t in (3, 12)]
    ops += [("grid.locate", "A", 0), ("grid.locate", "B", 0)]
    if first >= len(ops):
        return
    depth = 3 if os.environ.get("VMC_TIER") == "thorough" or kind != "S" else 2
    todo = [o for i, o in enumerate(ops) if i % 8 == first]
    for start in todo:
        for hist in itertools.product(ops, repeat=depth):
            hist = (start,) + hist

            def one():
                grid = F.FIXTURES[names[0]].make()
                axis = Time([F.at_minute(x) for x in F.TIMES["t3"]])
                vs, ms = {}, {}
                for k, n in enumerate(names):
                    fx = F.FIXTURES[n]
                    m = Model(fx, "t3", "nodepth")
                    vs[n] = F.variable(fx, "t3", "nodepth", m.datasets[0].copy(), grid=grid)
                    vs[n].time = axis
                    ms[n] = m
                for n, p, t in hist:
                    ctx.step()
                    fx = F.FIXTURES[names[0] if n == "grid.locate" else n]
                    P = point_sets(fx, "nodepth")[p]
                    arr = coords(P)
                    if n == "grid.locate":
                        grid.locate_faces(arr[:, :2].copy())
                        continue
                    got = vs[n].at(arr, F.at_minute(t))
                    F.compare(ctx, got, ms[n].wants(0, P, t, False), ["%s %s@%s point %d" % (n, p, t, i) for i in range(len(P))])

            ctx.case("shared " + " > ".join("%s:%s@%s" % o for o in hist), one)
            ctx.state("shared", hist[-2:])


# --- vectors -----------------------------------------------------------------------
def vector(fx, tn, dn, ds):
    from gridded.time import Time
    from gridded.variable import VectorVariable

    grid = fx.make()
    t = None if tn == "notime" else Time([F.at_minute(x) for x in F.TIMES[tn]], tz_offset=0)
    dep = F.DepthAxis(dn).make()
    comps = []
    for k, d in enumerate(ds):
        c = F.variable(fx, tn, dn, d.copy(), grid=grid)
        c.time, c.depth = t, dep
        c.name = "comp%d" % k
        comps.append(c)
    kw = {} if t is None else {"time": t}
    return VectorVariable(name="vec", units="m", grid=grid, depth=dep, variables=comps, **kw)


VQ = {"A@3": "A@3", "B@3": "B@3", "A@12": "A@12", "A@-9x": "A@-9x", "A@-9": "A@-9", "A@3u": "A@3u"}
VE = ("data0", "data1", "time", "tz+1", "spoil", "comp0", "comp1", "swap", "replace")


def units_vec(tier):
    out = []
    for c in (("U-node", "t3", "L3"), ("S-edge1", "t3", "nodepth"), ("R", "t3", "nodepth"), ("S-center", "t3", "L3")):
        if tier == "quick" and c[0] in ("S-center", "R"):
            continue
        for first in VQ:
            out.append([list(c), first, 3 if tier == "thorough" else 2])
    return out


def run_vec(ctx, unit):
    from gridded.time import OutOfTimeRangeError, Time

    (fxn, tn, dn), first, mid = unit
    fx = F.FIXTURES[fxn]
    P = point_sets(fx, dn)
    for middle in itertools.product(tuple(VQ) + VE, repeat=mid):
        for last in VQ:
            hist = (first,) + middle + (last,)

            def one():
                m = Model(fx, tn, dn, ncomp=2)
                vv = vector(fx, tn, dn, [m.datasets[0], m.datasets[1]])
                got = None
                for op in hist:
                    ctx.step()
                    if op in VQ:
                        pset, minute, ex, unmask, *_ = QUERIES[op]
                        pts = P[pset]
                        minute = minute + m.shift if minute >= 0 else minute
                        w = [m.wants(k, pts, minute, ex) for k in (0, 1)]
                        try:
                            got = vv.at(coords(pts), F.at_minute(minute), extrapolate=ex, unmask=unmask)
                            expect(w[0][0] != "raises", "%s answered out of range", op)
                        except OutOfTimeRangeError:
                            expect(w[0][0] == "raises", "%s raised although in range", op)
                            continue
                        expect(got.shape == (len(pts), 2), "shape %s", got.shape)
                        for k in (0, 1):
                            F.compare(ctx, got[:, k:k + 1], w[k], ["%s component %d point %d" % (op, k, i) for i in range(len(pts))], fill=0.0 if unmask else None)
                    elif op in ("comp0", "comp1"):
                        k = int(op[-1])
                        pts = P["A"]
                        r = vv.variables[k].at(coords(pts), F.at_minute(3 + m.shift))
                        F.compare(ctx, r, m.wants(k, pts, 3 + m.shift, False), ["component %d point %d" % (k, i) for i in range(len(pts))])
                    elif op in ("data0", "data1"):
                        k = int(op[-1])
                        m.data[k] = (m.data[k] + 2) % 4
                        vv.variables[k].data = m.datasets[m.data[k]].copy()
                    elif op == "time":
                        m.axis = AXES[tn][1 - AXES[tn].index(m.axis)]
                        m.shift = 0
                        vv.time = Time([F.at_minute(x) for x in F.TIMES[m.axis]], tz_offset=0)
                    elif op == "tz+1":
                        m.shift = HOUR
                        vv.time.tz_offset = 1
                    elif op == "spoil":
                        if got is None:
                            return
                        got[:] = -777.0
                    elif op == "swap":
                        m.data = m.data[::-1]
                        vv.variables = vv.variables[::-1]
                    elif op == "replace":
                        m.data[1] = (m.data[1] + 2) % 4
                        new = F.variable(fx, tn, dn, m.datasets[m.data[1]].copy(), grid=vv.grid)
                        new.time, new.depth = vv.time, vv.depth
                        vv.variables = [vv.variables[0], new]
                    ctx.state("vec", fxn, m.key())

            ctx.case("vec %s/%s/%s %s" % (fxn, tn, dn, " > ".join(hist)), one)


# --- the objects a variable is made of ------------------------------------------------------
PART_EDITS = {
    "U": ("time.data", "tz", "nodes", "levels", "node order"),
    "S": ("time.data", "tz", "bathymetry", "bathymetry.data", "zeta", "zeta.data", "zeta.tz", "hc", "stretching"),
    "R": ("time.data", "displacement", "lon", "lat", "levels"),
    "F": ("nodes", "zeta.data", "bathymetry.data", "stretching"),
}


class Parts:
    """A variable made of other objects; every setting is 0 or 1."""

    def __init__(self, kind, on=()):
        from datetime import timedelta

        from gridded.depth import FVCOM_Depth, L_Depth, ROMS_Depth
        from gridded.grids import Grid_R, Grid_S, Grid_U
        from gridded.time import Time
        from gridded.variable import Variable

        self.kind, self.on = kind, set(on)
        self.lon = {0: np.array([0.0, 1, 2, 4]), 1: np.array([-1.0, 1, 2, 4])}
        self.lat = {0: np.array([0.0, 1, 3]), 1: np.array([0.0, 2, 3])}
        self.nodes = {0: np.array([(0.0, 0), (4, 0), (4, 4), (0, 4)]), 1: np.array([(0.0, 0), (8, 0), (4, 4), (0, 4)])}
        self.stamps = {b: [F.at_minute(x) for x in (0, (10, 20)[b], 30)] for b in (0, 1)}
        self.levels = {0: np.array([0.0, 10, 20]), 1: np.array([0.0, 5, 20])}
        self.sigma = {0: np.array([-1.0, -0.5, 0]), 1: np.array([-1.0, -0.25, 0])}
        o = lambda x: int(x in self.on)
        if kind == "U":
            # "node order" is the order of the faces' corners: another diagonal
            self.grid = Grid_U(nodes=self.nodes[o("nodes")].copy(), faces=np.array(self.faces(o("node order"))))
            hor = (4,)
        elif kind == "F":
            self.grid = Grid_U(nodes=self.nodes[o("nodes")].copy(), faces=np.array(self.faces(0)))
            hor = (4,)
        elif kind == "S":
            x, y = np.meshgrid(self.lon[0], self.lat[0])
            self.grid = Grid_S(node_lon=x, node_lat=y)
            hor = (3, 4)
        else:
            self.grid = Grid_R(node_lon=self.lon[o("lon")].copy(), node_lat=self.lat[o("lat")].copy())
            hor = (3, 4)
        n = int(np.prod(hor))
        # shifts are applied in the same way as by the edits
        self.time = Time(self.stamps[o("time.data")], tz_offset=0)
        self.time.tz_offset = o("tz")
        if o("displacement"):
            self.time.data = self.time.data + timedelta(minutes=5)
        ramp = np.arange(float(n)).reshape(hor)
        self.h = {b: 20 + (1, 3)[b] * ramp for b in (0, 1)}
        self.z = {b: np.stack([(1, -2)[b] * (1 + ramp / 10), (2, 3)[b] - ramp / 20, ramp / 5]) for b in (0, 1)}
        if kind in ("U", "R"):
            self.depth = L_Depth(terms={"depth_levels": self.levels[o("levels")].copy()})
        else:
            bath = Variable(name="h", grid=self.grid, data=self.h[o("bathymetry.data") ^ o("bathymetry")], location="node")
            self.zt = Time(self.stamps[0], tz_offset=0)
            self.zt.tz_offset = o("zeta.tz")
            zeta = Variable(name="z", grid=self.grid, time=self.zt, data=self.z[o("zeta.data") ^ o("zeta")], location="node")
            st = self.sigma[o("stretching")]
            if kind == "S":
                self.depth = ROMS_Depth(grid=self.grid, bathymetry=bath, zeta=zeta, time=self.zt,
                                        terms={"s_w": self.sigma[0], "Cs_w": st, "s_rho": self.sigma[0][:2] / 2, "Cs_r": st[:2] / 2, "hc": (5.0, 9.0)[o("hc")]})
            else:
                lev = lambda v: np.repeat(v[::-1, None], 4, axis=1)
                self.depth = FVCOM_Depth(grid=self.grid, bathymetry=bath, zeta=zeta, time=self.zt, terms={"siglev": lev(st), "siglay": lev(st[:2] / 2)})
        k = np.arange(3.0)
        data = 100 * k.reshape((3, 1) + (1,) * len(hor)) ** 2 + 10 * k.reshape((1, 3) + (1,) * len(hor)) ** 2 + ramp ** 2
        kw = {} if kind == "R" else {"location": "node"}
        self.vars = [Variable(name="v", grid=self.grid, time=self.time, depth=self.depth, data=data, **kw),
                     Variable(name="w", grid=self.grid, time=self.time, data=data[:, 1] * 2, **kw)]

    @staticmethod
    def faces(b):
        return ([(0, 1, 2), (0, 2, 3)], [(0, 1, 3), (1, 2, 3)])[b]

    def edit(self, op):
        from datetime import timedelta

        from gridded.variable import Variable

        self.on ^= {op}
        b = int(op in self.on)
        o = lambda x: int(x in self.on)
        if op == "time.data":
            shift = timedelta(hours=o("tz"), minutes=5 * o("displacement"))
            self.time.data = np.array(self.stamps[b]) + shift
        elif op == "tz":
            self.time.tz_offset = b
        elif op == "displacement":
            self.time.data = self.time.data + timedelta(minutes=5 if b else -5)
        elif op == "nodes":
            self.grid.nodes = self.nodes[b].copy()
        elif op == "node order":
            self.grid.faces = np.array(self.faces(b))
        elif op in ("lon", "lat"):
            setattr(self.grid, "node_" + op, getattr(self, op)[b].copy())
        elif op == "levels":
            self.depth.depth_levels = self.levels[b].copy()
        elif op == "bathymetry.data":
            self.depth.bathymetry.data = self.h[b ^ o("bathymetry")]
        elif op == "bathymetry":
            self.depth.bathymetry = Variable(name="h", grid=self.grid, data=self.h[b ^ o("bathymetry.data")], location="node")
        elif op == "zeta.data":
            self.depth.zeta.data = self.z[b ^ o("zeta")]
        elif op == "zeta":
            self.depth.zeta = Variable(name="z", grid=self.grid, time=self.zt, data=self.z[b ^ o("zeta.data")], location="node")
        elif op == "zeta.tz":
            self.zt.tz_offset = b
        elif op == "hc":
            self.depth.hc = (5.0, 9.0)[b]
        elif op == "stretching":
            if self.kind == "S":
                self.depth.Cs_w, self.depth.Cs_r = self.sigma[b], self.sigma[b][:2] / 2
            else:
                lev = lambda v: np.repeat(v[::-1, None], 4, axis=1)
                self.depth.siglev, self.depth.siglay = lev(self.sigma[b]), lev(self.sigma[b][:2] / 2)

    PTS = np.array([(0.5, 0.5, 4.0), (1.5, 2.5, 12.0), (2.5, 0.75, 1.0), (0.75, 1.25, 0.0)])

    def ask(self, which):
        pts = self.PTS if which in (0, 1) else self.PTS[1:3]
        return [np.ma.filled(v.at(pts, F.at_minute((15, 28, 15)[which]), extrapolate=True), -1e9) for v in self.vars]


def units_parts(tier):
    return [[kind, e, tier] for kind, es in PART_EDITS.items() for e in es]


def run_parts(ctx, unit):
    kind, first, tier = unit
    depth = 3 if tier == "thorough" else 2
    fresh = {}

    def want(on, which):
        k = (frozenset(on), which)
        if k not in fresh:
            fresh[k] = Parts(kind, on).ask(which)
        return fresh[k]

    for which in (0, 1, 2):
        for n in range(1, depth + 1):
            for rest in itertools.product(PART_EDITS[kind], repeat=n - 1):
                hist = (first,) + rest

                def one():
                    p = Parts(kind)
                    for op in (None,) + hist:
                        if op:
                            p.edit(op)
                        for rep in (0, 1):
                            ctx.step()
                            for k, (g, w) in enumerate(zip(p.ask(which), want(p.on, which))):
                                expect(g.shape == w.shape and np.all(np.abs(g - w) <= 1e-9 * np.maximum(1, np.abs(w))),
                                       "after %s the %s variable answers %s, a new one %s", op, ("deep", "flat")[k], g.ravel().tolist(), w.ravel().tolist())
                        ctx.state("parts", kind, tuple(sorted(p.on)))

                ctx.case("parts %s query %d %s" % (kind, which, " > ".join(hist)), one)
    ctx.outcome(kind, first, len({tuple(x.tobytes() for x in v) for v in fresh.values()}))


# --- what each dimension of the data is ------------------------------------------------------
ROLE_FX = ("R", "U-node", "U-face", "S-node", "S-center")
ROLE_OPS = [("time", "notime"), ("time", "t3"), ("time", "t1"), ("depth", "nodepth"), ("depth", "L3"), ("depth", "L3d"),
            ("data", 0), ("data", 1), ("data", 2), ("order", None), ("order", "depth first"), ("order", "no time")]
ROLE_STARTS = [("t3", "nodepth", 1, None), ("notime", "L3", 1, None), ("t3", "L3", 2, None), ("notime", "nodepth", 0, None), ("t1", "L3", 1, None)]


def units_roles(tier):
    return [[fx, i, j, tier] for fx in ROLE_FX for i in range(len(ROLE_STARTS)) for j in range(len(ROLE_OPS))]


def run_roles(ctx, unit):
    from gridded.variable import Variable

    fxn, i, j, tier = unit
    depth = 4 if tier == "thorough" else 3
    fx = F.FIXTURES[fxn]
    hd = ["ele"] if fxn[0] == "U" else ["lon", "lat"]
    data = [S.values((3,) * n + fx.hshape, 5 + n) for n in range(3)]
    ins = [k for k, x in enumerate(fx.sites) if x[1] is not None]
    pts = np.array([[float(fx.sites[k][0][0]), float(fx.sites[k][0][1]), d] for k, d in zip(ins[:3], (2.5, 7.5, 12.5))])
    orders = {None: None, "depth first": ["depth", "time"] + hd, "no time": ["depth"] + hd}

    def build(st):
        tn, dn, nd, order = st
        v = Variable(name="v", grid=fx.make(), time=F.time_axis(tn), depth=F.DepthAxis(dn).make(), data=data[nd].copy(), location=fx.loc)
        if order is not None:
            v.dimension_ordering = list(orders[order])
        return v

    def ask(v, minute):
        try:
            r = v.at(pts.copy(), F.at_minute(minute))
        except Exception as e:  # a combination that has no answer: the same refusal is expected of a used object
            return type(e).__name__
        return np.ma.filled(np.ma.asarray(r, dtype=float), -1e9)

    fresh = {}

    def want(st):
        if st not in fresh:
            try:
                fresh[st] = [ask(build(st), m) for m in (3, 12)]
            except (ValueError, TypeError):
                fresh[st] = None
        return fresh[st]

    def compare(v, st, what):
        for m, w in zip((3, 12), want(st)):
            ctx.step()
            g = ask(v, m)
            ok = g == w if isinstance(g, str) or isinstance(w, str) else g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-9)
            expect(ok, "%s (now %s): answers %s, a new one %s", what, st, g if isinstance(g, str) else g.ravel(), w if isinstance(w, str) else w.ravel())

    for n in range(1, depth + 1):
        for rest in itertools.product(range(len(ROLE_OPS)), repeat=n - 1):
            ops = [ROLE_OPS[k] for k in (j,) + rest]
            if any(a[0] == b[0] for a, b in zip(ops, ops[1:])):
                continue  # the first of the two is without effect, apart from refusals

            def one():
                st = ROLE_STARTS[i]
                v = build(st)
                compare(v, st, "at first")
                for op, arg in ops:
                    new = list(st)
                    new["time depth data order".split().index(op)] = arg
                    new = tuple(new)
                    if want(new) is None:  # refused of a new object: nothing to compare with
                        return
                    try:
                        if op == "time":
                            v.time = F.time_axis(arg)
                        elif op == "depth":
                            v.depth = F.DepthAxis(arg).make()
                        elif op == "data":
                            v.data = data[arg].copy()
                        else:
                            v.dimension_ordering = None if arg is None else list(orders[arg])
                        st = new
                    except ValueError:
                        pass
                    ctx.state("roles", fxn, st)
                    compare(v, st, "after %s %s" % (op, arg))

            ctx.case("roles %s %s: %s" % (fxn, ROLE_STARTS[i], " > ".join("%s %s" % o for o in ops)), one)
    ctx.outcome(fxn, i, j, len(fresh))


SPACES = [
    Space("roles", units_roles, run_roles, "5 fixtures x 5 starts x all sequences of up to 3 (thorough 4) of 12 assignments of times, levels, data of 0 to 2 leading dimensions and dimension orders, with queries after each"),
    Space("histories", units_hist, run_hist, "8 configurations x all histories query + 1 or 2 (thorough 3) operations + query, over 11 queries and 12 edits"),
    Space("many", units_many, run_many, "all cyclic runs of 1, 4, 6 or 11 (thorough 1..11) different queries, any one edit, the same queries again in either order, 8 configurations"),
    Space("shared-grid", units_shared, run_shared, "2-4 variables at different places sharing a grid and a time axis, all histories of 3-4 queries"),
    Space("parts", units_parts, run_parts, "4 kinds of grid and depth x all sequences of 2 (thorough 3) edits of the time axis, mesh, axes, levels, stretching, bathymetry and surface a variable is made of, with queries in between; compared with newly made objects"),
    Space("nearby", units_near, run_near, "24 configurations x 8 batches x 6 steps of 2^-8 to 2^-40 in each coordinate and 5 steps of time, the same bytes in another shape: asked in turn"),
    Space("vectors", units_vec, run_vec, "2 (thorough 4) configurations x all histories query + 2 (thorough 3) + query, 6 queries and 9 edits of the vector, its components or results"),
]
ASSUMPTIONS = ["data, grids and depth levels are replaced by assignment, not edited in place inside the library's objects"]
