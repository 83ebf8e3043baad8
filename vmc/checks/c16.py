"""C16 -- a vector is its components, column by column.

All pairs and triples of components over the places of a shared grid (or of two
grids), levels, layers and time axes, with every query setting: column k of the
answer is the exact answer for component k.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from ..core import Mismatch, Space, expect

FAMILY = {"S": ("S-node", "S-center", "S-edge1", "S-edge2"), "U": ("U-node", "U-face"), "R": ("R", "R-swapped")}


def make(kind, names, tn, dn, shared=True, **kw):
    from gridded.variable import VectorVariable

    grids = {}
    t = F.time_axis(tn)
    dep = F.DepthAxis(dn).make()
    comps, datas = [], []
    for k, n in enumerate(names):
        fx = F.FIXTURES[n]
        if shared:
            g = grids.setdefault(n[0], fx.make())
        else:
            g = fx.make()
        d = F.data_for(fx, tn, dn, 11 * k + 2)
        v = F.variable(fx, tn, dn, d.copy(), grid=g)
        if t is not None and shared:
            v.time = t
        v.depth = dep if shared else F.DepthAxis(dn).make()
        v.name = "c%d" % k
        v.varname = "c%d" % k
        comps.append(v)
        datas.append(d)
    cls = kw.pop("cls", VectorVariable)
    return cls(name="vec", variables=comps, **kw), comps, datas


def sites_of(names):
    """Points and each component's weights there."""
    fxs = [F.FIXTURES[n] for n in names]
    pts = []
    for fx in fxs:
        for q, _ in fx.sites:
            if q not in pts:
                pts.append(q)
    out = []
    for q in pts:
        ws = []
        for fx in fxs:
            m = [w for p, w in fx.sites if p == q]
            if not m:
                ws = None
                break
            ws.append(m[0])
        if ws is not None:
            out.append((q, ws))
    return out


def check(ctx, vv, names, tn, dn, datas, minute, ex, unmask, s, b, form="array"):
    from gridded.time import OutOfTimeRangeError

    sites = sites_of(names)
    pairs = [(st, d) for d in F.DepthAxis(dn).depths() for st in sites]
    pts = np.array([[float(st[0][0]), float(st[0][1]), float(d)] for st, d in pairs])
    kw = {k: x for k, x in (("surface_boundary_condition", s), ("bottom_boundary_condition", b)) if x}
    w = []
    for k, n in enumerate(names):
        w.append([F.reference(F.FIXTURES[n], tn, dn, datas[k], (st[0], st[1][k]), d if form != "lonlat" else Fr(0), minute, ex, s or "extrapolate", b or "mask") for st, d in pairs])
    t = F.at_minute(minute)
    try:
        if form == "lonlat":
            got = vv.at(lons=pts[:, 0], lats=pts[:, 1].tolist(), time=t, extrapolate=ex, unmask=unmask, **kw)
        elif form == "wide":
            got = vv.at(pts.T.copy(), t, extrapolate=ex, unmask=unmask, **kw)
        elif form == "list":
            got = vv.at(pts.tolist(), t, extrapolate=ex, unmask=unmask, **kw)
        else:
            got = vv.at(pts, t, extrapolate=ex, unmask=unmask, **kw)
    except OutOfTimeRangeError:
        expect(w[0][0] == "raises", "raised although in range")
        return
    expect(w[0][0] != "raises", "answered out of range")
    expect(got.shape == (len(pairs), len(names)), "shape %s for %d points of %d components", got.shape, len(pairs), len(names))
    for k in range(len(names)):
        F.compare(ctx, got[:, k:k + 1], w[k], ["component %d %s depth %s" % (k, st[0], d) for st, d in pairs], fill=0.0 if unmask else None)


def units_at(tier):
    out = []
    for kind, fam in FAMILY.items():
        for n in (2, 3):
            for names in itertools.product(fam, repeat=n):
                for tn, dn in (("t3", "nodepth"), ("t3", "L3"), ("notime", "L3d"), ("t1", "L3/layers"), ("notime", "nodepth")):
                    out.append([list(names), tn, dn])
    return out


def run_at(ctx, unit):
    names, tn, dn = unit
    thorough = os.environ.get("VMC_TIER") == "thorough"
    bcs = [(None, None), ("mask", "extrapolate")] if dn != "nodepth" else [(None, None)]
    ins = F.instants(tn)
    for shared in (True, False):
        for minute in ins if thorough else (ins[:3] + ins[-1:] if len(names) == 2 else ins[:2]):
            for ex in (False, True):
                for unmask in (False, True):
                    for s, b in bcs:
                        for form in ("array", "lonlat", "wide", "list") if s is None and not unmask else ("array",):

                            def one():
                                vv, comps, datas = make(names[0][0], names, tn, dn, shared)
                                check(ctx, vv, names, tn, dn, datas, Fr(minute), ex, unmask, s, b, form)

                            ctx.case("%s %s %s %s minute=%s ex=%s unmask=%s %s/%s %s" % (names, tn, dn, "shared" if shared else "separate", minute, ex, unmask, s, b, form), one)
                            ctx.state(tuple(names), tn, dn, str(minute), ex, unmask, s, b)


# --- construction and attributes ---------------------------------------------------
def units_attr(tier):
    return [[list(n)] for fam in FAMILY.values() for n in itertools.product(fam, repeat=2)]


def run_attr(ctx, unit):
    from gridded.time import Time
    from gridded.variable import VectorVariable

    (names,) = unit

    class UV(VectorVariable):
        comp_order = ["u", "v"]

    for tn in ("t1", "t3"):

        def attrs():
            vv, comps, datas = make(names[0][0], names, tn, "L3", cls=UV)
            ctx.step(8)
            expect(vv.u is comps[0] and vv.v is comps[1], "component names do not follow the order")
            expect(list(vv.variables) == comps, "components reordered")
            expect(vv.varnames == ["c0", "c1"], "varnames %s", vv.varnames)
            expect(vv.location == [F.FIXTURES[n].loc for n in names], "location %s", vv.location)
            expect(vv.data_shape == datas[0].shape, "data shape %s", vv.data_shape)
            expect(vv.grid is comps[0].grid and vv.depth is comps[0].depth, "grid or depth of another object")
            expect(vv.time is comps[0].time or list(vv.time.data) == list(comps[0].time.data), "time %s", vv.time)

        ctx.case("attributes %s %s" % (names, tn), attrs)

    def units_():
        for u0, u1, given, more in itertools.product(("m", "mm", ""), ("m", "s"), (None, "kg", "ss", ""), (0, 1, 2)):
            vv, comps, _ = make(names[0][0], names + names[:more], "t3", "nodepth")
            for k, c in enumerate(comps):
                c.units = u1 if k else u0
            kw = {"units": given} if given is not None else {}
            vv = VectorVariable(name="x", variables=comps, **kw)
            ctx.step()
            expect(vv.units == (u0 if given is None else given), "units %r, not %r", vv.units, u0 if given is None else given)
            for new in ("furlong", "hh", "", "m m"):
                vv.units = new
                expect(vv.units == new and all(c.units == new for c in comps), "units %r of components %s", vv.units, [c.units for c in comps])

    ctx.case("units %s" % (names,), units_)

    def bad_counts():
        vv, comps, _ = make(names[0][0], names, "t3", "nodepth")
        for arg in ([], comps[:1]):
            ctx.step()
            try:
                VectorVariable(name="x", variables=arg, units="m")
            except (ValueError, IndexError):
                continue
            expect(False, "a vector of %d components was accepted", len(arg))

    ctx.case("too few components %s" % (names,), bad_counts)

    def set_time():
        for n, more in itertools.product((1, 2, 3, 4), (0, 1, 2)):
            nm = names + names[:more]
            vv, comps, datas = make(names[0][0], nm, "t3", "nodepth")
            new = [F.at_minute(100 + 7 * k) for k in range(n)]
            for form in ("time", "list"):
                ctx.step()
                arg = Time(new) if form == "time" else list(new)
                try:
                    vv.time = arg
                    ok = True
                except ValueError:
                    ok = False
                expect(ok == (n in (1, 3)), "a time axis of %d entries for data of 3: %s", n, "accepted" if ok else "refused")
                if ok:
                    expect(list(vv.time.data) == new and all(list(c.time.data) == new for c in comps), "time not set on all")
                    if n == 3:
                        q = vv.at(np.array([[float(x) for x in F.FIXTURES[names[0]].sites[0][0]]]), new[1])
                        for k in range(len(nm)):
                            w = F.reference(F.FIXTURES[nm[k]], "notime", "nodepth", datas[k][1], F.FIXTURES[nm[k]].sites[0], Fr(0), Fr(0))
                            F.compare(ctx, q[:, k:k + 1], [w], ["after setting the time, component %d" % k])

    ctx.case("set time %s" % (names,), set_time)
    ctx.state("attr", tuple(names))


# --- one file --------------------------------------------------------------------------
def units_file(tier):
    return [[order, found] for order in range(6) for found in ("given", "default", "cf", "long", "mixed")]


def run_file(ctx, unit):
    import netCDF4

    from gridded.variable import VectorVariable

    order, found = unit
    names = list(itertools.permutations(("eastward", "northward", "upward")))[order]

    class V3(VectorVariable):
        comp_order = ["u", "v", "w"]
        default_names = {"u": [names[0]], "v": ["nothing", names[1]], "w": [names[2]]} if found in ("default", "mixed") else {}
        cf_names = {"u": ["std " + names[0]], "v": ["nothing", "std " + names[1]], "w": ["std " + names[2]]} if found == "cf" else {}
        if found == "long":
            cf_names = {"u": ["long " + names[0]], "v": ["nothing", "long " + names[1]], "w": ["long " + names[2]]}
        if found == "mixed":  # a default name goes before a standard name
            default_names = {"u": [names[0]], "v": ["nothing"]}
            cf_names = {"u": ["std " + names[1]], "v": ["std " + names[1]], "w": ["nothing", "long " + names[2]]}

    for load_all in (False, True):
        for first in names:

            def one():
                fx = F.FIXTURES["S-node"]
                unit_of = ("m/s", "mm")[load_all]
                nc = netCDF4.Dataset("vmc-c16-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
                try:
                    nc.createDimension("time", 3)
                    nc.createDimension("y", 3)
                    nc.createDimension("x", 4)
                    g = fx.make()
                    nc.createVariable("lon", "f8", ("y", "x"))[:] = g.node_lon
                    nc.createVariable("lat", "f8", ("y", "x"))[:] = g.node_lat
                    tv = nc.createVariable("time", "f8", ("time",))
                    tv.units = "minutes since 2020-02-28 23:50:00"
                    tv[:] = F.TIMES["t3"]
                    datas = {}
                    for n in [first] + [x for x in names if x != first]:
                        v = nc.createVariable(n, "f8", ("time", "y", "x"))
                        datas[n] = F.data_for(fx, "t3", "nodepth", len(n))
                        v[:] = datas[n]
                        v.standard_name = "std " + n
                        v.long_name = "long " + n
                        v.units = unit_of
                    kw = {"varnames": list(names)} if found == "given" else {}
                    vv = V3.from_netCDF(dataset=nc, grid_topology={"node_lon": "lon", "node_lat": "lat"}, load_all=load_all, name="mine", **kw)
                    expect(vv.name == "mine", "name %s", vv.name)
                    expect([v.varname for v in vv.variables] == list(names), "components %s, expected %s", [v.varname for v in vv.variables], names)
                    expect(vv.u.varname == names[0] and vv.w.varname == names[2], "component names")
                    expect(vv.units == unit_of, "units %s", vv.units)
                    for minute in (0, 3, 20):
                        pts = np.array([[float(q[0]), float(q[1])] for q, _ in fx.sites])
                        got = vv.at(pts, F.at_minute(minute))
                        for k, n in enumerate(names):
                            F.compare(ctx, got[:, k:k + 1], [F.reference(fx, "t3", "nodepth", datas[n], st, Fr(0), Fr(minute)) for st in fx.sites], ["%s %s" % (n, st[0]) for st in fx.sites])
                    for v, n in zip(vv.variables, names):
                        expect(np.array_equal(np.asarray(v.data[:]), datas[n]), "data of %s differ from the file's", n)
                    for odd in (0, 2, 1):
                        for k, n in enumerate(names):
                            nc[n].units = "other" if k == odd else unit_of
                        mixed = V3.from_netCDF(dataset=nc, grid_topology={"node_lon": "lon", "node_lat": "lat"}, load_all=load_all, **kw)
                        ctx.step()
                        each = ["other" if k == odd else unit_of for k in range(3)]
                        expect([v.units for v in mixed.variables] == each, "units of the components %s", [v.units for v in mixed.variables])
                        expect(list(mixed.units) == each, "units %s, of the components %s", mixed.units, each)
                    named = V3.from_netCDF(dataset=nc, grid_topology={"node_lon": "lon", "node_lat": "lat"}, load_all=load_all, units="kn", **kw)
                    expect(named.units == "kn" and [v.units for v in named.variables] == ["kn"] * 3, "units %s although given", named.units)
                    if load_all:
                        nc.close()
                        for v, n in zip(vv.variables, names):
                            ctx.step()
                            expect(np.array_equal(np.asarray(v.data[:]), datas[n]), "data loaded at once are gone with the file")
                    ctx.state("file", names, found, load_all)
                finally:
                    if nc.isopen():
                        nc.close()

            ctx.case("file %s %s load_all=%s first=%s" % (names, found, load_all, first), one)


SPACES = [
    Space("at", units_at, run_at, "all pairs and triples of places of a curvilinear, unstructured or rectangular grid x 5 time/depth shapes x shared or separate grids x instants x extrapolate x unmask x boundary conditions x 4 call forms"),
    Space("attributes", units_attr, run_attr, "all pairs, and with one or two more components: component names, units, locations, setting time axes of 1-4 entries, too few components"),
    Space("file", units_file, run_file, "3 components of a file, all orders x found by name, default, standard or long name or a mix x load_all x file order"),
]
ASSUMPTIONS = ["components have the same time and depth axes"]
