"""C21 -- what a Variable is made of: accepted exactly when consistent, unchanged when refused.

All combinations of grid, time axis length, depth, data shape, stated location and
container; all histories of attribute assignments, good and bad; and variables
read from files with every set of dimensions.
"""
import itertools
import os
from datetime import timedelta
from fractions import Fraction as Fr

import numpy as np

from .. import fields as F
from ..core import Mismatch, Space, expect

GRIDS = ("U-node", "S-node", "R", "R-swapped")
HSHAPES = {
    "U-node": {"node": (5,), "face": (3,)},
    "S-node": {"node": (3, 4), "center": (2, 3)},
    "S-full": {"node": (3, 4), "center": (4, 5), "edge1": (4, 4), "edge2": (3, 5)},
    "R": {"node": (3, 4)},
}
VALID = ("node", "center", "edge1", "edge2", "face", "edge", "boundary", None)


def full_grid():
    """A curvilinear grid with every set of coordinates (arrays one larger than the nodes)."""
    from gridded.grids import Grid_S

    g = F.FIXTURES["S-node"].make()
    kw = {}
    for loc, sh in (("center", (4, 5)), ("edge1", (4, 4)), ("edge2", (3, 5))):
        kw[loc + "_lon"] = np.add.outer(np.zeros(sh[0]), np.arange(sh[1])) * 1.0
        kw[loc + "_lat"] = np.add.outer(np.arange(sh[0]), np.zeros(sh[1])) * 1.0
    return Grid_S(node_lon=g.node_lon, node_lat=g.node_lat, **kw)


def make_grid(name):
    return full_grid() if name == "S-full" else F.FIXTURES[name].make()


def where(name, shape):
    """The location the shape implies, or None."""
    hd = 1 if name[0] == "U" else 2
    if len(shape) < hd:
        return None
    for loc, s in HSHAPES[name].items():
        if tuple(shape[-hd:]) == s:
            if loc == "center" and name == "S-node":
                return None  # that grid has no center coordinates
            return loc
    return None


# --- construction ------------------------------------------------------------------
def units_make(tier):
    return [[g, nt] for g in HSHAPES for nt in (None, 1, 2, 3)]


def run_make(ctx, unit):
    from gridded.time import Time
    from gridded.variable import Variable

    gname, nt = unit
    hd = 1 if gname[0] == "U" else 2
    tails = set(HSHAPES[gname].values())
    for s in list(tails):
        for k in range(hd):
            for d in (-1, 1):
                t = list(s)
                t[k] += d
                tails.add(tuple(t))
    tails |= {(7,) * hd, s[::-1]}
    leads = [()] + [(n,) for n in (1, 2, 3, 4)] + [(n, m) for n in (1, 2, 3) for m in (2, 3)]
    if nt is not None:
        leads = leads[1:]
    for tail in sorted(tails):
        for lead in leads:
            shape = lead + tail
            for loc in VALID + ("", "nodes", "rho", 3):
                for form in ("array", "list", "masked", "time-first"):
                    for tform in ("Time", "list", "array") if nt else ("-",):
                        if form in ("list", "masked") and tform not in ("Time", "-"):
                            continue

                        def one():
                            g = make_grid(gname)
                            data = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
                            arg = data.tolist() if form == "list" else np.ma.array(data) if form == "masked" else data
                            ts = None if nt is None else [F.at_minute(5 * k) for k in range(nt)]
                            targ = Time(ts) if tform == "Time" else np.array(ts) if tform == "array" else ts
                            want = "ok"
                            if loc not in VALID:
                                want = "refused"
                            elif loc is None and where(gname, shape) is None:
                                want = "refused"
                            elif nt is not None and nt > 1 and nt != shape[0]:
                                want = "refused"
                            ctx.step()
                            try:
                                v = Variable(name="v", grid=g, data=arg, time=targ, location=loc, units="m")
                            except ValueError:
                                expect(want == "refused", "refused")
                                return
                            expect(want == "ok", "accepted, location %s", v.location)
                            expect(v.location == (loc or where(gname, shape)), "location %s", v.location)
                            expect(np.array_equal(np.asarray(v.data), data) and v.data_shape == shape, "data changed")
                            expect((v.time is None) == (nt is None), "time %s", v.time)
                            expect(nt is None or list(v.time.data) == ts, "times %s", v.time and v.time.data)
                            expect((v.name, v.units, v.grid, v.depth) == ("v", "m", g, None), "attributes")

                        ctx.case("%s time=%s %s shape=%s location=%r %s" % (gname, nt, tform, shape, loc, form), one)
            ctx.state("make", gname, nt, shape)


# --- histories of assignments ---------------------------------------------------------
def hist_ops(fx, nts):
    """name -> (attribute, value maker, model effect or None when it must be refused)"""
    from gridded.time import Time

    ops = {}
    for n in nts:
        ts = [F.at_minute(5 * k) for k in range(n)]
        ops["time=Time%d" % n] = ("time", lambda ts=ts: Time(ts), n)
        ops["time=list%d" % n] = ("time", lambda ts=ts: list(ts), n)
        ops["data=%d" % n] = ("data", lambda n=n: F.S.values((n,) + fx.hshape, n), n)
    ops["time=None"] = ("time", lambda: None, None)
    ops["time=bad order"] = ("time", lambda: [F.at_minute(5), F.at_minute(0)], "refused")
    ops["time=equal"] = ("time", lambda: [F.at_minute(5), F.at_minute(5), F.at_minute(7)], "refused")
    ops["time=number"] = ("time", lambda: 17, "refused")
    ops["data=list2"] = ("data", lambda: F.S.values((2,) + fx.hshape, 9).tolist(), 2)
    ops["location=bad"] = ("location", lambda: "somewhere", "refused")
    ops["location=same"] = ("location", lambda: fx.loc, "loc")
    return ops


def units_hist(tier):
    return [[fx, start, first] for fx in ("U-node", "U-face", "S-node", "R") for start in (None, 1, 2, 3) for first in sorted(hist_ops(F.FIXTURES[fx], (1, 2, 3)))]


def run_hist(ctx, unit):
    from gridded.variable import Variable

    fxn, start, first = unit
    fx = F.FIXTURES[fxn]
    ops = hist_ops(fx, (1, 2, 3))
    depth = 2 if os.environ.get("VMC_TIER") == "thorough" else 1
    for rest in itertools.chain.from_iterable(itertools.product(sorted(ops), repeat=n) for n in range(depth + 1)):
        hist = (first,) + rest

        def one():
            n = start or 3
            data = F.S.values((n,) + fx.hshape, n)
            times = None if start is None else [F.at_minute(5 * k) for k in range(n)]
            v = Variable(name="v", grid=fx.make(), data=data, time=times, location=fx.loc)
            for op in hist:
                attr, mk, eff = ops[op]
                val = mk()
                nt = None if times is None else len(times)
                if eff == "refused":
                    ok = False
                elif attr == "time" and eff is not None:
                    ok = eff <= 1 or eff == len(data)
                elif attr == "data":
                    ok = nt is None or nt == 1 or eff == nt
                else:
                    ok = True
                ctx.step()
                before = (v.data, v.time, v.location, v.grid)
                try:
                    setattr(v, attr, val)
                except (ValueError, TypeError):
                    expect(not ok, "%s refused", op)
                    expect(all(a is b for a, b in zip(before, (v.data, v.time, v.location, v.grid))), "refused %s changed the object", op)
                else:
                    expect(ok, "%s accepted", op)
                    if attr == "data":
                        data = np.asarray(val, float)
                    elif attr == "time":
                        times = None if val is None else [F.at_minute(5 * k) for k in range(eff)]
                expect(np.array_equal(np.asarray(v.data), data), "after %s the data are not the last accepted ones", op)
                expect((None if v.time is None else list(v.time.data)) == times, "after %s the times are %s", op, v.time and v.time.data)
                expect(v.location == fx.loc, "location %s", v.location)
                # and the object still answers
                if times is not None and len(times) == len(data):
                    m = Fr(5, 2) if len(times) > 1 else Fr(0)
                    got = v.at(np.array([[float(s[0][0]), float(s[0][1])] for s in fx.sites]), F.at_minute(m))
                    wants = []
                    for s in fx.sites:
                        if s[1] is None:
                            wants.append([fx.outside])
                        elif len(times) == 1:
                            wants.append([F.h_value(fx, s[1], data, (0,))])
                        else:
                            wants.append([0.5 * F.h_value(fx, s[1], data, (0,)) + 0.5 * F.h_value(fx, s[1], data, (1,))])
                    F.compare(ctx, got, wants, [str(s[0]) for s in fx.sites])
                ctx.state(fxn, start, None if times is None else len(times), len(data), op)

        ctx.case("%s start=%s %s" % (fxn, start, " ; ".join(hist)), one)


# --- constant time ------------------------------------------------------------------------
def units_const(tier):
    return [[fx, dn, tm] for fx in F.FIXTURES for dn in ("L3", "L3d", "L4", "L3/layers", "L1", "nodepth") for tm in ("none", "one")]


def run_const(ctx, unit):
    fxn, dn, tm = unit
    fx = F.FIXTURES[fxn]
    from gridded.time import Time
    from gridded.variable import Variable

    for lead_one in (False, True):
        if lead_one and tm == "none":
            continue
        if not lead_one and tm == "one" and F.DepthAxis(dn).size in (None, 1):
            if dn != "nodepth":
                continue  # a leading dimension of one is taken for the time
        for salt in (1, 4):
            base = F.data_for(fx, "notime", dn, salt)
            data = base[None] if lead_one else base
            for form in ("array", "list", "masked"):

                def one():
                    t = None if tm == "none" else Time([F.at_minute(4)])
                    v = Variable(grid=fx.make(), data=F.container(form, data, fx, "notime", dn), time=t, depth=F.DepthAxis(dn).make(), location=fx.loc)
                    pairs, pts = F.batch(fx, dn)
                    for minute in (0, 4, 9):
                        w = [F.reference(fx, "notime", dn, base, s, d, Fr(minute)) for s, d in pairs]
                        F.compare(ctx, v.at(pts, F.at_minute(minute)), w, ["%s depth %s" % (s[0], d) for s, d in pairs])
                    for k in range(0, len(pairs), 5):
                        F.compare(ctx, v.at(pts[k:k + 1], F.at_minute(4)), w[k:k + 1], ["%s" % (pairs[k],)])

                ctx.case("%s %s time=%s lead=%s salt=%s %s" % (fxn, dn, tm, lead_one, salt, form), one)
                ctx.state("const", fxn, dn, tm, lead_one)


# --- files -----------------------------------------------------------------------------------
DIMS = {
    "hor": (), "time": ("time",), "depth": ("depth",), "both": ("time", "depth"), "one+depth": ("one", "depth"), "time1": ("time1",), "time1+depth": ("time1", "depth"),
}
TN = {"time": "t3", "both": "t3", "time1": "t1", "time1+depth": "t1"}


def units_file(tier):
    return [[fx, k, given] for fx in F.FIXTURES for k in DIMS for given in ("file", "Time1", "list1", "Time3")]


def run_file(ctx, unit):
    import netCDF4
    from gridded.time import Time
    from gridded.variable import Variable

    fxn, kind, given = unit
    fx = F.FIXTURES[fxn]
    dims = DIMS[kind]
    if given == "Time3" and "time" not in dims:
        return
    if given in ("Time1", "list1") and "time" in dims:
        return  # three times in the file, one given: nothing documented
    tn = TN.get(kind, "notime")
    dn = "L3" if "depth" in dims else "nodepth"
    base = F.data_for(fx, tn if tn == "t3" else "notime", dn, 3)
    data = base[None] if dims[:1] in (("one",), ("time1",)) else base

    def build():
        nc = netCDF4.Dataset("vmc-c21-%d-%d" % (os.getpid(), next(F._COUNT)), "w", diskless=True, persist=False)
        for d, n in (("time", 3), ("time1", 1), ("one", 1), ("depth", 3)):
            nc.createDimension(d, n)
        g = fx.make()
        if fxn[0] == "U":
            nc.createDimension("node", 5)
            nc.createDimension("nele", 3)
            nc.createDimension("three", 3)
            nc.createVariable("lon", "f8", ("node",))[:] = g.node_lon
            nc.createVariable("lat", "f8", ("node",))[:] = g.node_lat
            nc.createVariable("nv", "i4", ("nele", "three"))[:] = g.faces
            # three faces of three nodes could be stored either way: a topology says nothing of it, so pass the grid
        elif fxn[0] == "S":
            for d, n in (("y", 3), ("x", 4), ("yc", 2), ("xc", 3)):
                nc.createDimension(d, n)
            nc.createVariable("lon", "f8", ("y", "x"))[:] = g.node_lon
            nc.createVariable("lat", "f8", ("y", "x"))[:] = g.node_lat
        else:
            nc.createDimension("lon", 4)
            nc.createDimension("lat", 3)
            nc.createVariable("lon", "f8", ("lon",))[:] = g.node_lon
            nc.createVariable("lat", "f8", ("lat",))[:] = g.node_lat
        z = nc.createVariable("depth", "f8", ("depth",))
        z[:] = F.LEVELS["L3"]
        for d, m in (("time", F.TIMES["t3"]), ("time1", [4])):
            t = nc.createVariable(d, "f8", (d,))
            t.units = "minutes since 2020-02-28 23:50:00"
            t[:] = m
        hd = fx.dims
        if fxn[0] == "S":
            hd = {(3, 4): ("y", "x"), (2, 3): ("yc", "xc"), (2, 4): ("yc", "x"), (3, 3): ("y", "xc")}[fx.hshape]
        v = nc.createVariable("temp", "f8", dims + hd)
        v[:] = data
        v.setncatts({"units": "degC", "standard_name": "sea_water_temperature", "long_name": "water temp", "odd_number": np.int32(7)})
        nc.createVariable("other", "f8", dims + hd)[:] = data * 0 - 5
        return nc

    class Temp(Variable):
        default_names = ["nothing", "temp"]

    class Cf(Variable):
        cf_names = ["nothing", "sea_water_temperature"]

    class Long(Variable):
        cf_names = ["water temp"]

    class First(Variable):
        default_names = ["temp", "other"]

    class Both(Variable):
        default_names = ["temp"]
        cf_names = ["some other thing"]

    class Absent(Variable):
        default_names = ["nothing"]
        cf_names = ["nothing either"]

    for found, locattr, load_all in itertools.product(("varname", "default", "standard_name", "long_name"), (False, True), (False, True)):
        def one():
            nc = build()
            try:
                kw = {}
                if locattr:
                    nc["temp"].location = fx.loc
                else:
                    kw["location"] = fx.loc
                cls = {"varname": Variable, "default": Temp, "standard_name": Cf, "long_name": Long}[found]
                if found == "varname":
                    kw["varname"] = "temp"
                if given == "Time1":
                    kw["time"] = Time([F.at_minute(2)])
                elif given == "list1":
                    kw["time"] = [F.at_minute(2)]
                elif given == "Time3":
                    kw["time"] = Time([F.at_minute(m) for m in F.TIMES["t3"]])
                if fxn[0] == "U":
                    kw["grid"] = fx.make()
                elif fxn[0] == "S":
                    kw["grid_topology"] = {"node_lon": "lon", "node_lat": "lat"}
                v = cls.from_netCDF(dataset=nc, load_all=load_all, name="mine", **kw)
                ctx.step()
                expect(v.varname == "temp" if found == "varname" else True, "varname %s", v.varname)
                expect(v.name == "mine" and v.units == "degC" and v.location == fx.loc, "name, units, location: %s %s %s", v.name, v.units, v.location)
                a = {k: x for k, x in v.attributes.items() if k != "location"}
                expect(a == {"units": "degC", "standard_name": "sea_water_temperature", "long_name": "water temp", "odd_number": 7}, "attributes %s", a)
                expect((v.depth is not None) == (dn != "nodepth"), "depth %s", v.depth)
                expect(np.array_equal(np.asarray(v.data[:]), data), "data differ from the file's")
                pairs, pts = F.batch(fx, dn)
                for minute in (0, 3, 20):
                    w = [F.reference(fx, tn if tn == "t3" else "notime", dn, base, s, d, Fr(minute)) for s, d in pairs]
                    F.compare(ctx, v.at(pts, F.at_minute(minute)), w, ["%s depth %s" % (s[0], d) for s, d in pairs])
                kw["units"] = "kelvin"
                u = cls.from_netCDF(dataset=nc, load_all=load_all, **kw)
                expect(u.units == "kelvin", "units %s although given", u.units)
                expect(np.array_equal(np.asarray(u.data[:]), data), "data differ from the file's")
                if load_all:
                    nc.close()
                    for x in (v, u):
                        ctx.step()
                        expect(np.array_equal(np.asarray(x.data[:]), data), "data loaded at once are gone with the file")
                ctx.state("file", fxn, kind, given, found, locattr, load_all)
            finally:
                if nc.isopen():
                    nc.close()

        ctx.case("file %s %s %s found=%s locattr=%s load_all=%s" % (fxn, kind, given, found, locattr, load_all), one)

    def precedence():
        nc = build()
        try:
            nc["other"].standard_name = "some other thing"
            for cls in (First, Both):
                ctx.step()
                v = cls.from_netCDF(dataset=nc, grid=fx.make(), location=fx.loc)
                expect(np.array_equal(np.asarray(v.data[:]), data), "%s: not the first of the default names", cls.__name__)
        finally:
            nc.close()

    ctx.case("file %s %s %s precedence" % (fxn, kind, given), precedence)

    def absent():
        nc = build()
        try:
            for cls, kw in ((Variable, {}), (Absent, {}), (Variable, {"varname": "nothing"})):
                ctx.step()
                try:
                    v = cls.from_netCDF(dataset=nc, grid=fx.make(), location=fx.loc, **kw)
                except (ValueError, NameError, KeyError):
                    continue
                raise Mismatch("a variable that is not there was loaded as %s" % v.varname)
        finally:
            nc.close()

    ctx.case("file %s %s %s absent" % (fxn, kind, given), absent)


SPACES = [
    Space("construct", units_make, run_make, "4 grids x 0-3 times (as Time, list, array) x all data shapes within one of every place on the grid with up to 2 leading dimensions x all valid and 4 invalid locations x containers"),
    Space("assignments", units_hist, run_hist, "4 fixtures x 4 starting times x all histories of 1-2 (thorough 3) of 17 good and bad assignments of data, time and location"),
    Space("constant-time", units_const, run_const, "8 fixtures x 6 depth axes x no time or one time x with and without a time dimension x 3 containers, all points and depths"),
    Space("file", units_file, run_file, "8 fixtures x 7 sets of dimensions x time from the file or given x found by name, default, standard or long name x location attribute x load_all"),
]
ASSUMPTIONS = ["once a location is set, the shape of replaced data is the caller's business", "square data of a rectangular grid names its dimensions"]
