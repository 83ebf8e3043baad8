"""C05 -- time zone / origin / displacement algebra, and time axes read from netCDF.

Explicit-state search: a Time built with every combination of options, then
every sequence of attribute assignments up to a depth, each step compared with
a reference that keeps a plain list of datetimes.
"""
import datetime as dt
import itertools
import os
import shutil
import tempfile

import numpy as np

from ..core import Space, expect

T0 = dt.datetime(2024, 2, 29, 12)
KNOTS = [T0, T0 + dt.timedelta(minutes=30), T0 + dt.timedelta(days=2, hours=1)]
H = lambda x: dt.timedelta(hours=x)  # noqa: E731

TZ = [None, 0, -8, 3.5, 5.75, 0.015625]  # the last is 56.25 s
NEW = [None, 0, -3, 9.5, -7.23828125]
ORIGIN = [None, T0, dt.datetime(1999, 12, 31, 23), dt.datetime(2030, 1, 1)]
DISP = [None, dt.timedelta(days=-3, seconds=1), 5, -1.5, dt.timedelta(0)]


class Ref:
    """The boring model: wall-clock list, offset label, displacement."""

    def __init__(self, knots, tz, new, origin, disp):
        self.knots = list(knots)
        self.tz = tz
        self.disp = None
        if origin is not None:
            d = origin - self.knots[0]
            self.knots = [k + d for k in self.knots]
        if new is not None:
            if tz is None:
                raise ValueError
            self.set_tz(new)
        if disp is not None:
            self.set_disp(disp)

    def set_tz(self, o):
        if self.tz is not None and o is not None:
            self.knots = [k + H(o) - H(self.tz) for k in self.knots]
        self.tz = o

    def set_disp(self, d):
        if self.disp is not None:
            raise AttributeError
        if d is None:
            return
        if not isinstance(d, dt.timedelta):
            d = H(d)
        self.knots = [k + d for k in self.knots]
        self.disp = d

    def key(self):
        return (tuple(self.knots), self.tz, self.disp)


def check(t, r, what):
    expect(list(t.data) == r.knots, "%s: times are %s, expected %s", what, [str(x) for x in t.data], [str(x) for x in r.knots])
    expect(t.tz_offset == r.tz and (t.tz_offset is None) == (r.tz is None), "%s: tz_offset %r, expected %r", what, t.tz_offset, r.tz)
    expect(t.displacement == r.disp, "%s: displacement %r, expected %r", what, t.displacement, r.disp)
    expect(t.min_time == r.knots[0] and t.max_time == r.knots[-1], "%s: bounds", what)
    mid = r.knots[0] + (r.knots[-1] - r.knots[0]) / 4
    i = sum(1 for k in r.knots if k < mid)
    if len(r.knots) > 1:
        expect(int(t.index_of(mid)) == i, "%s: index_of", what)


OPS = [("tz", x) for x in (None, 0, -8, 3.5, 0.015625)] + [("disp", x) for x in (None, 2, dt.timedelta(minutes=-7))] + [
    ("copy", None), ("copytz", 6), ("edit", None), ("eq", None)]


def units_hist(tier):
    return [[i, n] for n in (1, 2, 3) for i in range(len(TZ) * len(NEW) * len(ORIGIN) * len(DISP))]


def run_hist(ctx, unit):
    import os as _os

    from gridded.time import Time

    i, n = unit
    combo = list(itertools.product(TZ, NEW, ORIGIN, DISP))[i]
    tz, new, origin, disp = combo
    depth = 3 if ctx_tier() == "thorough" else 2
    knots = KNOTS[:n]

    def build(form):
        data = list(knots)
        if form == "array":
            data = np.array(data, dtype=object)
        elif form == "time":
            data = Time(list(data))
        return data

    def history(ops, form):
        src = build(form)
        try:
            r = Ref(knots, tz, new, origin, disp)
        except ValueError:
            r = None
        try:
            t = Time(src, tz_offset=tz, new_tz_offset=new, origin=origin, displacement=disp)
            expect(r is not None, "new_tz_offset accepted without a tz_offset")
        except ValueError:
            expect(r is None, "constructor refused %s", combo)
            ctx.step()
            return
        ctx.step()
        check(t, r, "after construction")
        ctx.state(r.key())
        others = []  # (object, frozen model) siblings that must not move
        for k, (op, arg) in enumerate(ops):
            ctx.step()
            if op == "tz":
                t.tz_offset = arg
                r.set_tz(arg)
            elif op == "disp":
                ok = True
                try:
                    r.set_disp(arg)
                except AttributeError:
                    ok = False
                try:
                    t.displacement = arg
                    expect(ok, "a second displacement was accepted")
                except AttributeError:
                    expect(not ok, "displacement refused")
            elif op == "copy":
                c = Time(t)
                expect(list(c.data) == r.knots, "Time(Time) has %s", list(c.data))
                others.append((c, list(r.knots)))
            elif op == "copytz":
                others.append((t, list(r.knots)))
                base = r.knots
                t = Time(t, tz_offset=1, new_tz_offset=arg)
                r = Ref(base, 1, arg, None, None)
            elif op == "edit":
                a = t.get_time_array()
                a[0] = dt.datetime(1900, 1, 1)
            elif op == "eq":
                same = Time(list(r.knots), tz_offset=r.tz)
                expect(t == same and not (t != same), "not equal to a fresh identical axis")
                expect(t != Time([x + H(1) for x in r.knots], tz_offset=r.tz), "equal to a shifted axis")
            check(t, r, "after %s" % (ops[: k + 1],))
            ctx.state(r.key())
        for o, want in others:
            expect(list(o.data) == want, "another Time object moved: %s", [str(x) for x in o.data])
        if form == "array":
            expect(list(src) == knots, "the caller's array was changed to %s", [str(x) for x in src])
        elif form == "time":
            expect(list(src.data) == knots, "the source Time object was changed to %s", [str(x) for x in src.data])
        ctx.outcome(r.key())

    for d in range(depth + 1):
        for ops in itertools.product(OPS, repeat=d):
            for form in ("list", "array", "time") if d < 2 else ("array",):
                ctx.case("n=%d %s %s %s" % (n, combo, form, ops), history, ops, form)


def ctx_tier():
    import sys

    return os.environ.get("VMC_TIER", "quick")


# --- offset strings --------------------------------------------------------

def units_iso(tier):
    return list(range(-14, 15))


def run_iso(ctx, h):
    from gridded.time import offset_as_iso_string, parse_time_offset

    for m in range(60) if abs(h) < 14 else [0]:
        for sgn in ((1, -1) if h == 0 else (1 if h > 0 else -1,)):
            tot = sgn * (abs(h) * 60 + m)
            want = "%s%02d:%02d" % ("-" if tot < 0 else "+", abs(tot) // 60, abs(tot) % 60)

            def one():
                ctx.step(2)
                got = offset_as_iso_string(tot / 60)
                expect(got == want, "offset %s min is written %r, expected %r", tot, got, want)
                off, name = parse_time_offset("days since 2024-1-1T00:00:00" + want)
                expect(off is not None and abs(off * 60 - tot) < 1e-6, "%r parsed as %s hours", want, off)
                expect(name == ("UTC" if tot == 0 else want), "%r named %r", want, name)
                ctx.state("iso", tot)
                ctx.outcome(want)

            ctx.case("iso %d min" % tot, one)
    expect(offset_as_iso_string(None) == "", "no offset is not written as an empty string")


# --- time axes read from files ---------------------------------------------

SPELL = [  # suffix, hours (None: no offset in the file)
    ("", None), ("Z", 0), (" UTC", 0), ("+00:00", 0),
    ("-07:00", -7), ("-7:00", -7), ("+05:30", 5.5), ("+0530", 5.5), (" -03:30", -3.5), ("+09:45", 9.75), ("-11", -11),
]
STEP = {"seconds": dt.timedelta(seconds=1), "minutes": dt.timedelta(minutes=1), "hours": H(1), "days": dt.timedelta(days=1)}
VALS = {"one": [3], "three": [0, 1, 4], "neg": [-2, 0.5, 90]}


def units_nc(tier):
    steps = list(STEP)
    return [[s, st, v] for s in range(len(SPELL)) for st in steps for v in VALS]


def make_ds(path, suffix, step, vals, tname="time"):
    import netCDF4 as nc4

    ds = nc4.Dataset(path, "w", diskless=path.endswith(".mem"), persist=False) if path.endswith(".mem") else nc4.Dataset(path, "w")
    ds.createDimension(tname, len(vals))
    ds.createDimension("x", 2)
    v = ds.createVariable(tname, "f8", (tname,))
    v.units = "%s since 2024-01-01T06:00:00%s" % (step, suffix)
    v[:] = vals
    d = ds.createVariable("temp", "f8", (tname, "x"))
    d[:] = 0
    ds.createVariable("still", "f8", ("x",))[:] = 0
    return ds


def run_nc(ctx, unit):
    from gridded.time import Time

    si, step, vname = unit
    suffix, filetz = SPELL[si]
    vals = VALS[vname]
    wall = [dt.datetime(2024, 1, 1, 6) + v * STEP[step] for v in vals]
    tname = "time" if si % 2 == 0 else "ocean_time"
    tmp = None
    try:
        ds = make_ds("c05-%d.mem" % os.getpid(), suffix, step, vals, tname)

        def one(how, tz, new, origin, disp, name):
            ctx.step()
            if str(tz).lower() == "naive":
                rtz = None
            elif tz is None:
                rtz = 0 if filetz is None else filetz
            else:
                rtz = tz
            try:
                r = Ref(wall, rtz, new, origin, disp)
            except ValueError:
                r = None
            kw = dict(tz_offset=tz, new_tz_offset=new, origin=origin, displacement=disp)
            if name is not None:
                kw["tz_offset_name"] = name
            if how == "varname":
                kw.update(dataset=ds, varname=tname)
            elif how == "datavar":
                kw.update(dataset=ds, datavar=ds["temp"])
            elif how == "datavarname":
                kw.update(dataset=ds, datavar="temp")
            elif how == "file":
                kw.update(filename=path, varname=tname)
            try:
                t = Time.from_netCDF(**kw)
                expect(r is not None, "naive axis was re-zoned")
            except ValueError:
                expect(r is None, "refused to load")
                return
            check(t, r, "loaded")
            if name is not None:
                expect(t.tz_offset_name == name, "name %r", t.tz_offset_name)
            elif rtz == 0 and tz is None:
                expect(t.tz_offset_name == "UTC", "UTC axis named %r", t.tz_offset_name)
            expect(t.varname == tname, "varname %r", t.varname)
            ctx.state("nc", si, step, vname, r.key())
            ctx.outcome(r.key())

        for how in ("varname", "datavar", "datavarname"):
            for tz in (None, "Naive", "naive", 0, -4, 5.5):
                for new in (None, 0, -3):
                    for origin in (None, dt.datetime(2000, 1, 1)):
                        for disp in (None, dt.timedelta(hours=25), 2):
                            if how != "varname" and (origin or disp == 2):
                                continue
                            key = "%r %s %s %s tz=%s new=%s o=%s d=%s" % (suffix, step, vname, how, tz, new, origin, disp)
                            ctx.case(key, one, how, tz, new, origin, disp, None)
        ctx.case("%r %s %s named" % (suffix, step, vname), one, "varname", None, None, None, None, "PDT")

        def still():
            ctx.step()
            t = Time.from_netCDF(dataset=ds, datavar="still")
            expect(len(t) == 1, "a variable without a time axis got %d times", len(t))
            expect(int(t.index_of(dt.datetime(1950, 1, 1))) == 0 and t.interp_alpha(dt.datetime(2150, 1, 1)) == 0.0, "not constant")

        ctx.case("%r %s %s still" % (suffix, step, vname), still)
        ds.close()
        if vname == "three" and step == "hours":
            tmp = tempfile.mkdtemp(prefix="vmc-c05-")
            path = os.path.join(tmp, "t.nc")
            make_ds(path, suffix, step, vals, tname).close()
            ctx.case("%r %s %s file" % (suffix, step, vname), one, "file", None, 1, None, None, None)
    finally:
        if tmp:
            shutil.rmtree(tmp)


SPACES = [
    Space("histories", units_hist, run_hist,
          "all constructor option combinations (5x4x4x5) x 1-3 knots x all assignment sequences of depth <=2 (thorough 3) over 11 operations"),
    Space("offset-strings", units_iso, run_iso, "every whole-minute offset from -14:00 to +14:00"),
    Space("netcdf", units_nc, run_nc, "11 offset spellings x 4 unit steps x 3 axes x every tz_offset/new_tz_offset/origin/displacement combination"),
]
ASSUMPTIONS = ["offsets are written as ISO 8601 offsets in CF units strings", "netCDF4.num2date is trusted for offset-free units"]
