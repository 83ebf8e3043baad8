"""C04 -- the time axis: ordering, bracketing index, interpolation weight, bounds.

Alphabet: every strictly increasing axis that is a non-empty subset of a small
irregular lattice, at several time scales (milliseconds ... years), every query
on the half lattice plus the instants 1 microsecond either side of each knot,
every extrapolation setting.  Oracle: exact rational arithmetic on microseconds.
"""
import datetime as dt
import itertools
from fractions import Fraction

import numpy as np

from .. import sizes as Z
from ..core import Space, expect

LATTICE = (0, 2, 3, 7, 8)
SCALES = {
    "ms": dt.timedelta(milliseconds=1),
    "s": dt.timedelta(seconds=1),
    "h": dt.timedelta(hours=1),
    "36h": dt.timedelta(hours=36),
    "400d": dt.timedelta(days=400),
}
EPOCHS = {"2020": dt.datetime(2020, 2, 28, 23, 59, 59, 500000), "1969": dt.datetime(1969, 12, 31, 12)}
US = dt.timedelta(microseconds=1)


def us(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def axes(nmax):
    for n in range(1, nmax + 1):
        yield from itertools.combinations(LATTICE, n)


def units_interp(tier):
    scales = list(SCALES) if tier == "thorough" else ["s", "h", "36h", "400d"]
    epochs = list(EPOCHS) if tier == "thorough" else ["2020"]
    return [[e, s, list(a)] for e in epochs for s in scales for a in axes(5)]


def run_interp(ctx, unit):
    from gridded.time import OutOfTimeRangeError, Time

    ename, sname, axis = unit
    t0, sc = EPOCHS[ename], SCALES[sname]
    knots = [t0 + k * sc for k in axis]
    queries = set()
    for k2 in range(-3, 2 * LATTICE[-1] + 4):
        queries.add(t0 + (k2 * sc) / 2)
    for k in knots:
        queries |= {k - US, k, k + US}
    for form in ("list", "object", "time"):
        data = list(knots)
        if form == "object":
            data = np.array(data, dtype=object)
        elif form == "time":
            data = Time(data)

        def basics():
            t = Time(data)
            expect(len(t) == len(knots), "len is %s", len(t))
            expect(list(t) == knots and list(t.get_time_array()) == knots, "axis is %s", list(t))
            expect(t.min_time == knots[0] and t.max_time == knots[-1], "bounds %s %s", t.min_time, t.max_time)
            expect(t == Time(list(knots)) and not (t != Time(list(knots))), "not equal to an identical axis")
            other = Time(knots[:-1] + [knots[-1] + US])
            expect(not (t == other) and t != other, "equal to a different axis")
            expect(not (t == Time(list(knots), tz_offset=5)), "equal to an axis in another time zone")
            expect(not (t == "x"), "equal to a string")
            ctx.step(6)

        ctx.case("%s/%s/%s/%s basics" % (ename, sname, axis, form), basics)
        t = Time(data)
        ctx.state("axis", sname, tuple(axis))
        for q in sorted(queries) if form != "time" else knots:
            inside = knots[0] <= q <= knots[-1]
            # reference: first knot at or after the query
            i = sum(1 for k in knots if k < q)
            if len(knots) == 1:
                i = 0
            if len(knots) == 1 or q <= knots[0]:
                alpha = Fraction(0)
            elif q > knots[-1]:
                alpha = Fraction(1)
            else:
                alpha = Fraction(us(q - knots[i - 1]), us(knots[i] - knots[i - 1]))

            def one(extrapolate):
                ctx.step(4)
                expect(bool(t.time_in_bounds(q)) == inside, "time_in_bounds(%s) is %s", q, t.time_in_bounds(q))
                try:
                    t.valid_time(q)
                    expect(inside, "valid_time accepted %s", q)
                except OutOfTimeRangeError:
                    expect(not inside, "valid_time rejected %s", q)
                ok = inside or extrapolate or len(knots) == 1
                for name in ("index_of", "interp_alpha"):
                    try:
                        r = getattr(t, name)(q, extrapolate=extrapolate)
                        expect(ok, "%s(%s) answered %s out of range", name, q, r)
                        if name == "index_of":
                            expect(int(r) == i and r == int(r), "index_of(%s) is %s, expected %s", q, r, i)
                        else:
                            expect(
                                abs(Fraction(float(r)) - alpha) < Fraction(1, 10**12),
                                "interp_alpha(%s) is %r, expected %s", q, r, alpha,
                            )
                            expect(0.0 <= float(r) <= 1.0, "alpha %r outside [0,1]", r)
                    except OutOfTimeRangeError:
                        expect(not ok, "%s(%s) raised although in range", name, q)
                ctx.state("q", sname, tuple(axis), i, str(alpha), inside)
                ctx.outcome(i, str(alpha), ok)

            for ex in (False, True):
                ctx.case("%s/%s/%s/%s at %s ex=%s" % (ename, sname, axis, form, q.isoformat(), ex), one, ex)


# --- acceptance: strictly increasing axes and nothing else -----------------

def units_accept(tier):
    n = 5 if tier == "thorough" else 4
    out = []
    for ln in range(1, n + 1):
        for first in range(4):
            out.append([ln, first])
    return out


def run_accept(ctx, unit):
    from gridded.time import Time, TimeSeriesError

    ln, first = unit
    base = dt.datetime(2001, 1, 1)
    for rest in itertools.product(range(4), repeat=ln - 1):
        seq = (first,) + rest
        good = all(a < b for a, b in zip(seq, seq[1:]))
        for gap in ("1us", "1h", "3d"):
            g = {"1us": US, "1h": dt.timedelta(hours=1), "3d": dt.timedelta(days=3)}[gap]
            knots = [base + g * k for k in seq]
            for form in ("list", "tuple", "array"):
                arg = knots if form == "list" else tuple(knots) if form == "tuple" else np.array(knots)

                def one():
                    ctx.step()
                    try:
                        t = Time(arg)
                        expect(good, "accepted a time axis that is not strictly increasing: %s", seq)
                        expect(list(t.data) == knots, "axis changed to %s", list(t.data))
                    except TimeSeriesError:
                        expect(not good, "rejected a strictly increasing axis: %s", seq)
                    ctx.state("acc", seq, gap)
                    ctx.outcome(good)

                ctx.case("accept %s %s %s" % (seq, gap, form), one)
    if unit == [1, 0]:
        for bad in ([1.0, 2.0], np.array([1, 2]), ["a", "b"]):

            def notime():
                ctx.step()
                try:
                    Time(bad)
                except TypeError:
                    return
                expect(False, "accepted %r as a time axis", bad)

            ctx.case("accept non-datetime %r" % (bad,), notime)


SPACES = [
    Space("interpolation", units_interp, run_interp,
          "all non-empty subsets of a 5-knot irregular lattice x scales ms..400d x half-lattice and +-1us queries x extrapolate"),
    Space("acceptance", units_accept, run_accept, "all sequences of length <=4 (thorough 5) over 4 instants x 3 gaps x 3 containers"),
    Space("sizes", Z.units_axis, Z.run_time, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers): entries and instants at all entries (long axes: around the limits)"),
]
ASSUMPTIONS = ["times are naive datetime.datetime values, as documented"]
