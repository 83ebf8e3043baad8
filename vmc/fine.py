"""Fine grids far from the origin: coordinates that need all the digits of a double.

A lattice of 3 x 4 nodes with a small spacing at a large offset, and points a
small fraction of a cell away from its sides.  The fields are linear in the node
numbers, so that every interpolation reproduces them.
"""
import itertools

import numpy as np

from .core import expect

OFFSETS = [(0.0, 0.0), (-124.7, 47.3), (179.9, -80.1), (359.3, 60.7)]
STEPS = (0.1, 1e-3, 1.0 / 3)
FRACS = (0.02, 0.3, 0.98)
SH = (3, 4)


def units(tier):
    return [[list(o), s, t] for o in OFFSETS for s in STEPS for t in ("", "flip")]


def lattice(unit):
    (x0, y0), s, turn = unit
    x, y = x0 + s * np.arange(SH[1]), y0 + s * np.arange(SH[0])
    if turn:
        x, y = x[::-1], y[::-1]
    pts, at = [], []
    for j, i, a, b in itertools.product(range(SH[0] - 1), range(SH[1] - 1), FRACS, FRACS):
        pts.append((x[i] + a * (x[i + 1] - x[i]), y[j] + b * (y[j + 1] - y[j])))
        at.append((j, i, a, b))
    return x, y, np.array(pts), at


def field(rows, cols):
    return 3.0 * np.arange(cols)[None, :] + 7.0 * np.arange(rows)[:, None]


def judge(ctx, got, want, pts, what, tol=1e-6):
    got = np.ma.filled(np.ma.asarray(got, float), np.nan).reshape(-1)
    ctx.step(len(want))
    expect(got.shape == (len(want),), "%s: %s answers for %d points", what, got.shape, len(want))
    for g, w, p in zip(got.tolist(), want, pts.tolist()):
        expect(abs(g - w) <= tol, "%s at %r: %r, expected %r", what, p, g, w)


def cells(ctx, got, want, pts, what):
    ctx.step(len(want))
    for g, w, p in zip(np.ma.filled(got, -9).tolist(), want, pts.tolist()):
        expect((tuple(g) if isinstance(w, tuple) else g) == w, "%s: %r located at %s, is in %s", what, p, g, w)


def linear(at):
    return [3 * (i + a) + 7 * (j + b) for j, i, a, b in at]


def run_r(ctx, unit):
    from gridded.grids import Grid_R

    x, y, pts, at = lattice(unit)
    g = Grid_R(node_lon=x.copy(), node_lat=y.copy())
    data = field(*SH)

    ctx.case("locate %s" % unit, lambda: cells(ctx, g.locate_faces(pts), [(i, j) for j, i, a, b in at], pts, "Grid_R"))
    ctx.case("values %s" % unit, lambda: judge(ctx, g.interpolate_var_to_points(pts, data), linear(at), pts, "Grid_R"))
    ctx.case("one by one %s" % unit, lambda: judge(ctx, [float(np.ma.filled(g.interpolate_var_to_points(p, data), np.nan).ravel()[0]) for p in pts], linear(at), pts, "Grid_R"))
    near = [float(data[j + (b > .5), i + (a > .5)]) for j, i, a, b in at]
    ctx.case("nearest %s" % unit, lambda: judge(ctx, g.interpolate_var_to_points(pts, data, method="nearest"), near, pts, "Grid_R"))
    ctx.state("fine-r", unit)


def run_s_locate(ctx, unit):
    from gridded.grids import Grid_S

    x, y, pts, at = lattice(unit)
    lon, lat = np.meshgrid(x, y)
    for mask in (None, (0, 1)):
        cm = None
        if mask is not None:
            cm = np.zeros((SH[0] - 1, SH[1] - 1), bool)
            cm[mask] = True
        g = Grid_S(node_lon=lon, node_lat=lat, center_mask=cm)
        want = [(-9, -9) if (j, i) == mask else (j, i) for j, i, a, b in at]

        def one():
            got = np.ma.asarray(g.locate_faces(pts))
            got = np.ma.array(np.where(np.ma.filled(got, -9) < 0, -9, np.ma.filled(got, -9)))
            cells(ctx, got, want, pts, "Grid_S")

        ctx.case("locate %s mask=%s" % (unit, mask), one)
    ctx.state("fine-s", unit)


def run_s_values(ctx, unit):
    from gridded.grids import Grid_S

    x, y, pts, at = lattice(unit)
    for shear in (0, 1):
        lon, lat = np.meshgrid(x, y)
        q = pts.copy()
        if shear:  # rows moved by half a spacing each
            s = (x[1] - x[0]) / 2
            lon = lon + s * np.arange(SH[0])[:, None]
            q[:, 0] += s * np.array([j + b for j, i, a, b in at])
        g = Grid_S(node_lon=lon, node_lat=lat)
        want = {"node": linear(at), "center": [3.0 * i + 7 * j for j, i, a, b in at]}
        data = {"node": field(*SH), "center": field(SH[0] - 1, SH[1] - 1)}
        for loc in want:
            ctx.case("values %s shear=%d %s" % (unit, shear, loc), lambda: judge(ctx, g.interpolate_var_to_points(q, data[loc], location=loc), want[loc], q, "Grid_S %s" % loc))
    ctx.state("fine-s", unit)


def mesh(unit):
    x, y, pts, at = lattice(unit)
    lon, lat = np.meshgrid(x, y)
    faces, which = [], []
    for j, i in itertools.product(range(SH[0] - 1), range(SH[1] - 1)):
        a = j * SH[1] + i
        faces += [(a, a + 1, a + SH[1]), (a + 1, a + SH[1] + 1, a + SH[1])]
    keep = [k for k, (j, i, a, b) in enumerate(at) if abs(a + b - 1) > 1e-3]
    pts, at = pts[keep], [at[k] for k in keep]
    which = [2 * (j * (SH[1] - 1) + i) + (a + b > 1) for j, i, a, b in at]
    return np.column_stack((lon.ravel(), lat.ravel())), np.array(faces), pts, at, which


def run_u_locate(ctx, unit):
    from gridded.grids import Grid_U

    nodes, faces, pts, at, which = mesh(unit)
    g = Grid_U(nodes=nodes, faces=faces)
    for how in ("celltree", "simple"):
        ctx.case("locate %s %s" % (unit, how), lambda: cells(ctx, g.locate_faces(pts, method=how), which, pts, how))
    near = [(j + (b > .5)) * SH[1] + i + (a > .5) for j, i, a, b in at]
    ctx.case("nearest node %s" % unit, lambda: cells(ctx, g.locate_nodes(pts), near, pts, "locate_nodes"))
    ctx.state("fine-u", unit)


def run_u_values(ctx, unit):
    from gridded.grids import Grid_U

    nodes, faces, pts, at, which = mesh(unit)
    g = Grid_U(nodes=nodes, faces=faces)
    ctx.case("node data %s" % unit, lambda: judge(ctx, g.interpolate_var_to_points(pts, field(*SH).ravel(), location="node"), linear(at), pts, "node data"))
    ctx.case("face data %s" % unit, lambda: judge(ctx, g.interpolate_var_to_points(pts, 5.0 * np.arange(len(faces)), location="face"), [5.0 * k for k in which], pts, "face data"))
    ctx.state("fine-u", unit)


BOUNDS = "spacings 1/10, 1/1000, 1/3 at 4 offsets up to 360 degrees, either way round; points at 2, 30 and 98 hundredths of every cell"
