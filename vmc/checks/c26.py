"""C26 -- a drawing of a grid is a drawing of that grid.

Small meshes and grids are drawn with every combination of options; what lies on
the axes (segments by colour, markers, texts) is read back and must be the edges,
nodes, numbers and boundaries of the grid, no more and no fewer.  The FVCOM
inspector is driven through all short sequences of clicks on real files.
"""
import csv
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import fields as F
from .. import meshes as M
from .. import sgrids as S
from ..core import Space, expect
from .c18 import blank, dims, lst, var


def axes():
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib.figure import Figure

    return Figure().add_subplot()


def r9(p):
    return (round(float(p[0]), 9), round(float(p[1]), 9))


def seg(a, b):
    return tuple(sorted((r9(a), r9(b))))


def drawn(ax):
    """Segments by colour, markers, texts and filled polygons of the axes."""
    from matplotlib.collections import LineCollection, PathCollection
    from matplotlib.colors import to_rgba
    from matplotlib.patches import Polygon

    segs, marks, texts, polys = {}, [], [], []

    def line(xy, colour):
        xy = np.ma.filled(np.ma.asarray(xy, float), np.nan).tolist()
        for a, b in zip(xy, xy[1:]):
            if a == a and b == b and not (np.isnan(a).any() or np.isnan(b).any()):
                segs.setdefault(to_rgba(colour), []).append(seg(a, b))

    for ln in ax.lines:
        xy = np.c_[np.ma.filled(np.ma.asarray(ln.get_xdata(), float), np.nan), np.ma.filled(np.ma.asarray(ln.get_ydata(), float), np.nan)]
        if ln.get_linestyle() not in ("None", "", " "):
            line(xy, ln.get_color())
        if ln.get_marker() not in ("None", "", " ", None):
            marks += [r9(p) for p in xy if not np.isnan(p).any()]
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for k, s in enumerate(c.get_segments()):
                line(s, c.get_colors()[k % len(c.get_colors())])
        elif isinstance(c, PathCollection):
            marks += [r9(p) for p in np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan) if not np.isnan(p).any()]
    for t in ax.texts:
        texts.append((t.get_text(), r9(t.xy if hasattr(t, "xy") else t.get_position())))
    for p in ax.patches:
        if isinstance(p, Polygon):
            polys.append(sorted({r9(q) for q in p.get_xy()}))
    return segs, sorted(marks), sorted(texts), polys


def within(ax, pts, what):
    (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for x, y in pts:
        expect(a - 1e-9 <= x <= b + 1e-9 and c - 1e-9 <= y <= d + 1e-9, "%s %s out of the limits %s %s", what, (x, y), (a, b), (c, d))


def mesh_edges(m):
    return {tuple(sorted((f[k], f[(k + 1) % len(f)]))) for f in m.faces for k in range(len(f))}


def rims(m):
    n = {}
    for f in m.faces:
        for k in range(len(f)):
            e = tuple(sorted((f[k], f[(k + 1) % len(f)])))
            n[e] = n.get(e, 0) + 1
    return [e for e in sorted(n) if n[e] == 1]


def subsets():
    """Every choice of 1 to 4 (thorough: all) faces of a few 2x2-cell meshes."""
    for m in M.diagonal_meshes():
        if not m.name.startswith(("diag0110", "diag0011")):
            continue
        for k in range(1, len(m.faces) + 1):
            for which in itertools.combinations(m.faces, k):
                n, fs = M.compact(m.nodes, which)
                yield M.Mesh("%s[%d]" % (m.name, k), n, fs)


def units_tri(tier):
    fam = list(M.diagonal_meshes()) + list(subsets())
    fam += list(M.diagonal_meshes(perm=(4, 2, 7, 0, 8, 1, 5, 3, 6), warp=(1, 0)))
    if tier == "thorough":
        fam += list(M.single_triangles()) + list(M.triangle_pairs(4))
    else:
        fam += list(M.single_triangles())[::3] + list(M.triangle_pairs(1))[::4]
    return [["tri", M.describe(m)] for m in fam]


def units_flex(tier):
    return [["flex", M.describe(m)] for w in (None, (1, 0)) for m in M.flexible_meshes(w)] + [
        ["flex", M.describe(M.Mesh("quads%d" % k, [(2 * x, 2 * y) for y in range(2) for x in range(k + 1)], [(i, i + 1, k + i + 2, k + i + 1) for i in range(k)]))] for k in range(1, 6)
    ]


BOUNDS = ("none", "built", "some", "given")
COORDS = ("none", "built", "given")


def ugrid(m, frame, bounds, coords, kind, unused=0):
    from gridded.grids import Grid_U

    pts = M.place(m.nodes, frame) + [[M.FRAMES[frame][2] - 1 - k, M.FRAMES[frame][3] + .5] for k in range(unused)]
    fc = None
    if coords == "given":
        fc = np.array([np.mean([pts[k] for k in f], axis=0) + (.0625 * M.FRAMES[frame][0], 0) for f in m.faces])
    b = None
    if bounds == "some":
        b = rims(m)[::2]
    if bounds == "given":
        b = sorted(mesh_edges(m))[:2]
    nodes = np.array(pts)
    if kind == "axes":
        g = Grid_U(node_lon=nodes[:, 0].copy(), node_lat=nodes[:, 1].copy(), faces=M.face_array(m), face_coordinates=fc, boundaries=b)
    else:
        g = Grid_U(nodes=nodes, faces=M.face_array(m, kind), face_coordinates=fc, boundaries=b)
    if bounds == "built":
        g.build_boundaries()
        b = rims(m)
    if coords == "built":
        g.build_face_coordinates()
    return g, pts, fc, b


def judge_u(ax, m, pts, fc, b, nodes, nn, fn):
    segs, marks, texts, polys = drawn(ax)
    want = {seg(pts[i], pts[j]) for i, j in mesh_edges(m)}
    colours = [c for c in segs if c[3] > 0]
    rim = {seg(pts[i], pts[j]) for i, j in b or ()}
    full = [c for c in colours if set(segs[c]) == want]
    expect(full, "edges drawn: %s, of the mesh: %s", sorted(set().union(*segs.values())) if segs else [], sorted(want))
    if rim:
        rest = [c for c in colours if c != full[0]] if len(full) == 1 else full[1:]
        expect(len(colours) == 2 and set(segs[rest[0]]) == rim, "boundaries drawn: %s, expected %s", [sorted(set(segs[c])) for c in rest], sorted(rim))
    else:
        expect(len(colours) == 1, "lines of %d colours though there are no boundaries", len(colours))
    expect(set(marks) == ({r9(p) for p in pts} if nodes else set()), "dots at %s", marks)
    labels = []
    if nn:
        labels += [(str(i), r9(p)) for i, p in enumerate(pts)]
    if fn:
        cen = fc if fc is not None else [np.mean([pts[k] for k in f], axis=0) for f in m.faces]
        labels += [(str(i), r9(p)) for i, p in enumerate(cen)]
    near = lambda a, c: a[0] == c[0] and abs(a[1][0] - c[1][0]) < 1e-7 and abs(a[1][1] - c[1][1]) < 1e-7
    expect(len(texts) == len(labels) and all(near(a, c) for a, c in zip(texts, sorted(labels))), "numbers %s, expected %s", texts, sorted(labels))
    within(ax, pts if nodes else [pts[k] for f in m.faces for k in f], "node")


def run_u(ctx, unit):
    from gridded.plotting.mpl_plotting import plot_ugrid

    m = M.mesh_from(unit[1])
    opts = list(itertools.product((False, True), repeat=3))
    for n, (frame, bounds, coords, kind) in enumerate(itertools.product(("unit", "west", "south"), BOUNDS, COORDS, ("plain", "masked", "axes"))):
        nodes, nn, fn = opts[n % 8]
        if n % 3 and (frame, kind) != ("unit", "plain"):
            continue

        def one(nodes=nodes, nn=nn, fn=fn):
            g, pts, fc, b = ugrid(m, frame, bounds, coords, kind, unused=n % 2)
            before = np.array(g.nodes).tolist(), np.ma.filled(np.ma.asarray(g.faces), -7).tolist()
            ax = axes()
            ctx.step()
            plot_ugrid(ax, g, nodes=nodes, node_numbers=nn, face_numbers=fn)
            judge_u(ax, m, pts, fc, b, nodes, nn, fn)
            expect(before == (np.array(g.nodes).tolist(), np.ma.filled(np.ma.asarray(g.faces), -7).tolist()), "drawing changed the grid")
            if not n % 36:
                ax.figure.canvas.draw()
            # the lines of the grid as plain coordinates
            got = sorted(seg(*s) for s in np.asarray(g.get_lines()).tolist())
            expect(got == sorted(seg(pts[i], pts[j]) for i, j in mesh_edges(m)), "get_lines: %s", got)

        ctx.case("%s %s bounds=%s coords=%s %s nodes=%d numbers=%d faces=%d" % (m.name, frame, bounds, coords, kind, nodes, nn, fn), one)
    ctx.state(unit[0], m.name, m.faces)


def run_flex(ctx, unit):
    """Faces of more than three sides: drawn as they are, or refused."""
    from gridded.plotting.mpl_plotting import plot_ugrid

    m = M.mesh_from(unit[1])
    for bounds, kind, n in itertools.product(BOUNDS, ("plain", "masked"), range(8)):
        nodes, nn, fn = bool(n & 1), bool(n & 2), bool(n & 4)

        def one():
            g, pts, fc, b = ugrid(m, "west", bounds, "none", kind)
            ax = axes()
            ctx.step()
            try:
                plot_ugrid(ax, g, nodes=nodes, node_numbers=nn, face_numbers=fn)
            except (ValueError, TypeError, NotImplementedError):
                ctx.outcome("refused")
                expect(m.width() > 3, "refused though there are only triangles")
                segs, marks, texts, polys = drawn(ax)
                expect(not segs and not marks and not texts, "refused but something was drawn")
                return
            ctx.outcome("drawn")
            judge_u(ax, m, pts, fc, b, nodes, nn, fn)

        ctx.case("%s bounds=%s %s options=%d" % (m.name, bounds, kind, n), one)
    ctx.state("flex", m.name, m.faces)


# --- structured grids ---------------------------------------------------------------------
def units_s(tier):
    big = 5 if tier == "thorough" else 4
    return [[w, t] + [big] for w in S.WARPS for t in S.TURNS]


def run_s(ctx, unit):
    from gridded.plotting.mpl_plotting import plot_sgrid
    from gridded.grids import Grid_S
    from gridded.pysgrid.sgrid import SGrid

    warp, turn, big = unit
    for (mr, nc), frame, opt, holes, cls, extra in itertools.product(itertools.product(range(2, big + 1), repeat=2), ("unit", "south"), range(8), ("plain", "masked", "hole", "nan"), (Grid_S, SGrid), (0, 1)):
        if ((holes != "plain") + (frame != "unit") + (cls is SGrid) > 1) or (holes == "hole" and mr * nc < 6):
            continue
        nodes, rho, edge = bool(opt & 1), bool(opt & 2), bool(opt & 4)
        sg = S.grid(warp, turn, mr, nc)

        def one():
            lon, lat = sg.arrays(frame)
            live = np.ones(lon.shape, bool)
            cen = ed1 = ed2 = None
            kw = {}
            if extra:
                mid = lambda a: (a[:-1, :-1] + a[1:, 1:] + a[1:, :-1] + a[:-1, 1:]) / 4
                h1, h2 = (lambda a: (a[:-1] + a[1:]) / 2), (lambda a: (a[:, :-1] + a[:, 1:]) / 2)
                kw = dict(center_lon=mid(lon), center_lat=mid(lat), edge1_lon=h1(lon), edge1_lat=h1(lat), edge2_lon=h2(lon), edge2_lat=h2(lat))
                cen, ed1, ed2 = (np.c_[kw[k + "_lon"].ravel(), kw[k + "_lat"].ravel()] for k in ("center", "edge1", "edge2"))
            pl, pt = lon.copy(), lat.copy()
            if holes != "plain":
                if holes in ("hole", "nan"):
                    live[0, -1] = False
                    pl[~live], pt[~live] = (1e37, 1e37) if holes == "hole" else (np.nan, np.nan)
                if holes != "nan":
                    pl, pt = np.ma.array(pl, mask=~live), np.ma.array(pt, mask=~live)
            g = cls(node_lon=pl, node_lat=pt, **{k: v.copy() for k, v in kw.items()})
            ax = axes()
            ctx.step()
            plot_sgrid(ax, g, nodes=nodes, rho_points=rho, edge_points=edge)
            segs, marks, texts, polys = drawn(ax)
            P = lambda i, j: (lon[i, j], lat[i, j])
            want = {seg(P(i, j), P(i + a, j + c)) for i in range(mr) for j in range(nc) for a, c in ((0, 1), (1, 0)) if i + a < mr and j + c < nc and live[i, j] and live[i + a, j + c]}
            got = set(itertools.chain(*segs.values()))
            expect(got == want, "lines drawn: %s, of the grid: %s", sorted(got - want), sorted(want - got))
            dots = [P(i, j) for i in range(mr) for j in range(nc) if live[i, j]]
            wm = set()
            if nodes:
                wm |= {r9(p) for p in dots}
            if rho and cen is not None:
                wm |= {r9(p) for p in cen}
            if edge and ed1 is not None:
                wm |= {r9(p) for p in ed1} | {r9(p) for p in ed2}
            expect(set(marks) == wm, "dots drawn: %s more, %s missing", sorted(set(marks) - wm), sorted(wm - set(marks)))
            within(ax, dots, "node")
            (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
            w, h = np.ptp([p[0] for p in dots]), np.ptp([p[1] for p in dots])
            expect(b - a <= 1.5 * w + 1e-6 and d - c <= 1.5 * h + 1e-6, "limits %s are far wider than the grid", (a, b, c, d))

        ctx.case("%s %s %s nodes=%d rho=%d edge=%d %s centers=%d" % (sg.name, frame, holes, nodes, rho, edge, cls.__name__, extra), one)
    ctx.state("s", warp, turn)


# --- the FVCOM inspector ----------------------------------------------------------------
STORE = {"west": -124.5, "west360": 235.5, "across": 179.0, "across-": -1.0, "east": 10.0}
HEAD = ["nele", "nele_lat", "nele_lon", "node1", "node1_lat", "node1_lon", "node2", "node2_lat", "node2_lon", "node3", "node3_lat", "node3_lon"]


def fvcom_file(path, m, lon0, order=0):
    import netCDF4

    n, f = len(m.nodes), len(m.faces)
    with netCDF4.Dataset(path, "w") as nc:
        dims(nc, node=n, nele=f, three=3, siglay=2, siglev=3)
        lon = [lon0 + .5 * x for x, y in m.nodes]
        lat = [40 + .25 * y for x, y in m.nodes]
        var(nc, "lon", ("node",), lon, units="degrees_east", standard_name="longitude")
        var(nc, "lat", ("node",), lat, units="degrees_north", standard_name="latitude")
        if order & 1:
            var(nc, "lonc", ("nele",), [np.mean([lon[k] for k in q]) for q in m.faces])
            var(nc, "latc", ("nele",), [np.mean([lat[k] for k in q]) for q in m.faces])
        var(nc, "nv", ("three", "nele"), np.array(m.faces).T + 1, "i4")
        lev = np.array([[0] * n, [-.5] * n, [-1.0] * n])
        var(nc, "siglev", ("siglev", "node"), lev)
        var(nc, "siglay", ("siglay", "node"), (lev[1:] + lev[:-1]) / 2)
        var(nc, "h", ("node",), [8.0] * n)
    return lon, lat


def wrap(x):
    return x - 360 if x > 180 else x


def units_i(tier):
    fam = [m for k, m in enumerate(subsets()) if not k % (7 if tier == "thorough" else 23)]
    fam += list(M.diagonal_meshes())[:: 3 if tier == "thorough" else 7]
    fam += list(M.single_triangles())[:: 5 if tier == "thorough" else 40]
    return [["insp", M.describe(m)] for m in fam]


def click(v, x, y, button):
    """What matplotlib does when the mouse is pressed at x, y of the axes."""
    from matplotlib.backend_bases import MouseEvent

    canvas = v.fig.canvas
    e = MouseEvent("button_press_event", canvas, -5, -5, button)
    e.inaxes, e.xdata, e.ydata = (None if x is None else v.ax), x, y
    canvas.callbacks.process("button_press_event", e)


def run_i(ctx, unit):
    import contextlib
    import io

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from gridded.plotting import mpl_plotting as P

    m = M.mesh_from(unit[1])
    tmp = tempfile.mkdtemp(prefix="vmc26-")
    ctx.state("insp", m.name, m.faces)
    qs = M.queries(m, 1, 2)[::2]
    want_edges = mesh_edges(m)
    try:
        for store, order in itertools.product(STORE, (0, 1)):
            path = os.path.join(tmp, "%s%d.nc" % (store, order))
            lon, lat = fvcom_file(path, m, STORE[store], order)
            x0 = STORE[store]
            shown = [wrap(x) for x in lon]
            # how a place of the lattice appears on the display
            at = lambda p: (wrap(x0 + .5 * float(p[0])), 40 + .25 * float(p[1]))
            pt = [(x, y) for x, y in zip(shown, lat)]

            def geometry():
                g = P.GridGeoGenerator(path)
                ctx.step(4)
                faces = np.asarray(g.get_triangle_faces()).tolist()
                expect(faces == [list(f) for f in m.faces], "faces %s", faces)
                lines = [seg(*ln.coords) for ln in g.gen_grid_lines_U().geoms]
                want = sorted(seg(pt[i], pt[j]) for i, j in want_edges)
                expect(sorted(lines) == want, "lines %s, expected %s", sorted(lines), want)
                for style in (None, {"color": "red", "linewidth": 2}):
                    ax = axes()
                    g.draw_grid_lines(ax, style)
                    segs, marks, texts, polys = drawn(ax)
                    expect(set(itertools.chain(*segs.values())) == set(want) and not marks, "mesh drawn: %s", segs)
                    if style:
                        expect(list(segs) == [(1.0, 0.0, 0.0, 1.0)], "colours %s", list(segs))
                for mg in (0, .05, .5):
                    got = g.get_max_extent(mg)
                    w, h = max(shown) - min(shown), max(lat) - min(lat)
                    ex = [min(shown) - mg * w, max(shown) + mg * w, min(lat) - mg * h, max(lat) + mg * h]
                    expect(np.allclose(got, ex, atol=1e-9), "extent %s, expected %s", got, ex)

            ctx.case("%s %s %d geometry" % (m.name, store, order), geometry)

            def check(info, p, c):
                strict, touch = m.where(p)
                if info is None:
                    expect(strict is None, "%s is in face %s but nothing was found", c, strict)
                    return None
                k = info["nele"]
                expect(0 <= k < len(m.faces), "face %s", k)
                if strict is not None:
                    expect(k == strict, "%s is in face %s, not %s", c, strict, k)
                elif touch:
                    expect(k in touch or m.on_outer_boundary(p), "%s touches %s, not %s", c, touch, k)
                expect(list(map(int, info["nodes"])) == list(m.faces[k]), "nodes %s of face %s", info["nodes"], k)
                expect(np.allclose(info["node_lons"], [shown[i] for i in m.faces[k]]) and np.allclose(info["node_lats"], [lat[i] for i in m.faces[k]]), "coordinates %s %s", info["node_lons"], info["node_lats"])
                expect(tuple(info["click_pos"]) == tuple(c), "click at %s told as %s", c, info["click_pos"])
                return k

            def query():
                g = P.GridGeoGenerator(path)
                for p in qs:
                    ctx.step()
                    c = at(p)
                    k = check(g.fvcom_index_query(c), p, c)
                    ctx.outcome(k)

            ctx.case("%s %s %d queries" % (m.name, store, order), query)
            if order or store not in ("west360", "across"):
                continue
            inside = [p for p in qs if m.where(p)[0] is not None]
            inside = [inside[0], inside[len(inside) // 2], inside[-1]] if inside else []
            far = qs[0]
            alpha = [("in%d" % i, p, 1) for i, p in enumerate(inside)] + [("out", far, 1), ("right", inside[0] if inside else far, 3), ("off", None, 1)]
            for seq in itertools.product(range(len(alpha)), repeat=2):
                def clicks():
                    with contextlib.redirect_stdout(io.StringIO()):
                        v = P.PureMatplotlibFVCOMViewer(path)
                        try:
                            rows = []
                            for i in seq:
                                name, p, button = alpha[i]
                                c = at(p) if p else (None, None)
                                ctx.step()
                                click(v, *c, button)
                                k = m.where(p)[0] if p and button == 1 else None
                                if k is not None:
                                    rows.append(k)
                                segs, marks, texts, polys = drawn(v.ax)
                                if rows and m.where(far)[0] is None:
                                    f = m.faces[rows[-1]]
                                    expect(polys == [sorted(r9(pt[n]) for n in f)], "highlighted %s, expected face %s", polys, f)
                                    got = sorted(t for t, _ in texts)
                                    want = sorted(["Node: %d" % n for n in f] + ["Face (nele): %d\nNodes: %s" % (rows[-1], list(f))])
                                    expect(got == want, "texts %s, expected %s", got, want)
                                    for n in f:
                                        expect(("Node: %d" % n, r9(pt[n])) in texts, "node %d is marked at the wrong place: %s", n, texts)
                                elif not rows:
                                    expect(not polys and not texts, "something is highlighted")
                            with open(v.csv_path) as fh:
                                got = list(csv.reader(fh))
                            expect(got[0] == HEAD, "header %s", got[0])
                            expect(len(got) == len(rows) + 1, "%d rows after %d selections", len(got) - 1, len(rows))
                            for r, k in zip(got[1:], rows):
                                f = m.faces[k]
                                want = [k, np.mean([lat[i] for i in f]), np.mean([shown[i] for i in f])] + list(itertools.chain(*[[i, lat[i], shown[i]] for i in f]))
                                expect(np.allclose([float(x) for x in r], want, atol=1e-9), "row %s, expected %s", r, want)
                        finally:
                            plt.close(v.fig)

                ctx.case("%s %s clicks %s" % (m.name, store, "+".join(alpha[i][0] for i in seq)), clicks)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SPACES = [
    Space("triangles", units_tri, run_u, "2x2-cell meshes with every diagonal and every subset of their faces, single triangles and pairs x 4 kinds of boundaries x 3 kinds of face coordinates x containers x 8 options"),
    Space("flexible", units_flex, run_flex, "81 x 2 meshes of triangles and quads, strips of 1 to 5 quads x 4 kinds of boundaries x plain or masked faces x 8 options"),
    Space("sgrid", units_s, run_s, "7 shapes x 12 turns x node arrays up to 4x4 (thorough 5x5) x 8 options x plain, masked, with a hole, NaN x with or without centers and edges"),
    Space("inspector", units_i, run_i, "FVCOM files of meshes of 1 to 8 triangles x 5 longitude frames x with or without centers: geometry, all lattice queries; all sequences of 2 clicks of up to 6 kinds (2 frames)"),
]
ASSUMPTIONS = ["what is drawn is judged from the artists on the axes (segments by colour, markers, texts), not from pixels", "a click outside the mesh may select nothing or the nearest face", "faces of more than three sides may be refused"]
