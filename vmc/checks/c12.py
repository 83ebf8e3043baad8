"""C12 -- curvilinear (logically rectangular) grids: which cell contains a point."""
import itertools
import warnings
import os
from fractions import Fraction as Fr

import numpy as np

from .. import meshes as M
from .. import sgrids as S
from .. import fine
from .. import sizes as Z
from .c15 import run_corner, units_corner
from ..core import Space, expect


def cells_of(got, n):
    """Normalise an answer for n points to a list of (row, col) or None."""
    expect(np.shape(got) == (n, 2), "answer of shape %s for %d points", np.shape(got), n)
    out = []
    data = np.ma.getdata(got)
    mask = np.ma.getmaskarray(got)
    for d, m in zip(data.tolist(), mask.tolist()):
        neg = [k < 0 for k in d]
        expect(all(m) == any(m) and all(neg) == any(neg), "half an index: %s masked %s", d, m)
        out.append(None if any(m) or any(neg) else tuple(d))
    return out


def judge(ctx, sg, qs, got, live=None, what="located"):
    for q, g in zip(qs, got):
        ctx.transitions += 1
        strict, touch = sg.where(q, live)
        if strict is not None:
            expect(g == strict, "(%s, %s) is inside cell %s, %s in %s", q[0], q[1], strict, what, g)
        elif not touch:
            expect(g is None, "(%s, %s) is outside every (unmasked) cell, %s in %s", q[0], q[1], what, g)
        else:
            # on an edge: any touching cell; outside only if the point is not
            # surrounded by cells
            expect(g in touch or (g is None and not interior(sg, q, live)), "(%s, %s) lies on cells %s, %s in %s", q[0], q[1], touch, what, g)
    ctx.outcome(sg.name, tuple(got))


def interior(sg, q, live):
    e = Fr(1, 64)
    return all(sg.where((q[0] + a * e, q[1] + b * e), live)[1] for a in (-1, 0, 1) for b in (-1, 0, 1))


def queries(sg, step=2, pad=2):
    xs = [p[0] for r in sg.nodes for p in r]
    ys = [p[1] for r in sg.nodes for p in r]
    lat = [(Fr(x, 1), Fr(y, 1)) for x in range(min(xs) - pad, max(xs) + pad + 1, step) for y in range(min(ys) - pad, max(ys) + pad + 1, step)]
    return lat + [sg.image(c, l, m) for c in sg.cells for l, m in S.LM_IN[:3]]


def check_grid(ctx, sg, frame, key, deep):
    from gridded.grids import Grid_S

    lon, lat = sg.arrays(frame)
    qs = queries(sg, 1 if sg.M * sg.N <= 4 else 2 if sg.M * sg.N <= 9 else 3, 1 if sg.M * sg.N <= 4 else 3)
    pts = np.array(M.place(qs, frame))
    g = ctx.case(key + " build", lambda: Grid_S(node_lon=lon, node_lat=lat))
    if g is None:
        return
    ctx.case(key + " batch", lambda: judge(ctx, sg, qs, cells_of(g.locate_faces(pts), len(qs))))
    if not deep:
        return
    ctx.case(key + " again", lambda: judge(ctx, sg, qs, cells_of(g.locate_faces(pts.tolist()), len(qs))))

    def single():
        for k in range(0, len(qs), 3):
            r = g.locate_faces(pts[k])
            expect(np.shape(r) == (2,), "one point gave an answer of shape %s", np.shape(r))
            judge(ctx, sg, [qs[k]], cells_of(np.ma.reshape(np.ma.asarray(r), (1, 2)), 1), None, "alone located")

    def near():
        r = np.asarray(g.locate_nearest(pts, "node"))
        flat = [p for row in sg.nodes for p in row]
        sx, sy = M.FRAMES[frame][:2]
        for q, ij in zip(qs, r.tolist()):
            ctx.transitions += 1
            d = [(sx * float(a[0] - q[0])) ** 2 + (sy * float(a[1] - q[1])) ** 2 for a in flat]
            expect(0 <= ij[0] < sg.M and 0 <= ij[1] < sg.N and d[ij[0] * sg.N + ij[1]] <= min(d) * (1 + 1e-9),
                   "nearest node to (%s, %s): %s", q[0], q[1], ij)

    ctx.case(key + " single", single)
    ctx.case(key + " nearest", near)
    ctx.case(key + " index_of", lambda: judge(ctx, sg, qs, cells_of(g.index_of(pts), len(qs))))


def quad_units(tier):
    n = 96
    return [[tier, k, n] for k in range(n)]


def run_quads(ctx, unit):
    tier, k, n = unit
    frames = ("unit", "west") if tier == "quick" else tuple(M.FRAMES)
    for sg in itertools.islice(S.labelled_quads(4), k, None, n):
        for frame in frames:
            check_grid(ctx, sg, frame, "%s %s" % (sg.name, frame), deep=frame == "unit")
        ctx.state(sg.name)


SHAPES = [(2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (2, 5), (5, 2)]


def frame_units(tier):
    shapes = SHAPES if tier == "quick" else SHAPES + [(4, 5), (6, 3), (3, 6)]
    return [[w, t, list(s)] for s in shapes for w in S.WARPS for t in S.TURNS]


def run_frames(ctx, unit):
    w, t, (a, b) = unit
    sg = S.grid(w, t, a, b)
    if not sg.valid():
        return
    for frame in M.FRAMES:
        check_grid(ctx, sg, frame, "%s %s" % (sg.name, frame), deep=frame in ("unit", "south"))
        ctx.state(sg.name, frame)


# -- masks ------------------------------------------------------------------
def mask_units(tier):
    out = []
    for warp, turn in (("rect", "e"), ("warp", "r"), ("shear", "fx")):
        for pad in itertools.product(S.PAD, repeat=2):
            out.append(["center", warp, turn, [3, 3], list(pad)])
        out.append(["center", warp, turn, [3, 4], ["none", "none"]])
        out.append(["center", warp, turn, [3, 4], ["low", "both"]])
        if tier == "thorough":
            out.append(["center", warp, turn, [4, 4], ["both", "high"]])
        out.append(["node", warp, turn, [3, 3], ["none", "none"]])
        out.append(["coords", warp, turn, [3, 3], ["none", "none"]])
        out.append(["coords+center", warp, turn, [3, 3], ["none", "none"]])
        if tier == "thorough":
            out.append(["node", warp, turn, [3, 4], ["none", "none"]])
    return out


def run_masks(ctx, unit):
    from gridded.grids import Grid_S

    kind, warp, turn, (Mr, Nc), pad = unit
    sg = S.grid(warp, turn, Mr, Nc)
    lon, lat = sg.arrays("unit")
    qs = [sg.image(c, l, m) for c in sg.cells for l, m in S.LM_IN[:2]]
    xs = [float(q[0]) for q in qs]
    ys = [float(q[1]) for q in qs]
    qs += [(Fr(int(min(xs)) - 9), qs[0][1]), (qs[0][0], Fr(int(max(ys)) + 9))]
    pts = np.array(M.place(qs, "unit"))
    off = S.offset(pad)
    ncell = (Mr - 1, Nc - 1)

    def located(g, **kw):
        return cells_of(g.locate_faces(pts, **kw), len(qs))

    if kind == "center":
        for bits in itertools.product((False, True), repeat=ncell[0] * ncell[1]):
            cm = np.array(bits).reshape(ncell)
            live = {c for c in sg.cells if not cm[c]}
            for ghost in (False, True):
                full = np.full(S.padded_shape(ncell, pad), ghost)
                if ghost and full.shape == ncell:
                    continue
                full[off[0]:off[0] + ncell[0], off[1]:off[1] + ncell[1]] = cm
                for rep in ("bool", "int8"):
                    key = "%s %s %s pad=%s ghost=%s %s" % (sg.name, kind, "".join("01"[b] for b in bits), pad, ghost, rep)

                    def body():
                        arr = full if rep == "bool" else full.astype("i1")
                        keep = arr.copy()
                        g = Grid_S(node_lon=lon, node_lat=lat, center_mask=arr, face_padding=tuple(pad))
                        judge(ctx, sg, qs, located(g), live)
                        judge(ctx, sg, qs, located(g, use_mask=False), None, "unmasked located")
                        judge(ctx, sg, qs, located(g, use_mask=True), live, "then masked located")
                        expect((arr == keep).all(), "the caller's mask was changed")

                    ctx.case(key, body)
                    ctx.state(key)

                if "high" in pad:
                    continue
                # the padding is not declared: the shape of the centers shows it
                key = "%s %s %s pad=%s ghost=%s undeclared" % (sg.name, kind, "".join("01"[b] for b in bits), pad, ghost)

                def undeclared():
                    clon, clat = (np.pad((a[:-1, :-1] + a[1:, 1:]) / 2, [S.EXTRA[p] for p in pad], mode="edge") for a in (lon, lat))
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        g = Grid_S(node_lon=lon, node_lat=lat, center_lon=clon, center_lat=clat, center_mask=full.copy())
                        judge(ctx, sg, qs, located(g), live)
                        judge(ctx, sg, qs, located(g, use_mask=False), None, "unmasked located")

                ctx.case(key, undeclared)
                ctx.state(key)
    elif kind == "node":
        for bits in itertools.product((False, True), repeat=Mr * Nc):
            nm = np.array(bits).reshape(Mr, Nc)
            live = {(i, j) for i, j in sg.cells if not nm[i:i + 2, j:j + 2].any()}
            key = "%s node %s" % (sg.name, "".join("01"[b] for b in bits))

            def body():
                g = Grid_S(node_lon=lon, node_lat=lat, node_mask=nm.copy())
                judge(ctx, sg, qs, located(g), live)
                judge(ctx, sg, qs, located(g, use_mask=False), None, "unmasked located")

            ctx.case(key, body)
            ctx.state(key)
    else:
        for bits in itertools.product((False, True), repeat=Mr * Nc):
            nm = np.array(bits).reshape(Mr, Nc)
            cms = [None] if kind == "coords" else [np.array(b).reshape(ncell) for b in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1))]
            for cm in cms:
                live = {(i, j) for i, j in sg.cells if not nm[i:i + 2, j:j + 2].any() and not (cm is not None and cm[i, j])}
                for which in ("both", "lon", "lat"):  # the coordinate that is missing
                    key = "%s coords %s cm=%s %s" % (sg.name, "".join("01"[b] for b in bits), None if cm is None else cm.ravel().tolist(), which)

                    def body():
                        mlon = np.ma.array(np.where(nm, 1e20, lon), mask=nm) if which != "lat" else lon.copy()
                        mlat = np.ma.array(np.where(nm, 1e20, lat), mask=nm) if which != "lon" else lat.copy()
                        g = Grid_S(node_lon=mlon, node_lat=mlat, center_mask=None if cm is None else cm.astype(bool))
                        judge(ctx, sg, qs, located(g), live)
                        for m in (g.node_lon, g.node_lat)[which == "lat":1 + (which != "lon")]:
                            expect((np.ma.getmaskarray(m) == nm).all(), "the node coordinates' mask was changed")

                    ctx.case(key, body)
                    ctx.state(key)


# -- query histories --------------------------------------------------------
OPS = ["build T", "build F"] + ["q%s %s %s" % (p, u, m) for p in "AB" for u in "-TF" for m in ("memo", "plain")] + ["s A", "sm A", "i A", "near"]


def hist_units(tier):
    return [[o, tier] for o in OPS]


def run_hist(ctx, unit):
    from gridded.grids import Grid_S

    first, tier = unit
    depth = 4 if tier == "thorough" else 3
    sg = S.grid("warp", "fx", 3, 3)
    lon, lat = sg.arrays("west")
    cm = np.array([[True, False], [False, True]])
    live = {(0, 1), (1, 0)}
    Q = {"A": [sg.image(c, *S.LM_IN[0]) for c in sg.cells], "B": [sg.image(c, *S.LM_IN[1]) for c in sg.cells[::-1]] + [(Fr(99), Fr(99))]}
    P = {k: np.array(M.place(v, "west")) for k, v in Q.items()}

    def apply(g, mode, op):
        """returns the new mode ('T', 'F' or None: no tree yet)"""
        w = op.split()
        if w[0] == "build":
            g.build_celltree(use_mask=w[1] == "T")
            return w[1]
        if w[0] == "near":
            r = np.asarray(g.locate_nearest(lon_lat, "node"))
            expect(r.tolist() == [[i, j] for i in range(3) for j in range(3)], "the nearest nodes to the nodes: %s", r.tolist())
            return mode
        name = w[1] if w[0] in ("s", "sm", "i") else w[0][1]
        kw = {}
        if w[0] not in ("s", "sm", "i"):
            if w[1] != "-":
                kw["use_mask"] = w[1] == "T"
                mode = w[1]
            if w[2] == "memo":
                kw["_memo"] = True
        mode = mode or "T"
        alive = live if mode == "T" else None
        if w[0] in ("s", "sm"):
            for q, p in zip(Q[name], P[name]):
                r = g.locate_faces(p, _memo=True) if w[0] == "sm" else g.locate_faces(p)
                expect(np.shape(r) == (2,), "one point gave an answer of shape %s", np.shape(r))
                judge(ctx, sg, [q], cells_of(np.ma.reshape(np.ma.asarray(r), (1, 2)), 1), alive, "alone located")
        elif w[0] == "i":
            judge(ctx, sg, Q[name], cells_of(g.index_of(P[name]), len(Q[name])), alive)
        else:
            judge(ctx, sg, Q[name], cells_of(g.locate_faces(P[name], **kw), len(Q[name])), alive)
        return mode

    lon_lat = np.column_stack((lon.ravel(), lat.ravel()))
    for rest in itertools.product(OPS, repeat=depth - 1):
        hist = (first,) + rest

        def body():
            g = Grid_S(node_lon=lon, node_lat=lat, center_mask=cm)
            mode = None
            for k, op in enumerate(hist):
                mode = apply(g, mode, op)
                ctx.step()
                ctx.state("h", mode, hist[:k + 1][-2:])

        ctx.case(" / ".join(hist), body)


SPACES = [
    Space("fine", fine.units, fine.run_s_locate, fine.BOUNDS),
    Space("quads", quad_units, run_quads, "every strictly convex quadrilateral on the 4x4 lattice in each of its 8 layouts on a "
          "2x2 node array x lattice and in-cell queries x coordinate frames; batch, repeated, single, index_of, nearest node"),
    Space("frames", frame_units, run_frames, "7 warps x 12 turns/mirrors/shears x 7 (thorough 10) shapes up to 6x5 nodes x 4 coordinate frames"),
    Space("masks", mask_units, run_masks, "every cell mask of 2x2 and 2x3 (thorough 3x3) cells x all 16 paddings of the mask array (and those shown by the centers) x ghost values x "
          "bool/int; every node mask of 3x3 nodes; every set of nodes without coordinates, alone and with cell masks; use_mask on/off"),
    Space("histories", hist_units, run_hist, "every sequence of 3 (thorough 4) operations out of 18: explicit tree builds with/without mask, "
          "memoised and plain queries of two point sets with use_mask default/on/off, single-point queries, index_of, nearest"),
    Space("corners", lambda tier: units_corner(tier, "S"), run_corner, "points within 2^-8 to 2^-40 of every corner, one by one and together, twice, remembered and not"),
    Space("sizes", Z.units_curvilinear, Z.run_locate_s, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) of rows or columns of cells x 4 masks x memo"),
]
ASSUMPTIONS = ["cells are convex and interior-disjoint", "a point on the outer boundary may be located in a touching cell or outside"]
