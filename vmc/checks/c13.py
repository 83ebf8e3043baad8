"""C13 -- curvilinear grids: the interpolated value at a point."""
import itertools
import warnings
from fractions import Fraction as Fr

import numpy as np

from .. import meshes as M
from .. import sgrids as S
from .. import fine
from .. import sizes as Z
from .c15 import run_corner, units_corner
from ..core import Mismatch, Space, expect

OUT = "outside"
MASKED = "masked"


def shape_of(loc, sg, pad):
    base = {"node": (sg.M, sg.N), "center": (sg.M - 1, sg.N - 1), "edge1": (sg.M - 1, sg.N), "edge2": (sg.M, sg.N - 1)}[loc]
    return S.padded_shape(base, pad)


class Field:
    """Data at one location; get(i, j) is the value that belongs to the grid's
    own index (i, j), or None when masked."""

    def __init__(self, sg, loc, pad=(None, None), salt=0, mask=None):
        self.loc, self.pad = loc, pad
        self.data = S.values(shape_of(loc, sg, pad), salt)
        self.off = S.offset(pad)
        self.mask = mask

    def get(self, i, j):
        i, j = i + self.off[0], j + self.off[1]
        if self.mask is not None and self.mask[i, j]:
            return None
        return self.data[i, j]

    def array(self):
        if self.mask is None:
            return self.data
        return np.ma.array(np.where(self.mask, 1e20, self.data), mask=self.mask)


def pair_value(a, b, t, behaviour):
    if behaviour == "mask" and (a is None or b is None):
        return MASKED
    if behaviour == "mirror":
        if a is None and b is None:
            return "any"
        a, b = (-b if a is None else a), (-a if b is None else b)
    a, b = (0.0 if a is None else a), (0.0 if b is None else b)
    return a * (1 - float(t)) + b * float(t)


def expected(f, c, l, m, behaviour="zero", cut=frozenset()):
    """`cut`: sides of cell c that separate it from a masked cell."""
    i, j = c
    if f.loc == "center":
        v = f.get(i, j)
        return MASKED if v is None else v
    if f.loc == "edge1":
        a = None if "lo1" in cut else f.get(i, j)
        b = None if "hi1" in cut else f.get(i, j + 1)
        return pair_value(a, b, l, behaviour)
    if f.loc == "edge2":
        a = None if "lo0" in cut else f.get(i, j)
        b = None if "hi0" in cut else f.get(i + 1, j)
        return pair_value(a, b, m, behaviour)
    vals = [f.get(i, j), f.get(i, j + 1), f.get(i + 1, j + 1), f.get(i + 1, j)]
    if all(v is None for v in vals):
        return MASKED
    w = ((1 - l) * (1 - m), l * (1 - m), l * m, (1 - l) * m)
    return sum(float(wk) * v for wk, v in zip(w, vals) if v is not None)


def flat(got, n):
    expect(np.size(got) == n, "%d values (shape %s) for %d points", np.size(got), np.shape(got), n)
    return np.ma.getdata(got).reshape(-1).tolist(), np.ma.getmaskarray(got).reshape(-1).tolist()


def compare(ctx, got, wants, labels, unmask=None):
    """wants[k]: set of acceptable answers for point k."""
    vals, masks = flat(got, len(wants))
    if unmask is not None:
        expect(not any(masks), "unmasked result still has masked values")
    for v, mk, want, lab in zip(vals, masks, wants, labels):
        ctx.transitions += 1
        ok = False
        for w in want:
            if w == "any":
                ok = True
            elif w in (OUT, MASKED):
                ok |= mk if unmask is None else v == unmask
            else:
                ok |= (not mk) and abs(v - w) <= 1e-7 * max(1.0, abs(w))
        if not ok:
            raise Mismatch("at %s: got %s, expected %s" % (lab, "masked" if mk else v, sorted(map(str, want))))
    ctx.outcome(tuple(round(v, 6) if not m and v == v else None for v, m in zip(vals, masks)))


def images(sg):
    if not hasattr(sg, "_images"):
        sg._images = {}
        for c in sg.cells:
            for l, m in S.LM:
                sg._images.setdefault(sg.image(c, l, m), []).append((c, l, m))
    return sg._images


def sites(sg, f, lms, live=None, behaviour="zero", cuts=None):
    """(label, point, acceptable answers) for images of lms in every cell."""
    out = []
    at = None
    for c in sg.cells:
        for l, m in lms:
            q = sg.image(c, l, m)
            inside = 0 < l < 1 and 0 < m < 1
            if inside:
                if live is not None and c not in live:
                    want = {OUT}
                else:
                    want = {expected(f, c, l, m, behaviour, (cuts or {}).get(c, frozenset()))}
            else:
                # on an edge: the value seen from any (live) touching cell, or
                # outside at the rim of the grid
                if at is None:
                    at = images(sg)
                want = set()
                for c2, l2, m2 in at[q]:
                    if live is None or c2 in live:
                        want.add(expected(f, c2, l2, m2, behaviour, (cuts or {}).get(c2, frozenset())))
                i, j = c
                rim = (m == 0 and (i == 0 or (live is not None and (i - 1, j) not in live))) or (m == 1 and (i == sg.M - 2 or (live is not None and (i + 1, j) not in live)))
                rim |= (l == 0 and (j == 0 or (live is not None and (i, j - 1) not in live))) or (l == 1 and (j == sg.N - 2 or (live is not None and (i, j + 1) not in live)))
                if rim or live is not None:
                    want.add(OUT)
            out.append(("cell %s l=%s m=%s %s" % (c, l, m, f.loc), q, want))
    return out


def outside_sites(sg, f):
    xs = [p[0] for r in sg.nodes for p in r]
    ys = [p[1] for r in sg.nodes for p in r]
    return [("outside %s" % f.loc, q, {OUT}) for q in ((Fr(min(xs) - 3), Fr(min(ys))), (Fr(max(xs) + 1), Fr(max(ys) + 2)))]


def mk(sg, frame, **kw):
    from gridded.grids import Grid_S

    lon, lat = sg.arrays(frame)
    return Grid_S(node_lon=lon, node_lat=lat, **kw)


LOCS = ("node", "edge1", "edge2", "center")


def check(ctx, g, sg, frame, f, st, key, **kw):
    pts = np.array(M.place([s[1] for s in st], frame))

    def body():
        arr = f.array()
        keep_p, keep = pts.copy(), np.ma.copy(arr)
        got = g.interpolate_var_to_points(pts, arr, location=kw.get("loc", f.loc), **{k: v for k, v in kw.items() if k != "loc"})
        compare(ctx, got, [s[2] for s in st], [s[0] for s in st], kw.get("fill_value", 0) if kw.get("unmask") else None)
        expect((pts == keep_p).all(), "the caller's points were changed")
        expect(np.ma.getdata(arr).tolist() == np.ma.getdata(keep).tolist() and np.ma.getmaskarray(arr).tolist() == np.ma.getmaskarray(keep).tolist(), "the caller's data was changed")

    ctx.case(key, body)


def quad_units(tier):
    return [[tier, k, 96] for k in range(96)]


def run_quads(ctx, unit):
    tier, k, n = unit
    frames = ("unit",) if tier == "quick" else tuple(M.FRAMES)
    for sg in itertools.islice(S.labelled_quads(4), k, None, n):
        for frame in frames:
            g = mk(sg, frame)
            for loc in LOCS:
                f = Field(sg, loc)
                st = sites(sg, f, S.LM if loc != "center" else S.LM[6:9])
                if loc == "node":
                    st += outside_sites(sg, f)
                check(ctx, g, sg, frame, f, st, "%s %s %s" % (sg.name, frame, loc))
        ctx.state(sg.name)


SHAPES = [(2, 3), (3, 2), (3, 3), (3, 4), (5, 2)]


def frame_units(tier):
    shapes = SHAPES if tier == "quick" else SHAPES + [(4, 3), (2, 6), (4, 5)]
    return [[w, t, list(s), tier] for s in shapes for w in S.WARPS for t in S.TURNS]


def run_frames(ctx, unit):
    w, t, (a, b), tier = unit
    sg = S.grid(w, t, a, b)
    if not sg.valid():
        return
    for frame in ("unit", "west") if tier == "quick" else M.FRAMES:
        g = mk(sg, frame)
        for loc in LOCS:
            f = Field(sg, loc)
            st = sites(sg, f, S.LM_IN) + outside_sites(sg, f)
            if loc == "node" and frame == "unit":
                st += sites(sg, f, S.LM)
            key = "%s %s %s" % (sg.name, frame, loc)
            check(ctx, g, sg, frame, f, st, key)
            ctx.state(key)


# decimal coordinates: rounding puts points on an edge a hair outside [0, 1]
DEC = [(sx, sy, a, b) for sx, sy in ((0.1, 0.1), (-0.1, 0.1), (0.1, -0.1), (0.3, 0.07)) for a, b in
       ((0.0, 0.0), (0.013, 0.007), (0.013, -0.007), (-0.013, 0.007), (-0.013, -0.007), (1e-9, -1e-9), (0.0, 0.01), (1e-13, 2e-13))]


def dec_units(tier):
    return [[list(d), rot, tier] for d in DEC for rot in (0, 1, 2, 3, 4, 5)]


def run_dec(ctx, unit):
    (sx, sy, a, b), rot, tier = unit
    T = [(1, 0, 0, 1), (0, 1, 1, 0), (0.8, 0.6, -0.6, 0.8), (0.6, -0.8, 0.8, 0.6), (0, -1, 1, 0), (0.28, 0.96, 0.96, -0.28)][rot]
    Mr, Nc = (4, 4) if tier == "quick" else (5, 6)
    lon = np.zeros((Mr, Nc))
    lat = np.zeros((Mr, Nc))
    for i in range(Mr):
        for j in range(Nc):
            u = sx * j + a * i * j
            v = sy * i + b * i * j
            lon[i, j], lat[i, j] = -70 + T[0] * u + T[1] * v, 40 + T[2] * u + T[3] * v
    sg = S.SG("dec", [[(lon[i, j], lat[i, j]) for j in range(Nc)] for i in range(Mr)])
    from gridded.grids import Grid_S

    g = Grid_S(node_lon=lon, node_lat=lat)
    f = Field(sg, "node")
    steps = (0, 0.1, 0.3, 0.5, 0.7, 0.9, 1)
    st = []
    for c in sg.cells:
        for l in steps:
            for m in steps:
                want = {expected(f, c, l, m)}
                if l in (0, 1) or m in (0, 1):
                    want.add(OUT)
                st.append(("cell %s l=%s m=%s" % (c, l, m), sg.image(c, l, m), want))
    pts = np.array([s[1] for s in st])

    def body():
        got = g.interpolate_var_to_points(pts, f.data, location="node")
        vals, masks = flat(got, len(st))
        for v, mk_, s in zip(vals, masks, st):
            ctx.transitions += 1
            if mk_:  # rounding may put a point in a hairline gap between cells
                expect(OUT in s[2], "at %s: masked", s[0])
            else:
                w = [x for x in s[2] if x != OUT][0]
                expect(abs(v - w) <= 1e-6 * max(1.0, abs(w)), "at %s: got %s, expected %s", s[0], v, w)

    ctx.case("decimal %s rot %s" % ((sx, sy, a, b), rot), body)
    ctx.state(sx, sy, a, b, rot)


# -- padding ----------------------------------------------------------------
def pad_units(tier):
    return [[list(p), w, t] for p in itertools.product(S.PAD, repeat=2) for w, t in (("rect", "e"), ("warp", "d"))]


def run_pads(ctx, unit):
    pad, w, t = unit
    sg = S.grid(w, t, 3, 4)
    pad = tuple(pad)
    # derived edge padding, and every explicit one
    for e1 in (None,) + S.PAD:
        for e2 in (None,) + S.PAD:
            kw = {"face_padding": pad}
            if e1 is not None:
                kw["edge1_padding"] = (e1, None)
            if e2 is not None:
                kw["edge2_padding"] = (None, e2)
            g = mk(sg, "unit", **kw)
            fields = {
                "center": Field(sg, "center", pad),
                "edge1": Field(sg, "edge1", (pad[0] if e1 is None else e1, None)),
                "edge2": Field(sg, "edge2", (None, pad[1] if e2 is None else e2)),
                "node": Field(sg, "node"),
            }
            for loc in LOCS:
                f = fields[loc]
                st = sites(sg, f, S.LM_IN[:3]) + outside_sites(sg, f)
                key = "%s pad=%s e1=%s e2=%s %s" % (sg.name, pad, e1, e2, loc)
                check(ctx, g, sg, "unit", f, st, key)
                ctx.state(key)
    # padding not declared: what the shape of the centers shows
    if "high" not in pad:
        inner = [(a[:-1, :-1] + a[1:, 1:]) / 2 for a in sg.arrays("unit")]
        clon, clat = (np.pad(a, [S.EXTRA[p] for p in pad], mode="edge") for a in inner)
        for more in ({}, {"edge1_padding": ("both", None)}, {"edge2_padding": (None, "low")}):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = mk(sg, "unit", center_lon=clon, center_lat=clat, **more)
                for f in (Field(sg, "center", pad), Field(sg, "edge1", more.get("edge1_padding", (pad[0], None))), Field(sg, "edge2", more.get("edge2_padding", (None, pad[1]))), Field(sg, "node")):
                    key = "%s undeclared pad=%s %s %s" % (sg.name, pad, more, f.loc)
                    check(ctx, g, sg, "unit", f, sites(sg, f, S.LM_IN[:3]) + outside_sites(sg, f), key)
                    ctx.state(key)
    # an explicit padding argument overrides the grid's
    g = mk(sg, "unit")
    f = Field(sg, "center", pad)
    check(ctx, g, sg, "unit", f, sites(sg, f, S.LM_IN[:2]), "%s argument pad=%s" % (sg.name, pad), padding=pad)


# -- masks ------------------------------------------------------------------
def mask_units(tier):
    out = []
    for b in ("zero", "mask", "mirror"):
        for loc in LOCS:
            if loc == "node" and b != "zero":
                continue
            out.append(["data", loc, b, tier])
    for pad in (("none", "none"), ("both", "both"), ("low", "high"), ("high", "low")):
        for ghost in (False, True):
            for loc in LOCS:
                out.append(["cells", loc, list(pad), ghost])
    return out


def run_masks(ctx, unit):
    if unit[0] == "data":
        _, loc, b, tier = unit
        sg = S.grid("warp", "fx", 3, 3)
        g = mk(sg, "unit", masked_interpolant_behavior=b)
        shp = shape_of(loc, sg, (None, None))
        for bits in itertools.product((False, True), repeat=shp[0] * shp[1]):
            f = Field(sg, loc, mask=np.array(bits).reshape(shp))
            for variant in ("plain", "unmask", "fill"):
                if variant != "plain" and sum(bits) not in (1, 2, len(bits)):
                    continue
                st = sites(sg, f, S.LM_IN[:2], behaviour=b) + outside_sites(sg, f)
                kw = {} if variant == "plain" else {"unmask": True} if variant == "unmask" else {"unmask": True, "fill_value": -77.0}
                key = "data %s %s %s %s" % (loc, b, "".join("01"[x] for x in bits), variant)
                check(ctx, g, sg, "unit", f, st, key, **kw)
            ctx.state(key)
        if True:
            f = Field(sg, loc)
            st = outside_sites(sg, f)
            check(ctx, g, sg, "unit", f, st, "data %s %s all outside" % (loc, b))
            check(ctx, g, sg, "unit", f, st, "data %s %s all outside, unmasked" % (loc, b), unmask=True, fill_value=5.0)
            check(ctx, g, sg, "unit", f, st[:1], "data %s %s one outside" % (loc, b))
        return
    _, loc, pad, ghost = unit
    pad = tuple(pad)
    sg = S.grid("warp2", "e", 3, 4)
    off = S.offset(pad)
    for bits in itertools.product((False, True), repeat=6):
        cm = np.array(bits).reshape(2, 3)
        full = np.full(S.padded_shape((2, 3), pad), ghost)
        full[off[0]:off[0] + 2, off[1]:off[1] + 3] = cm
        live = {c for c in sg.cells if not cm[c]}
        cuts = {}
        for c in live:
            s = set()
            for name, (di, dj) in (("lo0", (-1, 0)), ("hi0", (1, 0)), ("lo1", (0, -1)), ("hi1", (0, 1))):
                i, j = c[0] + off[0] + di, c[1] + off[1] + dj
                if 0 <= i < full.shape[0] and 0 <= j < full.shape[1] and full[i, j]:
                    s.add(name)
            cuts[c] = frozenset(s)
        fpad = {"node": (None, None), "center": pad, "edge1": (pad[0], None), "edge2": (None, pad[1])}[loc]
        f = Field(sg, loc, fpad)
        g = mk(sg, "unit", center_mask=full, face_padding=pad)
        st = sites(sg, f, S.LM_IN[:3], live=live, cuts=cuts) + outside_sites(sg, f)
        key = "cells %s %s pad=%s ghost=%s" % (loc, "".join("01"[x] for x in bits), pad, ghost)
        check(ctx, g, sg, "unit", f, st, key)
        ctx.state(key)


# -- call forms and histories -----------------------------------------------
def form_units(tier):
    return [[loc, tier] for loc in LOCS]


NAMES = {
    "node": ("node", "nodes", "psi", "vertex", "vertices", "point", "points"),
    "center": ("center", "centers", "face", "faces", "cell", "cells"),
    "edge1": ("edge1", "u"),
    "edge2": ("edge2", "v"),
}


def run_forms(ctx, unit):
    loc, tier = unit
    sg = S.grid("warp", "r", 3, 4)
    f = Field(sg, loc)
    st = sites(sg, f, S.LM_IN[:2]) + outside_sites(sg, f)
    pts = np.array(M.place([s[1] for s in st], "unit"))
    wants, labels = [s[2] for s in st], [s[0] for s in st]
    for name in NAMES[loc]:
        check(ctx, mk(sg, "unit"), sg, "unit", f, st, "%s called %s" % (loc, name), loc=name)
    for dt in ("f8", "f4", "i4", "i2", ">f8"):
        def body():
            got = mk(sg, "unit").interpolate_var_to_points(pts, f.data.astype(dt), location=loc)
            compare(ctx, got, wants, labels)
        ctx.case("%s dtype %s" % (loc, dt), body)
    for lead in ((), (2,), (2, 3)):
        for sl in itertools.product(*[range(n) for n in lead]):
            def body():
                big = np.full(lead + f.data.shape, 4444.0)
                big[sl] = f.data
                got = mk(sg, "unit").interpolate_var_to_points(pts, big, location=loc, slices=sl)
                compare(ctx, got, wants, labels)
            ctx.case("%s slices %s of %s" % (loc, sl, lead), body)

    def toomany():
        try:
            mk(sg, "unit").interpolate_var_to_points(pts, np.zeros((2,) + f.data.shape), location=loc)
        except ValueError:
            return
        raise Mismatch("a 3-D variable without slices was accepted")

    ctx.case("%s too many dimensions" % loc, toomany)
    for form in ("masked", "plain"):
        def body():
            g = mk(sg, "unit")
            ind = g.locate_faces(pts)
            inside = ~np.ma.getmaskarray(ind)[:, 0]
            if form == "plain":
                got = g.interpolate_var_to_points(pts[inside], f.data, location=loc, indices=np.asarray(ind)[inside])
                compare(ctx, got, [w for w, k in zip(wants, inside) if k], [w for w, k in zip(labels, inside) if k])
            else:
                got = g.interpolate_var_to_points(pts, f.data, location=loc, indices=ind)
                compare(ctx, got, wants, labels)
                compare(ctx, g.interpolate_var_to_points(pts, f.data, location=loc, indices=ind), wants, labels)
        ctx.case("%s indices %s" % (loc, form), body)
    # point order, subsets, repetitions, shapes
    n = len(st)
    for name, sel in [("reversed", list(range(n))[::-1]), ("twice", [k for k in range(n) for _ in (0, 1)])] + [("one %d" % k, [k]) for k in range(n)] + [
            ("pair %d" % k, [k, n - 1]) for k in range(n)]:
        def body():
            got = mk(sg, "unit").interpolate_var_to_points(pts[sel], f.data, location=loc)
            compare(ctx, got, [wants[k] for k in sel], [labels[k] for k in sel])
        ctx.case("%s points %s" % (loc, name), body)
    for form in ("fortran", "strided", "readonly", "1d"):
        def body():
            p = np.asfortranarray(pts) if form == "fortran" else np.repeat(pts, 2, axis=0)[::2] if form == "strided" else pts.copy()
            w, lb = wants, labels
            if form == "readonly":
                p.setflags(write=False)
            if form == "1d":
                p, w, lb = pts[0], wants[:1], labels[:1]
            compare(ctx, mk(sg, "unit").interpolate_var_to_points(p, f.data, location=loc), w, lb)
        ctx.case("%s layout %s" % (loc, form), body)
    # order of loading: location inferred from the shape
    if loc in ("node", "center"):
        def body():
            kw = {}
            if loc == "center":
                lon, lat = sg.arrays("unit")
                kw = {"center_lon": (lon[:-1, :-1] + lon[1:, 1:]) / 2, "center_lat": (lat[:-1, :-1] + lat[1:, 1:]) / 2}
            compare(ctx, mk(sg, "unit", **kw).interpolate_var_to_points(pts, f.data), wants, labels)
        ctx.case("%s inferred" % loc, body)
    # nearest
    def near():
        g = mk(sg, "unit")
        lon, lat = sg.arrays("unit")
        got = g.nearest_var_to_points(np.column_stack((lon.ravel(), lat.ravel())), Field(sg, "node").data, grid="node")
        vals, masks = flat(got, lon.size)
        expect(not any(masks) and vals == Field(sg, "node").data.ravel().tolist(), "nearest values at the nodes: %s", vals)
    if loc == "node":
        ctx.case("nearest", near)


HOPS = [(loc, p, m) for loc in LOCS for p in "AB" for m in (False, True)] + [("center_m", "A", True), ("node_m", "B", True)]


def hist_units(tier):
    return [[list(o), tier] for o in HOPS]


def run_hist(ctx, unit):
    first, tier = unit
    depth = 4 if tier == "thorough" else 3
    sg = S.grid("warp", "fy", 3, 3)
    rng = np.array([[1, 0, 0], [0, 0, 1], [0, 1, 0]], bool)
    F = {loc: Field(sg, loc) for loc in LOCS}
    F["center_m"] = Field(sg, "center", salt=5, mask=rng[:2, :2])
    F["node_m"] = Field(sg, "node", salt=5, mask=rng)
    tab = {}
    for name, f in F.items():
        A = sites(sg, f, S.LM_IN[:1]) + outside_sites(sg, f)[:1]
        B = (sites(sg, f, S.LM_IN[1:2]) + sites(sg, f, S.LM_IN[2:3]))[::-1]
        for p, st in (("A", A), ("B", B)):
            tab[name, p] = (np.array(M.place([s[1] for s in st], "unit")), [s[2] for s in st], [s[0] for s in st])
    for rest in itertools.product(HOPS, repeat=depth - 1):
        hist = [tuple(first)] + list(rest)
        if len(rest) == 3 and rest[0][2] is False and rest[1][2] is False:
            continue  # no memo involved before the last step: same state as a shorter history

        def body():
            g = mk(sg, "unit")
            for name, p, memo in hist:
                pts, wants, labels = tab[name, p]
                got = g.interpolate_var_to_points(pts, F[name].array(), location=F[name].loc, **({"_memo": True} if memo else {}))
                compare(ctx, got, wants, labels)
                ctx.step()
            ctx.state(tuple(hist[-2:]))

        ctx.case(" / ".join("%s %s %s" % h for h in hist), body)


NEAR_PAD = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


def near_units(tier):
    ns = [(2, 2), (2, 4), (3, 2), (4, 3)] if tier != "thorough" else list(itertools.product((2, 3, 4, 5), repeat=2))
    return [[list(n), list(d)] for n in ns for d in NEAR_PAD]


def run_near(ctx, unit):
    """The value at the nearest position of a kind, on its own array of positions."""
    from gridded.pysgrid.sgrid import SGrid

    (r, c), (dr, dc) = unit
    h, w = r + dr, c + dc
    if h < 1 or w < 1:
        return

    def lattice(rows, cols, turn, off):
        x, y = np.meshgrid(np.arange(cols) * 4.0 + off, np.arange(rows) * 3.0 - off)
        x, y = x + y / 4, y  # sheared, still with a single nearest position for the queries used
        return ((x, y), (-x, y), (y, x), (x[::-1], y[::-1]))[turn]

    for turn in range(4):
        node = lattice(r, c, turn, 0.0)
        kinds = {k: lattice(h, w, turn, o) for k, o in (("edge1", 2.0), ("edge2", -1.0), ("center", 1.5))}
        kinds["node"] = node
        g = ctx.case("build %s %d" % (unit, turn), lambda: SGrid(node_lon=node[0], node_lat=node[1], **{"%s_%s" % (k, n): v for k, xy in kinds.items() if k != "node" for n, v in zip(("lon", "lat"), xy)}))
        if g is None:
            continue
        for loc, (lon, lat) in kinds.items():
            pos = np.column_stack((lon.ravel(), lat.ravel()))
            data = np.arange(float(lon.size)).reshape(lon.shape) * 3 + 7
            pts, want = [], []
            for dx, dy in itertools.product((-5.0, -0.875, 0.0, 1.125), (-0.75, 0.0, 0.625, 9.0)):
                q = pos + (dx, dy)
                for k in range(len(q)):
                    d = ((pos - q[k]) ** 2).sum(axis=1)
                    o = np.argsort(d)
                    if len(d) > 1 and d[o[1]] - d[o[0]] < 1e-6:
                        continue  # two are as near
                    pts.append(q[k])
                    want.append(data.ravel()[o[0]])
            pts, want = np.array(pts), np.array(want)
            ctx.state(unit, turn, loc)

            def same(got, sel, what):
                got = np.ma.filled(np.ma.asarray(got, dtype=float), np.nan)
                ctx.step(got.size)
                expect(got.size == len(want[sel]), "%s: %d values for %d points", what, got.size, len(want[sel]))
                bad = np.nonzero(got.ravel() != want[sel])[0]
                expect(not len(bad), "%s: nearest %s value at %s is %s, not %s", what, loc, pts[sel][bad[:1]], got.ravel()[bad[:1]], want[sel][bad[:1]])

            def batch():
                every = np.arange(len(pts))
                same(g.nearest_var_to_points(pts, data, grid=loc), every, "all")
                same(g.nearest_var_to_points(pts, data.astype(int), grid=loc), every, "integers")
                same(g.nearest_var_to_points(pts, np.ma.array(data), grid=loc), every, "masked array")
                same(g.nearest_var_to_points(pts, np.stack((data - 1, data)), grid=loc, slices=(1,)), every, "sliced")
                same(g.nearest_var_to_points(pts, np.stack((data[None], data[None] * 2)), grid=loc, slices=(0, 0)), every, "sliced twice")
                same(g.nearest_var_to_points(pts[::-1], data, grid=loc), every[::-1], "reversed")

            def alone():
                for k in range(len(pts)):
                    same(g.nearest_var_to_points(pts[k:k + 1], data, grid=loc), [k], "alone")
                    j = (k * 7 + 3) % len(pts)
                    same(g.nearest_var_to_points(pts[[k, j]], data, grid=loc), [k, j], "two")

            ctx.case("%s %s %d batch" % (loc, unit, turn), batch)
            ctx.case("%s %s %d alone" % (loc, unit, turn), alone)
            ctx.outcome(loc, h, w)


SPACES = [
    Space("fine", fine.units, fine.run_s_values, fine.BOUNDS),
    Space("quads", quad_units, run_quads, "every strictly convex quadrilateral on the 4x4 lattice in each of its 8 layouts x 25 in-cell positions (corners, "
          "edges, interior) x node/edge1/edge2/center data"),
    Space("frames", frame_units, run_frames, "7 warps x 12 turns/mirrors x 5 (thorough 8) shapes x 2 (4) coordinate frames x 4 data locations"),
    Space("decimal", dec_units, run_dec, "32 decimal (inexact) cell shapes x 6 turns x 7x7 positions per cell, including cell edges and corners"),
    Space("padding", pad_units, run_pads, "all 16 face paddings (and those that the shape of the centers shows) x all 25 derived/explicit edge paddings x 4 locations x 2 geometries; padding argument"),
    Space("masks", mask_units, run_masks, "every data mask at every location of a 3x3-node grid x zero/mask/mirror x unmask/fill; every cell mask of 2x3 cells "
          "x paddings x ghost values x 4 locations"),
    Space("forms", form_units, run_forms, "every location alias, dtype, leading-slice, index form, point order/repetition/subset and memory layout"),
    Space("histories", hist_units, run_hist, "every sequence of 3 (thorough 4) queries over 4 locations + masked data x 2 point sets x memo on/off"),
    Space("nearest", near_units, run_near, "4 (thorough 16) shapes x 9 shapes of the other positions x 4 turns x 4 kinds of position x every position moved in 16 ways, in batches, pairs and alone, whole or sliced; brute-force oracle"),
    Space("corners", lambda tier: units_corner(tier, "S"), run_corner, "points within 2^-8 to 2^-40 of every corner, one by one and together, twice, remembered and not"),
    Space("sizes", Z.units_curvilinear, Z.run_values_s, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) of rows or columns of cells x 4 locations, whole or sliced, in batches and alone"),
]
ASSUMPTIONS = ["cells are convex and interior-disjoint", "a point exactly on the rim of the grid may count as outside", "comparison tolerance 1e-7 relative"]
