"""C19 -- verdat files: boundary ordering and round trip.

All small sets of boundary segments in all orders and directions; all meshes of a
block of cells (with islands and separate parts), saved, parsed independently,
loaded and compared; all forms of hand-written files.
"""
import itertools
import os
import shutil
import tempfile

import numpy as np

from ..core import Mismatch, Space, expect, raises


# --- ordering --------------------------------------------------------------------------
def degrees(edges):
    d = {}
    for e in edges:
        for p in e:
            d[p] = d.get(p, 0) + 1
    return d


def components(edges):
    """The parts of a graph of degree <= 2: (closed?, set of edges)."""
    left = [frozenset(e) for e in edges]
    out = []
    while left:
        part, nodes = {left[0]}, set(left.pop(0))
        grown = True
        while grown:
            grown = False
            for e in list(left):
                if e & nodes:
                    part.add(e)
                    nodes |= e
                    left.remove(e)
                    grown = True
        out.append((len(part) == len(nodes), frozenset(part)))
    return sorted(out, key=lambda c: (c[0], sorted(map(sorted, c[1]))))


def walk_edges(walk, closed):
    n = len(walk)
    return [frozenset((walk[i], walk[(i + 1) % n])) for i in range(n if closed else n - 1)]


def check_order(ctx, segs):
    from gridded.io.verdat import order_boundary_segments

    arr = np.array(segs, dtype=np.int32).reshape(-1, 2)
    keep = arr.copy()
    ctx.step()
    closed, opened = order_boundary_segments(arr)
    expect((arr == keep).all(), "the segments were changed to %s", arr.tolist())
    used = sorted(sorted(e) for w, c in [(w, True) for w in closed] + [(w, False) for w in opened] for e in walk_edges(w, c))
    expect(used == sorted(sorted(s) for s in segs), "closed %s and open %s do not use each segment once", closed, opened)
    if max(degrees(segs).values()) <= 2:
        got = sorted([(c, frozenset(walk_edges(w, c))) for ws, c in ((closed, True), (opened, False)) for w in ws], key=lambda c: (c[0], sorted(map(sorted, c[1]))))
        expect(got == components(segs), "closed %s and open %s, expected the parts %s", closed, opened, components(segs))


def graphs(n, k, maxdeg):
    E = list(itertools.combinations(range(n), 2))
    for es in itertools.combinations(E, k):
        if max(degrees(es).values()) <= maxdeg:
            yield es


def units_order(tier):
    deep = tier == "thorough"
    u = [[n, k, maxdeg, "all"] for n, k, maxdeg in ((4, 1, 9), (4, 2, 9), (4, 3, 9), (4, 4, 9), (5, 3, 9), (5, 4, 2))]
    u += [[5, 4, 9, "few"], [5, 5, 9, "few"], [6, 5, 2, "few"], [6, 6, 2, "few"]]
    return [x + [p] for x in u + ([[5, 5, 2, "all"], [5, 6, 9, "few"], [6, 6, 9, "few"], [7, 7, 2, "few"]] if deep else [[5, 5, 2, "half"]]) for p in range(8)]


def run_order(ctx, unit):
    n, k, maxdeg, how, part = unit
    for g, es in enumerate(graphs(n, k, maxdeg)):
        if g % 8 != part:
            continue

        def one():
            if how == "few":  # every rotation of three orders, every pattern of period <= 3 of directions
                perms = [b[i:] + b[:i] for b in (es, es[::-1], es[::2] + es[1::2]) for i in range(k)]
                flips = [[(p >> (i % 3)) & 1 for i in range(k)] for p in range(8)]
            else:
                perms = list(itertools.permutations(es))
                flips = list(itertools.product((0, 1), repeat=k))
                if how == "half":
                    perms = perms[::2]
            for p in perms:
                for f in flips:
                    segs = [e[::-1] if x else e for e, x in zip(p, f)]
                    try:
                        check_order(ctx, segs)
                    except Mismatch as m:
                        raise Mismatch("segments %s: %s" % (segs, m))

        ctx.case("segments %s in %s orders and directions" % (es, how), one)
        ctx.state("order", n, es, how)


# --- round trip -------------------------------------------------------------------------
def block_mesh(cells, w, number, split):
    """Mesh of some cells of a block; `number` renumbers the nodes, unused ones stay as points."""
    h = w
    pts = [(x, y) for y in range(h + 1) for x in range(w + 1)]
    N = len(pts)
    new = [(number * k + 3) % N if number > 1 else k for k in range(N)]
    assert sorted(new) == list(range(N))
    faces = []
    for c in cells:
        x, y = c % w, c // w
        a, b, d, e = (y * (w + 1) + x, y * (w + 1) + x + 1, (y + 1) * (w + 1) + x + 1, (y + 1) * (w + 1) + x)
        if split == 2 or split == 3 and c == cells[0]:
            faces.append((a, b, d, e))
            continue
        faces += [(a, b, d), (a, d, e)] if (x + y + split) % 2 else [(a, b, e), (b, d, e)]
    nodes = [None] * N
    for k, p in enumerate(pts):
        nodes[new[k]] = p
    return nodes, [tuple(new[v] for v in f) for f in faces]


def rim(faces):
    n = {}
    for f in faces:
        for i in range(len(f)):
            e = frozenset((f[i], f[(i + 1) % len(f)]))
            n[e] = n.get(e, 0) + 1
    return sorted(tuple(sorted(e)) for e, k in n.items() if k == 1)


def table(faces):
    w = max(map(len, faces))
    a = np.array([list(f) + [-1] * (w - len(f)) for f in faces], dtype=np.int32)
    return a if (a >= 0).all() else np.ma.masked_equal(a, -1)


UNITS = [("meters", "METERS"), ("m", "METERS"), ("metre", "METERS"), ("METER", "METERS"), (" feet ", "FEET"), ("ft", "FEET"), ("Foot", "FEET"), ("", ""), (None, "")]


def coords(nodes):
    return [(-70.5 + .25 * x + .015625 * y + 1e-6 * x, 41 + .125 * y - 3e-6 * x) for x, y in nodes]


def depth_of(nodes):
    return [round(10 * x + 3.125 * y - 7.5, 3) for x, y in nodes]


def near(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def check_round(ctx, tmp, nodes, faces, bounds, units, depth, k):
    """`bounds`: the loops the file must have, as segments; None: as found from the faces."""
    import gridded
    from gridded.grids import Grid_U
    from gridded.io import load_verdat, save_verdat
    from gridded.variable import Variable

    xy = coords(nodes)
    z = depth_of(nodes)
    g = Grid_U(nodes=np.array(xy), faces=None if faces is None else table(faces), boundaries=None if bounds is None else np.array(bounds, dtype=np.int32).reshape(-1, 2))
    v = Variable(name="z", units=units, data=np.array(z), grid=g, location="node")
    ds = gridded.Dataset(grid=g, variables={depth or "depth": v})
    path = os.path.join(tmp, "a.verdat")
    ctx.step()
    if depth == "depth":
        save_verdat(ds, path)
    else:
        save_verdat(ds, path, depth_var=depth)
    expect(g.nodes.tolist() == [list(p) for p in xy] and lst(v.data) == z and v.units == units, "saving changed the dataset")
    want = [tuple(sorted(s)) for s in (bounds if bounds is not None else rim(faces))]
    want_loops = [c[1] for c in components(want) if c[0]] if want else []
    want_segs = sorted(tuple(sorted(e)) for l in want_loops for e in l)
    if depth is None:
        z = [1.0] * len(z)
    head = dict(UNITS)[units] if depth is not None else ""
    # read it without gridded
    lines = open(path).read().split("\n")
    expect(lines[0].split() == ["DOGS"] + head.split(), "header %r", lines[0])
    rows = []
    for i, line in enumerate(lines[1:]):
        r = [float(x) for x in line.split(",")]
        expect(len(r) == 4, "line %r", line)
        if r == [0, 0, 0, 0]:
            break
        rows.append(r)
    rest = [int(x) for x in lines[i + 2:] if x.strip()]
    expect([r[0] for r in rows] == list(range(1, len(nodes) + 1)), "points are numbered %s", [int(r[0]) for r in rows])
    expect(rest and rest[0] == len(want_loops) == len(rest) - 1, "%d loops, the file has %s", len(want_loops), rest)
    # which node each row is
    ids = []
    for r in rows:
        m = [j for j, p in enumerate(xy) if near(p, r[1:3], 6e-7)]
        expect(len(m) == 1, "point %s is %s", r, m)
        ids.append(m[0])
        expect(abs(z[m[0]] - r[3]) <= 5.1e-4, "depth of node %d is %s, expected %s", m[0], r[3], z[m[0]])
    expect(sorted(ids) == list(range(len(nodes))), "the file has the nodes %s", ids)
    segs, start = [], 0
    for end in rest[1:]:
        loop = ids[start:end]
        segs += [tuple(sorted((loop[i - 1], loop[i]))) for i in range(len(loop))]
        start = end
    expect(sorted(segs) == want_segs, "boundaries %s, expected %s", sorted(segs), want_segs)
    # and with it
    ctx.step()
    back = load_verdat(path)
    check_loaded(back, [r[1:3] for r in rows], [r[3] for r in rows], rest[1:], head.lower())
    # saved once more, the file is the same one
    path2 = os.path.join(tmp, "b.verdat")
    ctx.step()
    save_verdat(back, path2)
    again = load_verdat(path2)
    order = [min(range(len(rows)), key=lambda j: abs(rows[j][1] - p[0]) + abs(rows[j][2] - p[1])) for p in again.grid.nodes.tolist()]
    expect(sorted(order) == list(range(len(rows))), "saved again, the nodes are %s", order)
    expect(near([z[ids[j]] for j in order], lst(again["depth"].data), 1.1e-3), "saved again, the depths are %s", lst(again["depth"].data))
    b = [] if again.grid.boundaries is None else again.grid.boundaries.tolist()
    expect(sorted(tuple(sorted(ids[order[p]] for p in s)) for s in b) == want_segs, "saved again, the boundaries are %s", b)
    expect(again["depth"].units == head.lower(), "saved again, units %r", again["depth"].units)


def lst(a):
    return np.asarray(a).tolist()


def check_loaded(ds, pts, depths, ends, units):
    expect(lst(ds.grid.nodes) == [list(p) for p in pts], "nodes %s, expected %s", lst(ds.grid.nodes), pts)
    v = ds["depth"]
    expect(lst(v.data) == depths and v.location == "node" and v.units == units, "depths %s on %s in %r, expected %s in %r", lst(v.data), v.location, v.units, depths, units)
    want, start = [], 0
    for end in ends:
        want += [[i, i + 1] for i in range(start, end - 1)] + [[end - 1, start]]
        start = end
    got = [] if ds.grid.boundaries is None else lst(ds.grid.boundaries)
    expect(got == want, "boundaries %s, expected %s", got, want)


def units_round(tier):
    return [[p] for p in range(16)]


def run_round(ctx, unit):
    deep = os.environ.get("VMC_TIER") == "thorough"
    tmp = tempfile.mkdtemp(prefix="vmc-c19-")
    try:
        k = -1
        for w in (1, 2, 3):
            for r in range(1, w * w + 1):
                for cells in itertools.combinations(range(w * w), r):
                    nodes0, faces0 = block_mesh(cells, w, 1, 0)
                    if max(degrees(rim(faces0)).values()) > 2:
                        continue  # parts that touch at a point: not representable
                    k += 1
                    if k % 16 != unit[0]:
                        continue
                    for number, split in itertools.product((1, 5, 7, 3) if w != 2 else (1, 5, 7, 2), range(4) if deep else (k % 2, 2 + k % 2)):
                        nodes, faces = block_mesh(cells, w, number, split)
                        segs = rim(faces)
                        forms = {
                            "none": (faces, None), "sorted": (faces, segs), "reversed": (faces, [s[::-1] for s in segs[::-1]]),
                            "mixed": (faces, [s[::-1] if i % 2 else s for i, s in enumerate(segs[::2] + segs[1::2])]), "alone": (None, segs[::2] + segs[1::2][::-1]),
                            "open": (faces, segs[1:]),
                        }
                        for f, (name, (fc, b)) in enumerate(forms.items()):
                            for u, (units, _) in enumerate(UNITS):
                                if not deep and (k + f + number) % len(UNITS) != u:
                                    continue
                                for depth in ("depth", None) if (k + u) % 5 == 0 else (("depth",) if (k + u) % 2 else ("bottom",)):
                                    ctx.case(
                                        "cells %s of %dx%d numbered %d split %d, boundaries %s, units %r, depth %s" % (cells, w, w, number, split, name, units, depth),
                                        lambda: check_round(ctx, tmp, nodes, fc, b, units, depth, k),
                                    )
                                    ctx.state("round", w, cells, number, split, name, units, depth)
                                    ctx.outcome(len(segs), len(nodes), name, units)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --- reading ---------------------------------------------------------------------------
def run_read(ctx, unit):
    from pathlib import Path

    from gridded.io import load_verdat

    tmp = tempfile.mkdtemp(prefix="vmc-c19-")
    try:
        path = os.path.join(tmp, "h.verdat")
        for n, head, form, eol, tail in itertools.product(range(3, 9), ("DOGS METERS", "DOGS", "DOGS FEET", "dogs meters", "DOGS  feet  "), ("{:4d}, {:10.6f}, {:10.6f}, {:8.3f}", "{},{},{},{}", "  {}.0 , {} , {} , {} "), ("\n", "\r\n"), ("", "\n", "  \n")):
            # all ways to cut the first points into loops of at least 3
            cuts = [c for k in range(0, 3) for c in itertools.product(range(3, n + 1), repeat=k) if sum(c) <= n]
            for c in cuts:
                ends = list(np.cumsum(c)) if c else []
                for nob in (False, True) if not ends else (False,):
                    def one():
                        pts = [[-3 + j * .25, j * j * .125] for j in range(n)]
                        z = [float(5 - j) for j in range(n)]  # one of them is zero, as some coordinates are
                        out = [head] + [form.format(j + 1, pts[j][0], pts[j][1], z[j]) for j in range(n)] + [form.format(0, 0.0, 0.0, 0.0)]
                        out += [] if nob else [str(len(ends))] + ["%4d" % e for e in ends]
                        with open(path, "w", newline="") as f:
                            f.write(eol.join(out) + eol + tail)
                        ctx.step()
                        for p in (path, Path(path)):
                            check_loaded(load_verdat(p), pts, z, ends, (head.split() + [""])[1].lower())

                    ctx.case("%d points, loops %s%s, header %r, lines %r, end %r %r" % (n, c, " unstated" if nob else "", head, form, eol, tail), one)
                    ctx.state("read", n, c, nob, head, form, eol, tail)
        bad = os.path.join(tmp, "bad.verdat")
        for text in ("DOGS METERS\n1, 0, 0, 1\n0, 0, 0, 0\nx\n", "DOGS METERS\n1, 0, 0\n0, 0, 0, 0\n0\n", "DOGS METERS\n1, 0, 0, 1\n2, 1, 0, 1\n3, 0, 1, 1\n0, 0, 0, 0\n1\n"):
            def two():
                open(bad, "w").write(text)
                ctx.step()
                expect(raises(ValueError, load_verdat, bad), "not refused")

            ctx.case("ill-formed %r" % text, two)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SPACES = [
    Space("ordering", units_order, run_order, "all sets of <= 4 segments of 4 nodes, 3 (degree <= 2: 5) of 5 in all orders and directions (5: half); all of 4 and 5 of 5 nodes, and <= 6 of 6 with degree <= 2, in 3k orders x 8 directions"),
    Space("round trip", units_round, run_round, "all sets of cells of 1x1, 2x2 and 3x3 blocks without touching corners x 4 numberings x triangles, quadrilaterals or both x 6 forms of boundaries x units and depth names in turn (thorough: all)"),
    Space("reading", lambda tier: [0], run_read, "3 to 8 points x all divisions into at most 2 loops x 5 headers x 3 line forms x 2 line ends x 3 endings; ill-formed files"),
]
ASSUMPTIONS = ["open boundaries are not representable in a verdat file: their points are written as field points", "loops that touch in a point are not representable"]
