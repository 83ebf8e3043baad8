"""Grids, axes and batches as long as the thresholds where narrow integers end.

Positions on an integer lattice, so that every expected index and value is exact.
"""
import numpy as np

from .core import expect

QUICK = [126, 127, 128, 129, 254, 255, 256, 257, 258]
LONG = [32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537]


def lengths(tier, long_too=True):
    return QUICK + ((LONG if tier == "thorough" else [32769, 65537]) if long_too else [])


def near_thresholds(n):
    """The cells looked at one by one: all of a short axis, those around the thresholds of a long one."""
    if n <= 600:
        return np.arange(n)
    s = {0, 1, 2, n // 3, n - 2, n - 1}
    for t in (127, 128, 255, 256, 32767, 32768, 65535, 65536):
        s |= {t + d for d in range(-3, 4)}
    return np.array(sorted(k for k in s if 0 <= k < n))


def close(ctx, got, want, what, tol=1e-9):
    got = np.ma.filled(np.ma.asarray(got, dtype=float), np.nan).reshape(-1)
    want = np.asarray(want, dtype=float).reshape(-1)
    expect(got.shape == want.shape, "%s: %d answers for %d points", what, len(got), len(want))
    ctx.step(len(want))
    bad = np.nonzero(~(np.abs(got - want) <= tol * np.maximum(1, np.abs(want))))[0]
    expect(not len(bad), "%s: point %s of %s: %s, not %s", what, bad[:1], len(want), got[bad[:1]], want[bad[:1]])


# --- curvilinear --------------------------------------------------------------
def curvilinear(n, across, other=2):
    """node_lon, node_lat of other x n cells (or n x other); cell (j, i) is the unit square at (i, j)."""
    r, c = (other, n) if across else (n, other)
    lon, lat = np.meshgrid(np.arange(c + 1.0), np.arange(r + 1.0))
    k = near_thresholds(n)
    o = np.arange(other)
    a, b = [x.ravel() for x in np.meshgrid(o, k, indexing="ij")]
    j, i = (a, b) if across else (b, a)
    return lon, lat, j, i


def units_curvilinear(tier):
    return [[n, across, other] for n in lengths(tier) for across in (True, False) for other in ((1, 2) if n < 600 else (2,))]


def run_locate_s(ctx, unit):
    from gridded.grids import Grid_S

    n, across, other = unit
    lon, lat, j, i = curvilinear(n, across, other)
    pts = np.column_stack((i + 0.25, j + 0.5))
    off = np.array([(-1.0, 0.5), (0.5, -1.0), (n + 1.5, n + 1.5)])
    for mask in ("none", "empty", "every third", "all but the last"):
        kw = {}
        dead = np.zeros((lon.shape[0] - 1, lon.shape[1] - 1), dtype=bool)
        if mask == "every third":
            dead.ravel()[::3] = True
        elif mask == "all but the last":
            dead[:] = True
            dead[-1, -1] = False
        if mask != "none":
            kw["center_mask"] = dead.copy()

        def body():
            g = Grid_S(node_lon=lon, node_lat=lat, **kw)
            for memo in (False, True, True):
                got = np.ma.filled(g.locate_faces(np.concatenate((pts, off)), _memo=memo), -1)
                want = np.column_stack((j, i))
                want[dead[j, i]] = -1
                close(ctx, got, np.concatenate((want, np.full((3, 2), -1))), "cells with mask %s" % mask)

        ctx.case("%d x %d cells mask %s" % (lon.shape[0] - 1, lon.shape[1] - 1, mask), body)
        ctx.state(unit, mask)
        ctx.outcome(unit, mask)


def run_values_s(ctx, unit):
    from gridded.grids import Grid_S

    n, across, other = unit
    lon, lat, j, i = curvilinear(n, across, other)
    pts = np.column_stack((i + 0.25, j + 0.5))
    R, C = lon.shape[0] - 1, lon.shape[1] - 1
    num = lambda r, c: np.arange(float(r * c)).reshape(r, c)
    D = {
        "node": (3 * lon + 7 * lat, 3 * (i + 0.25) + 7 * (j + 0.5)),
        "center": (num(R, C), num(R, C)[j, i]),
        # edge1 lies across x: its neighbours in x (C + 1 of them); edge2 likewise in y
        "edge1": (num(R, C + 1), num(R, C + 1)[j, i] + 0.25),
        "edge2": (num(R + 1, C), num(R + 1, C)[j, i] + 0.5 * C),
    }
    g = Grid_S(node_lon=lon, node_lat=lat)
    for loc, (data, want) in D.items():
        for lead in (False, True):
            def body():
                a = np.stack((data * 0 - 5, data)) if lead else data
                got = g.interpolate_var_to_points(pts, a, location=loc, **({"slices": (1,)} if lead else {}))
                close(ctx, got, want, loc)
                for k in range(0, len(pts), max(1, len(pts) // 7)):
                    close(ctx, g.interpolate_var_to_points(pts[k:k + 1], a, location=loc, **({"slices": (1,)} if lead else {})), want[k:k + 1], loc + " alone")

            ctx.case("%d x %d cells %s%s" % (R, C, loc, " sliced" if lead else ""), body)
            ctx.state(unit, loc, lead)

    def nearest():
        near = np.column_stack((i + 0.25, j + 0.125))
        for k in [slice(None)] + [slice(k, k + 1) for k in range(0, len(near), max(1, len(near) // 7))]:
            close(ctx, g.nearest_var_to_points(near[k], num(R + 1, C + 1), grid="node"), num(R + 1, C + 1)[j, i][k], "nearest node")

    ctx.case("%d x %d cells nearest" % (R, C), nearest)
    ctx.outcome(unit)


# --- unstructured -------------------------------------------------------------
def units_strip(tier):
    return [[n, shape] for n in lengths(tier) for shape in (("triangles", "mixed") if n < 600 else ("triangles",))]


def strip(n, shape):
    """A strip of n faces: triangles, or by turns a square and two triangles."""
    nodes, faces, pts = [(0.0, 0.0), (0.0, 1.0)], [], []
    x = 0
    while len(faces) < n:
        a, b, c, d = 2 * x, 2 * x + 2, 2 * x + 3, 2 * x + 1
        nodes += [(x + 1.0, 0.0), (x + 1.0, 1.0)]
        if shape == "mixed" and x % 2 == 0:
            faces.append((a, b, c, d))
            pts.append((x + 0.25, 0.5))
        else:
            faces.append((a, b, d))
            pts.append((x + 0.25, 0.25))
            if len(faces) < n:
                faces.append((b, c, d))
                pts.append((x + 0.75, 0.5))
        x += 1
    k = near_thresholds(n)
    if shape == "mixed":
        f = np.ma.masked_all((n, 4), dtype=np.int32)
        for r, face in enumerate(faces):
            f[r, :len(face)] = face
    else:
        f = np.array(faces, dtype=np.int32)
    return np.array(nodes), f, faces, k, np.array(pts)[k]


def run_locate_u(ctx, unit):
    from gridded.grids import Grid_U

    n, shape = unit
    nodes, f, faces, k, pts = strip(n, shape)

    def body():
        g = Grid_U(nodes=nodes, faces=f)
        off = np.array([(-1.0, 0.5), (n + 1.0, 0.5), (0.5, 2.0)])
        for _ in range(2):
            close(ctx, g.locate_faces(np.concatenate((pts, off))), np.concatenate((k, [-1] * 3)), "faces")
            close(ctx, g.locate_nodes(nodes[[0, -1, 2 * (len(nodes) // 4)]] + [0.125, 0]), [0, len(nodes) - 1, 2 * (len(nodes) // 4)], "nearest nodes")
            close(ctx, g.locate_nodes(nodes[::max(1, len(nodes) // 500)] * 1), np.arange(len(nodes))[::max(1, len(nodes) // 500)], "nodes")

    ctx.case("%d faces %s" % (n, shape), body)
    ctx.state(unit)
    ctx.outcome(unit)


def run_values_u(ctx, unit):
    from gridded.grids import Grid_U

    n, shape = unit
    nodes, f, faces, k, pts = strip(n, shape)
    g = Grid_U(nodes=nodes, faces=f)

    def face_data():
        for dt in (float, np.int32, np.float32):
            close(ctx, g.interpolate_var_to_points(pts, np.arange(n).astype(dt), location="face"), k, "face data %s" % dt)

    def node_data():
        close(ctx, g.interpolate_var_to_points(pts, 3 * nodes[:, 0] + 7 * nodes[:, 1], location="node"), 3 * pts[:, 0] + 7 * pts[:, 1], "node data")

    ctx.case("%d faces %s face data" % (n, shape), face_data)
    if shape == "triangles":
        ctx.case("%d faces %s node data" % (n, shape), node_data)
    ctx.state(unit)
    ctx.outcome(unit)


def run_topology(ctx, unit):
    """Edges, neighbours and boundaries of a strip of n faces."""
    from gridded.grids import Grid_U

    n, shape = unit
    nodes, f, faces, k, pts = strip(n, shape)

    def sides(face):
        return [tuple(sorted((face[q], face[(q + 1) % len(face)]))) for q in range(len(face))]

    owner = {}
    for r, face in enumerate(faces):
        for e in sides(face):
            owner.setdefault(e, []).append(r)

    def edges():
        g = Grid_U(nodes=nodes, faces=f.copy())
        g.build_edges()
        got = [tuple(sorted(e)) for e in np.asarray(g.edges).tolist()]
        expect(len(got) == len(owner) and set(got) == set(owner), "edges of %d faces: %d, not %d", n, len(got), len(owner))
        ctx.step(len(got))
        if shape == "triangles":
            g.build_face_edge_connectivity()
            fe = np.asarray(g.face_edge_connectivity)
            for r in k.tolist():
                expect([got[q] for q in fe[r]] == sides(faces[r]), "edges of face %s: %s", r, [got[q] for q in fe[r]])
        g.build_edge_coordinates()
        want = np.array([np.add(nodes[a], nodes[b]) / 2 for a, b in got])
        close(ctx, np.asarray(g.edge_coordinates), want, "edge coordinates")

    def neighbours():
        g = Grid_U(nodes=nodes, faces=f.copy())
        g.build_face_face_connectivity()
        ff = np.ma.filled(g.face_face_connectivity, -1)
        for r in k.tolist():
            want = sorted(o for e in sides(faces[r]) for o in owner[e] if o != r)
            expect(sorted(x for x in ff[r].tolist() if x >= 0) == want, "neighbours of face %s: %s, not %s", r, ff[r].tolist(), want)
            ctx.step()
        g.build_boundaries()
        got = sorted(tuple(sorted(b)) for b in np.asarray(g.boundaries).tolist())
        expect(got == sorted(e for e, o in owner.items() if len(o) == 1), "boundaries of %d faces", n)

    ctx.case("%d faces %s edges" % (n, shape), edges)
    if shape == "triangles":
        ctx.case("%d faces %s neighbours" % (n, shape), neighbours)
    ctx.state(unit)
    ctx.outcome(unit)


# --- rectangular ---------------------------------------------------------------
def units_axes(tier):
    return [[n, across, down] for n in lengths(tier) for across in (True, False) for down in (False, True)]


def run_rect(ctx, unit):
    from gridded.grids import Grid_R

    n, across, down = unit
    long, short = np.arange(n + 1.0), np.arange(3.0)
    lon, lat = (long, short) if across else (short, long)
    k = near_thresholds(n)
    x, y = (k + 0.25, 0 * k + 1.5) if across else (0 * k + 1.5, k + 0.25)
    pts = np.column_stack((x, y))
    i, j = (k, 0 * k + 1) if across else (0 * k + 1, k)
    if down:
        lon, lat = lon[::-1], lat[::-1]
        i, j = len(lon) - 2 - i, len(lat) - 2 - j

    def locate():
        g = Grid_R(node_lon=lon, node_lat=lat)
        close(ctx, g.locate_faces(pts), np.column_stack((i, j)), "cells")
        close(ctx, g.locate_faces(np.array([(-1.0, 0.5), (0.5, n + 1.5)])), [-1] * 4, "outside")

    def values():
        g = Grid_R(node_lon=lon, node_lat=lat)
        a = 3 * lon[None, :] + 7 * lat[:, None]
        close(ctx, g.interpolate_var_to_points(pts, a), 3 * x + 7 * y, "values")
        close(ctx, g.interpolate_var_to_points(pts, np.stack((-a, a)), slices=(1,)), 3 * x + 7 * y, "values of a slice")

    ctx.case("%d %s %s locate" % (n, "columns" if across else "rows", "down" if down else "up"), locate)
    ctx.case("%d %s %s values" % (n, "columns" if across else "rows", "down" if down else "up"), values)
    ctx.state(unit)
    ctx.outcome(unit)


# --- axes -------------------------------------------------------------------------
def units_axis(tier):
    return lengths(tier)


def run_time(ctx, n):
    import datetime as dt

    from gridded.time import Time

    t0 = dt.datetime(2020, 1, 1)
    hour = dt.timedelta(hours=1)
    t = Time([t0 + k * hour for k in range(n)])

    def body():
        for k in near_thresholds(n).tolist():
            expect(int(t.index_of(t0 + k * hour)) == k, "index of entry %d: %s", k, t.index_of(t0 + k * hour))
            if k:
                q = t0 + k * hour - hour / 4
                expect(int(t.index_of(q)) == k, "index of the instant before entry %d: %s", k, t.index_of(q))
                a = float(t.interp_alpha(q))
                expect(abs(a - 0.75) < 1e-9, "weight before entry %d: %s", k, a)
            ctx.step()

    ctx.case("%d times" % n, body)
    ctx.state(n)
    ctx.outcome(n)


def run_levels(ctx, n):
    from gridded.depth import L_Depth

    k = near_thresholds(n - 1)
    pts = np.column_stack((0.0 * k, 0.0 * k, 2.0 * k + 0.5))

    def down():
        i, a = L_Depth(terms={"depth_levels": np.arange(n) * 2.0}).interpolation_alphas(pts, None, (n,))
        close(ctx, i, k, "levels")
        close(ctx, a, 0 * k + 0.25, "weights")

    def up():
        i, a = L_Depth(terms={"depth_levels": np.arange(n)[::-1] * 2.0}).interpolation_alphas(pts, None, (n,))
        close(ctx, i, n - 2 - k, "levels")
        close(ctx, a, 0 * k + 0.75, "weights")

    ctx.case("%d levels from the surface" % n, down)
    ctx.case("%d levels from the bottom" % n, up)
    ctx.state(n)
    ctx.outcome(n)
