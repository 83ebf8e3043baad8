"""C08 -- unstructured grids: which face contains a point."""
import itertools

import numpy as np

from .. import meshes as M
from .. import fine
from .. import sizes as Z
from .c15 import run_corner, units_corner
from ..core import Space, expect


def families(tier):
    yield from M.single_triangles()
    yield from M.triangle_pairs(4 if tier == "thorough" else 1)
    for perm in (None, (8, 7, 6, 5, 4, 3, 2, 1, 0), (4, 0, 7, 2, 8, 1, 5, 3, 6)):
        for warp in (None, (1, 0), (-1, 1)):
            yield from M.diagonal_meshes(perm, warp)
    for warp in (None, (1, 0), (1, -1)):
        yield from M.flexible_meshes(warp)
    yield from (m for k, m in enumerate(M.polygon_meshes()) if tier == "thorough" or not k % 5)



def run(ctx, unit):
    from gridded.grids import Grid_U

    tier, k, n = unit
    for idx, mesh in enumerate(itertools.islice(families(tier), k, None, n)):
        flexible = len({len(f) for f in mesh.faces}) > 1
        frames = ["unit", "west"] if mesh.name.startswith(("tri", "pair")) and tier != "thorough" else list(M.FRAMES)
        qs = M.queries(mesh, 1, 4 if mesh.name.startswith(("tri", "pair")) else 2)
        ref = [mesh.where(q) for q in qs]
        rough = [mesh.name.startswith("poly") and r[0] is None and bool(r[1]) and M.on_rough_edge(mesh, q) for q, r in zip(qs, ref)]
        outer = [r[0] is None and bool(r[1]) and mesh.on_outer_boundary(q) for q, r in zip(qs, ref)]
        for frame in frames:
            kinds = ("plain", "masked") if flexible else ("plain",)
            for kind in kinds:
                nodes = np.array(M.place(mesh.nodes, frame))
                pts = M.place(qs, frame)
                grid = ctx.case("%s %s %s build" % (mesh.name, frame, kind), lambda: Grid_U(nodes=nodes, faces=M.face_array(mesh, kind)))
                if grid is None:
                    continue

                def judge(got, method):
                    got = np.asarray(got)
                    expect(got.shape == (len(pts),), "%s: shape %s for %d points", method, got.shape, len(pts))
                    for q, g, (strict, touch), out, hair in zip(qs, got.tolist(), ref, outer, rough):
                        ctx.transitions += 1
                        if strict is not None:
                            expect(g == strict, "%s: (%s, %s) is inside face %s, located in %s", method, q[0], q[1], strict, g)
                        elif not touch:
                            expect(g == -1, "%s: (%s, %s) is outside the mesh, located in %s", method, q[0], q[1], g)
                        else:
                            expect(g in touch or ((out or hair and method != "simple") and g == -1), "%s: (%s, %s) lies on faces %s, located in %s", method, q[0], q[1], touch, g)
                    ctx.outcome(mesh.name, tuple(got.tolist()))

                def batch():
                    judge(grid.locate_faces(np.array(pts)), "celltree")

                def simple():
                    judge(grid.locate_faces(pts, method="simple"), "simple")

                def index_of():
                    judge(grid.index_of(pts), "index_of")

                def single():
                    for i in range(0, len(pts), max(1, len(pts) // 12)):
                        for rep in range(2):  # the second call may come from a memo
                            g = grid.locate_faces(pts[i])
                            expect(np.ndim(g) == 0, "one point gave an answer of shape %s (call %d)", np.shape(g), rep + 1)
                            s, t = ref[i]
                            ok = int(g) == s if s is not None else (int(g) == -1 if not t else int(g) in t or ((outer[i] or rough[i]) and int(g) == -1))
                            expect(ok, "single point %s located in %s (call %d)", qs[i], g, rep + 1)
                            ctx.step()

                def nodes_():
                    got = np.asarray(grid.locate_nodes(np.array(pts)))
                    sx, sy = M.FRAMES[frame][:2]
                    for q, g in zip(qs, got.tolist()):
                        d = [(sx * float(a[0] - q[0])) ** 2 + (sy * float(a[1] - q[1])) ** 2 for a in mesh.nodes]
                        expect(d[g] <= min(d) * (1 + 1e-9), "nearest node to (%s, %s): %s", q[0], q[1], g)
                        ctx.transitions += 1

                key = "%s %s %s " % (mesh.name, frame, kind)
                ctx.case(key + "celltree", batch)
                ctx.case(key + "celltree again", batch)
                ctx.case(key + "index_of", index_of)
                if not mesh.name.startswith("pair") or idx % 3 == 0 or tier == "thorough":
                    if frame in ("unit", "west"):
                        ctx.case(key + "simple", simple)
                    ctx.case(key + "single", single)
                ctx.case(key + "nodes", nodes_)
                ctx.state(mesh.name, frame, kind)


def units(tier):  # noqa: F811
    return [[tier, k, 96] for k in range(96)]


SPACES = [
    Space("fine", fine.units, fine.run_u_locate, fine.BOUNDS),
    Space("planar-meshes", units, run,
          "every lattice triangle in every vertex order; every pair of interior-disjoint triangles on the 3x3 lattice; every "
          "diagonal choice of a 2x2 cell mesh (ccw, cw, mixed, renumbered, warped); every quad/triangle mix of it (plain -1 and "
          "masked); every polygon of 5 to 8 sides on an octagon (quick: one in 5), alone or in a ring of quads or triangles; x lattice queries inside, outside and on edges, x coordinate frames"),
    Space("corners", lambda tier: units_corner(tier, "U"), run_corner, "points within 2^-8 to 2^-40 of every corner, one by one and together, twice, remembered and not"),
    Space("sizes", Z.units_strip, Z.run_locate_u, "lengths 126-129, 254-258, 32769, 65537 (thorough: all within 2 of the limits of 8 and 16 bit integers) of triangles or mixed faces"),
]
ASSUMPTIONS = ["faces are convex and interior-disjoint", "on an edge whose slope no double holds, the cell tree may leave a hairline in neither face", "a point on the outer boundary may be located in a touching face or outside"]
