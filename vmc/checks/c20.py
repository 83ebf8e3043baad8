"""C20 -- masks mean what their metadata say.

All forms of stating what the values of a mask mean, on masks holding every value
(stated, unstated, missing); and all masks of small grids read from files: a point
is located exactly in the cells that are not land.
"""
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from .. import sgrids as S
from ..core import Mismatch, Space, expect
from .c18 import blank, dims
from .c22 import Desc, NAMES, put, quiet

WET = ("water", "lake", "river")
MEANINGS = [
    ("land", "water"), ("water", "land"), ("Land", "Water"), ("LAND", "WATER"), ("land", "sea_water"), ("land", "lake", "water"), ("Lake", "rock", "land"),
    ("dry", "wet_land", "river"), ("land", "island", "ice"), ("water", "lake", "river"), ("land_point", "lake_point", "sea_Water_point", "beach"), ("land",), ("water",),
]
VALUES = [(0, 1, 2, 3), (1, 0, 2, 3), (2, 5, -1, 7), (1, 2, 4, 8)]
DTYPES = ("i1", "i2", "i4", "f4", "f8")


def wet(word):
    return any(w in word.lower() for w in WET)


def mask_values(values, n):
    vs = list(values[:n])
    vs += [v for v in (9, 0, 1, 6) if v not in vs]  # values whose meaning is not stated
    return vs


def states(values, n, form, dtype):
    vs = values[:n]
    return {
        "array": np.array(vs, dtype=dtype), "ints": np.array(vs, dtype="i4"), "floats": np.array(vs, dtype="f8"),
        "blanks": " ".join("%d" % v for v in vs), "decimal": "  ".join("%.1f" % v for v in vs), "commas": ", ".join("%d" % v for v in vs), "tight": ",".join("%d" % v for v in vs),
    }[form]


FORMS = ("array", "ints", "floats", "blanks", "decimal", "commas", "tight")
WORDS = {"string": " ".join, "list": list, "commas": ", ".join, "tight": ",".join, "blanks": "  ".join}


def run_meta(ctx, unit):
    from gridded.utilities import convert_mask_to_numpy_mask, gen_celltree_mask_from_center_mask

    words = MEANINGS[unit[0]]
    n = len(words)
    for values, dtype, form, wf, fill, packed in itertools.product(VALUES, DTYPES, FORMS, WORDS, ("default", 0, 99, "none"), (False, True)):
        if packed and (dtype[0] == "f" or form == "array"):
            continue
        if form == "decimal" and dtype[0] == "i" and not packed:
            continue  # decimals for integers
        if fill == 0 and packed:
            continue

        def one():
            nc = blank()
            try:
                vs = mask_values(values, n)
                cells = vs + ["missing"] * (fill != "none")
                dims(nc, y=2, x=len(cells))
                kw = {} if fill in ("default", "none") else {"fill_value": fill}
                v = nc.createVariable("mask", dtype, ("y", "x"), **kw)
                if packed:
                    v.scale_factor = 1.0
                    v.add_offset = 0.0
                rows = [cells, cells[::-1]]
                f = 0 if fill == "none" else None
                v[:] = np.ma.array([[0 if c == "missing" else c for c in r] for r in rows], mask=[[c == "missing" for c in r] for r in rows])
                v.flag_values = states(values, n, form, dtype)
                w = WORDS[wf](words)
                if isinstance(w, list) and len(w) > 0:
                    v.setncattr_string("flag_meanings", w) if len(w) > 1 else v.setncattr("flag_meanings", w[0])
                else:
                    v.flag_meanings = w
                def land(c):
                    if c == "missing" or fill == c:
                        return True
                    return not (c in values[:n] and wet(words[values.index(c)]))
                want = [[land(c) for c in r] for r in rows]
                ctx.step()
                got = convert_mask_to_numpy_mask(v)
                expect(got.dtype == bool and not np.ma.isMaskedArray(got) and got.tolist() == want, "land is %s, expected %s of %s", got.tolist(), want, rows)
                ctx.step()
                got = gen_celltree_mask_from_center_mask(v, np.s_[1:, 1:-1])
                expect(got.tolist() == [r[1:-1] for r in want[1:]], "trimmed, land is %s", got.tolist())
            finally:
                nc.close()

        ctx.case("%s are %s (%s, %s), %s%s, missing %s" % (values[:n], words, form, wf, dtype, " packed" if packed else "", fill), one)
        ctx.state("meta", words, values, dtype, form, wf, fill, packed)


def run_plain(ctx, unit):
    from gridded.utilities import convert_mask_to_numpy_mask

    for dtype, bits in itertools.product(("?", "i1", "u1", "i4", "f4", "f8"), itertools.product((0, 1), repeat=6)):
        a = np.array(bits).reshape(2, 3).astype(dtype)
        want = [[bool(x) for x in r] for r in a.tolist()]

        def one():
            for form in ("array", "masked", "partly", "variable", "fill", "option"):
                ctx.step()
                w = want
                if form == "array":
                    got = convert_mask_to_numpy_mask(a.copy())
                elif form == "masked":
                    got = convert_mask_to_numpy_mask(np.ma.array(a))
                elif form == "partly":
                    got = convert_mask_to_numpy_mask(np.ma.array(a, mask=[[0, 1, 0], [0, 0, 1]]))
                    w = [[want[0][0], True, want[0][2]], [want[1][0], want[1][1], True]]
                else:
                    if dtype == "?":
                        continue
                    nc = blank()
                    try:
                        dims(nc, y=2, x=3)
                        v = nc.createVariable("mask", dtype, ("y", "x"), **({"fill_value": 0} if form == "fill" else {}))
                        v[:] = a
                        if form == "fill":  # 0 says that there is no value
                            w = [[True] * 3] * 2
                        if form == "option":
                            v.option_0, v.option_1 = "land", "water"
                            w = [[not x for x in r] for r in want]
                        got = convert_mask_to_numpy_mask(v)
                    finally:
                        nc.close()
                expect(got.dtype == bool and not np.ma.isMaskedArray(got) and got.tolist() == w, "%s: masked %s, expected %s", form, got.tolist(), w)

        ctx.case("plain mask %s %s" % (dtype, bits), one)
        ctx.state("plain", dtype, bits)
    # other values than 0 and 1
    for dtype, bits, form in itertools.product(("i1", "u1", "i4", "f4", "f8"), itertools.product((0, 1, 2, .5, -1, "missing"), repeat=3), ("array", "variable", "option")):
        if dtype[0] in "iu" and (.5 in bits or dtype == "u1" and -1 in bits):
            continue

        def other():
            a = np.ma.array([0 if b == "missing" else b for b in bits], mask=[b == "missing" for b in bits], dtype=dtype)
            want = [b == "missing" or (b != 1 if form == "option" else b != 0) for b in bits]
            ctx.step()
            if form == "array":
                got = convert_mask_to_numpy_mask(a)
            else:
                nc = blank()
                try:
                    dims(nc, x=3)
                    v = nc.createVariable("mask", dtype, ("x",), fill_value=99)
                    v[:] = a
                    if form == "option":
                        v.option_0, v.option_1 = "land", "water"
                    got = convert_mask_to_numpy_mask(v)
                finally:
                    nc.close()
            expect(got.dtype == bool and not np.ma.isMaskedArray(got) and got.tolist() == want, "%s: masked %s, expected %s", bits, got.tolist(), want)

        ctx.case("other values %s %s %s" % (form, dtype, bits), other)
        ctx.state("other", dtype, bits, form)


def units_grid(tier):
    return [[w, p, q] for w in ("face", "node") for p in S.PAD for q in S.PAD if w == "face" or p == q == "none"]


LM = [(Fr(1, 4), Fr(5, 8)), (Fr(3, 4), Fr(1, 8))]


def run_grid(ctx, unit):
    from gridded.grids import Grid, Grid_S
    from gridded.pysgrid.sgrid import load_grid

    where, py, px = unit
    deep = os.environ.get("VMC_TIER") == "thorough"
    for (m, n), order, style in itertools.product([(3, 3), (2, 4)], ("yx", "xy"), range(4)):
        sg = S.grid("warp", "e", m, n)
        d = Desc(sg, order, (py, px), None, None, None, ("face",), "attribute", (), True)
        sh = d.shape(where)
        cells = sg.cells
        slots = [(i, j) for i in range(sh[0]) for j in range(sh[1])]
        off = S.offset(d.face)
        live_slots = slots if where == "node" else [(c[0] + off[0], c[1] + off[1]) for c in cells]
        for k, land in enumerate(itertools.product((0, 1), repeat=len(live_slots))):
            if where == "node" and not deep and k % 4 != style and sum(land) > 2:
                continue
            if all(land):
                continue
            for rim in (0, 1) if where == "face" and (py, px) != ("none", "none") else (0,):
                def one():
                    is_land = {s: rim for s in slots}
                    is_land.update(zip(live_slots, land))
                    a = np.array([[is_land[i, j] for j in range(sh[1])] for i in range(sh[0])])
                    # the styles: land is 0, 2, 1 by metadata, or 1 without any
                    code = {0: (0, 1), 1: (2, 7), 2: (1, 0), 3: (1, 0)}[style]
                    vals = np.where(a == 1, code[0], code[1])
                    nc = blank()
                    try:
                        put(nc, d, fields=False)
                        v = nc.createVariable("mask_" + where, ("f8", "i1", "i4", "i1")[style], d.vdims(where))
                        if style == 0:
                            v.flag_values, v.flag_meanings = np.array([0., 1.]), "land water"
                        elif style == 1:
                            v.flag_values, v.flag_meanings = np.array([7, 2], dtype="i1"), "Lake Land"
                        elif style == 2:
                            v.flag_values, v.flag_meanings = "1 0", "land, water"
                        v[:] = d.of(vals)
                        if where == "node":
                            live = {c for c in cells if not any(is_land[p] for p in ((c[0], c[1]), (c[0], c[1] + 1), (c[0] + 1, c[1]), (c[0] + 1, c[1] + 1)))}
                        else:
                            live = {c for c, l in zip(cells, land) if not l}
                        if not live:
                            return
                        pts = [(c, tuple(map(float, sg.image(c, l, mm)))) for c in cells for l, mm in LM]
                        P = np.array([p for _, p in pts])
                        for f in (load_grid, lambda nc: Grid.from_netCDF(dataset=nc)):
                            ctx.step()
                            g = quiet(f, nc)
                            got = np.ma.filled(g.locate_faces(P), -1).tolist()
                            want = [list(c if order == "yx" else c[::-1]) if c in live else [-1, -1] for c, _ in pts]
                            expect(got == want, "located in %s, expected %s", got, want)
                    finally:
                        nc.close()

                ctx.case("%s %s, faces padded %s, land %s, rim %d, style %d" % (sg.name, order, d.face, land, rim, style), one)
                ctx.state("grid", where, py, px, m, n, order, style, land, rim)


SPACES = [
    Space("metadata", lambda tier: [[i] for i in range(len(MEANINGS))], run_meta, "13 sets of meanings x 4 sets of values x 5 number types x 7 forms of the values x 5 of the words x 4 ways to be missing x packed or not; stated, unstated and missing elements"),
    Space("plain", lambda tier: [0], run_plain, "all 2x3 masks of 6 types as arrays, masked arrays, file variables without metadata and with options"),
    Space("grids", units_grid, run_grid, "all land of 4 cells and of 9 or 8 nodes (quick: a quarter) x 16 paddings x 2 orders x 4 metadata styles, in SGRID files"),
]
ASSUMPTIONS = ["words that contain water, lake or river mean water, all others land", "values without a stated meaning and missing values are land", "without metadata, non-zero means masked"]
