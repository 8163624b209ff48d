import copy
import datetime as dt
import os

from pandalone import xleash
from pandalone.xleash.io.backend import ArraySheet

from pvm import wb, xl
from pvm.core import same

RULE = ("random sheets of mixed-type values x rects by edges/expansions, in memory and in xlsx files; expected values cut out of the source grid; "
        "histories of lassos on one sheet object with results and filter-seen values mutated in between, sheet snapshots compared; "
        "non-trivial = rect with at least 2 cells")
FLOORS = {"rect": 1500, "scalar": 500, "empty": 200, "file-rect": 300, "padded": 50, "mutated": 500, "numeric": 200, "beyond": 150}


def value(rng):
    return rng.choice([None, None, 0, 1, -5, 2.5, 0.0, True, False, "", "x", "None", "é", float("nan"), dt.datetime(2020, 1, 2, 3), dt.time(4, 5),
                       10 ** 20, "1", b"b"])


def rand_rows(rng, h, w):
    return [[value(rng) for _ in range(w)] for _ in range(h)]


def w_memory(rng, mon, i):
    h, w = rng.randint(1, 6), rng.randint(1, 6)
    rows = rand_rows(rng, h, w)
    full = xl.full_cells(rows)
    sheet = xl.mem_sheet(rows)
    before = copy.deepcopy(rows)
    for _ in range(rng.randint(2, 5)):
        st = xl.E(rng.choice([("abs", rng.randrange(h)), "^", "_"]), rng.choice([("abs", rng.randrange(w)), "^", "_"]), rng.choice([None, None] + xl.MOVES))
        nd = rng.choice([None, xl.E(".", "."), xl.E(".", ".", rng.choice(xl.MOVES)), xl.E(("abs", rng.randrange(h)), ("abs", rng.randrange(w)))])
        exp = rng.choice([None, None, "LURD", "R1", "D?"]) if nd else None
        ref = xl.ref_text(rng, st, nd, exp)
        mon.note("ref=", ref, "rows=", rows)
        seen = []

        def mutate(ranger, lasso):
            seen.append(copy.deepcopy(lasso.values))
            v = lasso.values
            if isinstance(v, list):
                for row in v:
                    if isinstance(row, list):
                        row.append("junk")
                        row[0] = object
                v.append("junk")
            return lasso

        filt = rng.random() < 0.3
        l = xl.lasso(ref + (':"mutate"' if filt else ""), sheet, filters={"mutate": {"func": mutate}})
        try:
            a, b = xl.m_capture(full, st, nd, exp)
            want = xl.m_values(before, a, b)
        except xl.Empty:
            want = []
        got = seen[0] if filt else l.values
        mon.eq(got, want, "values of %r" % ref)
        mon.ev("scalar" if not isinstance(want, list) else "rect" if want else "empty")
        if isinstance(want, list) and want:
            mon.key(ref, repr(before))
            if not filt:
                got[0][0] = "overwritten"
                del got[-1][:]
            mon.ev("mutated")
        arr = getattr(sheet, "_arr", None)  # the contents themselves, if still kept there
        if arr is not None:
            mon.eq(arr.tolist() if arr.size else [], before, "sheet after %r" % ref)


def w_cells(rng, mon, i):
    """Every single cell by every spelling, and the full sheet cell by cell."""
    h, w = rng.randint(1, 5), rng.randint(1, 5)
    rows = rand_rows(rng, h, w)
    sheet = xl.mem_sheet(rows)
    for r in range(h):
        for c in range(w):
            ref = "#" + rng.choice([xl.a1(r, c), xl.rc(r, c)])
            mon.note("ref=", ref, "rows=", rows)
            mon.eq(xl.lasso(ref, sheet).values, rows[r][c], "scalar %s" % ref)
            mon.eq(xl.lasso(ref + ":..", sheet).values, [[rows[r][c]]], "1x1 %s" % ref)
            mon.ev("scalar")
            mon.ev("rect")
    ref = "#A1:%s" % xl.a1(h - 1, w - 1)
    mon.eq(xl.lasso(ref, sheet).values, rows, "whole sheet")
    ref = "#%s:A1" % xl.a1(h - 1, w - 1)
    mon.eq(xl.lasso(ref, sheet).values, rows, "whole sheet reversed")
    mon.key("cells", repr(rows))


def w_numeric(rng, mon, i):
    """Homogeneous arrays, given as lists or numpy arrays, come back as plain python values."""
    import numpy as np

    h, w = rng.randint(1, 5), rng.randint(1, 5)
    kind = rng.choice(["int", "float", "bool", "str"])
    mk = {"int": lambda: rng.randrange(-9, 9), "float": lambda: rng.randrange(-9, 9) / 4, "bool": lambda: rng.random() < 0.5,
          "str": lambda: rng.choice(["a", "bb", ""])}[kind]
    rows = [[mk() for _ in range(w)] for _ in range(h)]
    src = rng.choice([lambda: copy.deepcopy(rows), lambda: np.array(rows)])()
    sheet = ArraySheet(src)
    r0, c0 = rng.randrange(h), rng.randrange(w)
    r1, c1 = rng.randint(r0, h - 1), rng.randint(c0, w - 1)
    ref = "#%s:%s" % (xl.a1(r0, c0), xl.a1(r1, c1))
    mon.note("ref=", ref, "rows=", rows)
    mon.eq(xl.lasso(ref, sheet).values, [row[c0:c1 + 1] for row in rows[r0:r1 + 1]], "values")
    mon.check(bool(xl.lasso("#" + xl.a1(r0, c0), sheet).values == rows[r0][c0]), "scalar")
    mon.eq(xl.lasso("#:", sheet).values, rows, "whole")
    mon.ev("numeric")
    mon.key("num", repr(rows), ref)


def w_beyond(rng, mon, i):
    """Rects stretching beyond in-memory sheets: cut at their ends, or padded by nulls."""
    h, w = rng.randint(1, 4), rng.randint(1, 4)
    rows = rand_rows(rng, h, w)
    if not xl.full_cells(rows):
        return
    sheet = xl.mem_sheet(rows)
    r0, c0 = rng.randrange(h + 2), rng.randrange(w + 2)
    r1, c1 = r0 + rng.randrange(h + 3), c0 + rng.randrange(w + 3)
    ref = "#%s:%s" % (xl.a1(r0, c0), xl.a1(r1, c1))
    mon.note("ref=", ref, "rows=", rows)
    got = xl.lasso(ref, sheet).values
    cut = [row[c0:c1 + 1] for row in rows[r0:r1 + 1]]
    padded = [[rows[r][c] if r < h and c < w else None for c in range(c0, c1 + 1)] for r in range(r0, r1 + 1)]
    mon.check(same(got, cut) or same(got, padded) or not any(cut) and not any(got), "values of %r: %r, expected %r or %r", ref, got, cut, padded)
    if r1 >= h or c1 >= w:
        mon.ev("beyond")
        mon.key("beyond", ref, repr(rows))


EMPTIES = ([], [[]], [[], []])


def w_empty(rng, mon, i):
    sheet = ArraySheet(rng.choice(EMPTIES))
    ref = rng.choice(["#:", "#A1", "#A1(RD):..(RD)", "#^^:__", "#B5:C7:LURD", "#_^(L)", "#R1C1:R-1C-1"])
    mon.note("empty sheet", ref)
    mon.eq(xl.lasso(ref, sheet).values, [], "values of the empty sheet")
    mon.ev("empty")
    h, w = rng.randint(1, 4), rng.randint(1, 4)
    blank = xl.mem_sheet([[None] * w for _ in range(h)])
    ref = "#%s%s%s" % (xl.a1(rng.randrange(h + 2), rng.randrange(w + 2)), "(%s)" % rng.choice(xl.MOVES), rng.choice(["", ":..", ":__", ":..:LURD"]))
    mon.eq(xl.lasso(ref, blank).values, [], "failed targeting %s" % ref)
    mon.ev("empty")
    mon.key("empty", ref, h, w)


def w_file(rng, mon, i):
    """File sheets: the rect is cut from the written grid, padded by None beyond it; histories on one open sheet."""
    h, w = rng.randint(1, 7), rng.randint(1, 6)
    cells, exp = {}, {}
    for r in range(h):
        for c in range(w):
            if rng.random() < 0.7:
                cells[r, c], exp[r, c] = wb.rand_cell(rng)
    blank = rng.random() < 0.05
    if blank:
        cells, exp = {}, {}
    path = wb.write(os.path.join(mon.tmp, "f%d.xlsx" % i), {"S": cells})
    full = {k for k, v in exp.items() if v is not None}
    with xleash.SheetsFactory() as sf:
        for _ in range(6):
            st = xl.E(("abs", rng.randrange(h + 1)), ("abs", rng.randrange(w + 1)), rng.choice([None, None] + xl.MOVES))
            nd = rng.choice([xl.E(("abs", rng.randrange(h + 3)), ("abs", rng.randrange(w + 3))), xl.E(".", ".", rng.choice(xl.MOVES)), xl.E("_", "_")])
            exps = rng.choice([None, "LURD"])
            core = xl.ref_text(rng, st, nd, exps)
            mon.note("file ref=", core, "cells=", cells)
            got = xleash.lasso(path + "#S!" + core[1:], sheets_factory=sf)
            if not full:
                mon.eq(got, [], "values of the empty sheet")
                mon.ev("empty")
                continue
            try:
                a, b = xl.m_capture(full, st, nd, exps)
            except xl.Empty:
                mon.eq(got, [], "values of empty capture")
                mon.ev("empty")
                continue
            want = [[exp.get((r, c)) for c in range(a[1], b[1] + 1)] for r in range(a[0], b[0] + 1)]
            mon.check(wb.close(got, want), "values of %r: got %r, expected %r", core, got, want)
            mon.ev("file-rect")
            up, dn = xl.margins(full)
            if b[0] > dn[0] or b[1] > dn[1]:
                mon.ev("padded")
            got[0][0] = "overwritten"
            mon.key("file", core, repr(cells))
            one = (rng.randrange(dn[0] + 1), rng.randrange(dn[1] + 1))
            got = xleash.lasso(path + "#S!" + xl.a1(*one), sheets_factory=sf)
            mon.check(wb.close(got, exp.get(one)), "scalar %s: got %r, expected %r", one, got, exp.get(one))
            mon.ev("scalar")
    os.remove(path)


WORKLOADS = [("memory", w_memory, 2500, 60000), ("beyond", w_beyond, 400, 6000), ("cells", w_cells, 400, 8000), ("numeric", w_numeric, 500, 10000),
             ("empty", w_empty, 300, 3000), ("file", w_file, 250, 5000)]
