from pandalone import xleash
from pandalone.xleash import coords2Cell, margin_coords_from_states_matrix

from pvm import wb, xl

RULE = ("sheets up to excel's limits; coordinates of every kind (absolute, negative, ^ _ .) in A1 and RC, per edge and axis, over random occupancies; an independent "
        "bijective base-26/margins model is the oracle; columns cover all 16384 of excel in thorough; non-trivial = distinct (edges, sheet)")
FLOORS = {"book": 40, "resolved": 2500, "roundtrip": 1600, "negative": 1500, "dot": 700, "no-base-error": 100, "before-start": 200, "no-cell": 80, "margins": 1400, "large": 54, "cells": 270, "cells-bad": 270}

EXCEL_COLS, EXCEL_ROWS = 16384, 1048576


def w_letters(rng, mon, i):
    """A1 letters <-> zero-based, in chunks of 32 columns; boundaries of each letter-carry always included in quick."""
    if mon.thorough:
        cols = range(i * 32, min(i * 32 + 32, EXCEL_COLS))
    else:
        edges = [0, 1, 25, 26, 27, 51, 52, 53, 675, 676, 701, 702, 703, 727, 728, 1377, 1378, 16383, 16382, 676 + 26, 26 * 26 * 2 + 25]
        cols = edges[:] if i == 0 else [rng.randrange(EXCEL_COLS) for _ in range(20)]
    sheet = xl.mem_sheet([[1]])
    for c in cols:
        row = rng.choice([0, 8, 9, 98, 99, rng.randrange(EXCEL_ROWS)])
        a1 = xl.a1(row, c)
        mon.note("cell", a1, "=", (row, c))
        cell = coords2Cell(row, c)
        mon.eq((cell.row, cell.col), (str(row + 1), xl.col_letters(c)), "coords2Cell(%s, %s)" % (row, c))
        for s in (a1, a1.lower(), xl.rc(row, c)):
            l = xl.lasso("#%s:.." % s, sheet)
            mon.ev("roundtrip")
            mon.eq((xl.coords_of(l.st), xl.coords_of(l.nd)), ((row, c), (row, c)), "cell lassoed by %s" % s)
        mon.key("col", c)


def rand_coord(rng, n, up, dn, dot):
    k = rng.random()
    if k < 0.4:
        return ("abs", rng.choice([rng.randrange(n), rng.randrange(n + 3)]))
    if k < 0.6:
        return ("neg", rng.randint(1, dn + 1) if rng.random() < 0.9 else dn + 1 + rng.randint(1, 2 * n))
    return rng.choice(["^", "_"] + (["."] if dot else []))


def w_edges(rng, mon, i):
    h, w = rng.randint(1, 7), rng.randint(1, 7)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    full = xl.full_cells(rows)
    up, dn = xl.margins(full)
    base = (rng.randrange(12), rng.randrange(12)) if rng.random() < 0.5 else None
    st = xl.E(rand_coord(rng, h, up[0], dn[0], rng.random() < 0.3), rand_coord(rng, w, up[1], dn[1], rng.random() < 0.3))
    nd = xl.E(rand_coord(rng, h, up[0], dn[0], True), rand_coord(rng, w, up[1], dn[1], True)) if rng.random() < 0.85 else None
    ref = xl.ref_text(rng, st, nd)
    mon.note("ref=", ref, "sheet=", xl.draw(rows), "base=", base)
    sheet = xl.mem_sheet(rows)
    if full and nd and rng.random() < 0.03:
        sheet = wb.book_sheet(rng, mon, rows)
        mon.ev("book")
    kw = dict(base_coords=xleash.Coords(*base)) if base else {}
    try:
        exp = xl.m_capture(full, st, nd, None, base)
        exp = exp if nd else (exp[0], None)
    except xl.ModelError as ex:
        if "before" in str(ex):
            mon.ev("before-start")
            try:
                l = xl.lasso(ref, sheet, **kw)
            except ValueError:
                return
            mon.check(l.st is None and l.nd is None and l.values == [], "%r on %s captured %r (%r:%r)", ref, xl.draw(rows), l.values, l.st, l.nd)
            return
        mon.raises(ValueError, xl.lasso, ref, sheet, **kw)
        mon.ev("no-base-error")
        return
    if nd is None and not all(0 <= x < n for x, n in zip(exp[0], (h, w))):
        mon.raises(Exception, xl.lasso, ref, sheet, **kw)  # no such cell
        mon.ev("no-cell")
        return
    l = xl.lasso(ref, sheet, **kw)
    mon.eq((xl.coords_of(l.st), l.nd and xl.coords_of(l.nd)), exp, "rect of %r on %s with base %s" % (ref, xl.draw(rows), base))
    mon.ev("resolved")
    specs = (st.row, st.col) + ((nd.row, nd.col) if nd else ())
    if any(x[0] == "neg" for x in specs):
        mon.ev("negative")
    if "." in specs:
        mon.ev("dot")
    mon.key(specs, xl.draw(rows), base)


def w_margins(rng, mon, i):
    h, w = rng.randint(1, 9), rng.randint(1, 9)
    mask = xl.rand_mask(rng, h, w) if rng.random() < 0.95 else [[False] * w for _ in range(h)]
    full = {(r, c) for r in range(h) for c in range(w) if mask[r][c]}
    import numpy as np

    mon.note("mask", mask)
    got = margin_coords_from_states_matrix(np.array(mask))
    mon.eq((xl.coords_of(got[0]), xl.coords_of(got[1])), xl.margins(full), "margins")
    rows = xl.fill(mask)
    sheet = xl.mem_sheet(rows)
    for r, c, nm in (("^", "^", "up"), ("_", "_", "dn"), ("^", "_", "ur"), ("_", "^", "dl")):
        l = xl.lasso(rng.choice(["#%s%s:.." % (c, r), "#R%sC%s:.." % (r, c)]), sheet)
        m = xl.margins(full)
        e = (m[0][0] if r == "^" else m[1][0], m[0][1] if c == "^" else m[1][1])
        mon.eq(xl.coords_of(l.st), e, "corner %s" % nm)
        mon.ev("margins")
    mon.key("margins", str(mask))


def w_succession(rng, mon, i):
    """The same ranger used for one sheet after another, most of them short-lived."""
    ranger = xleash.Ranger(xl.NoFactory()) if rng.random() < 0.7 else xleash.make_default_Ranger(xl.NoFactory())
    kept = []
    for _ in range(rng.randint(3, 14)):
        if kept and rng.random() < 0.3:
            rows, sheet = rng.choice(kept)
        else:
            mask = xl.rand_mask(rng, rng.randint(1, 6), rng.randint(1, 6))
            rows = xl.fill(mask)
            if not xl.full_cells(rows):
                rows[0][0] = 1
            sheet = xl.mem_sheet(rows)
            if rng.random() < 0.2:
                kept.append((rows, sheet))
        full = xl.full_cells(rows)
        up, dn = xl.margins(full)
        st = xl.E(*[rng.choice(["^", "_", ("neg", rng.randint(1, d - u + 1)), ("abs", rng.randint(u, d))]) for u, d in zip(up, dn)])
        ref = xl.ref_text(rng, st, None, None, None)
        exp = tuple(xl.m_coord(x, u, d, None) for x, u, d in zip((st.row, st.col), up, dn))
        mon.note("ref", ref, "on", xl.draw(rows))
        l = ranger.do_lasso(ref, sheet=sheet)
        mon.eq(xl.coords_of(l.st), exp, "cell of %r on %s" % (ref, xl.draw(rows)))
        mon.check(l.values == rows[exp[0]][exp[1]], "value of %r is %r", ref, l.values)
        mon.ev("succession")
        mon.key("succession", ref, xl.draw(rows))
        del sheet, l
        ranger.intermediate_lasso = None


def w_cells(rng, mon, i):
    """The public functions for cells: coords2Cell() is undone by resolve_capture_rect(), symbols pass through, impossible coordinates are refused."""
    import numpy as np

    mask = xl.rand_mask(rng, rng.randint(1, 6), rng.randint(1, 6))
    full = {(r, c) for r, line in enumerate(mask) for c, x in enumerate(line) if x}
    if not full:
        return
    sm = np.array(mask)
    margins = margin_coords_from_states_matrix(sm)
    up, dn = xl.margins(full)
    coords, exp = [], []
    for u, d in zip(up, dn):
        k = rng.choice(["n", "n", "^", "_", "."])
        v = rng.randrange(40) if k == "n" else k
        coords.append(v)
        exp.append({"n": v, "^": u, "_": d, ".": None}[k])
    base = (rng.randrange(30), rng.randrange(30))
    exp = tuple(b if e is None else e for b, e in zip(base, exp))
    cell = coords2Cell(*coords)
    mon.note("coords", coords, "cell", cell, "base", base)
    for v, got, text in zip(coords, (cell.row, cell.col), (lambda v: str(v + 1), xl.col_letters)):
        mon.eq(got, v if isinstance(v, str) else text(v), "coords2Cell(%s)" % (coords,))
    got = xleash.resolve_capture_rect(sm, margins, xleash.Edge(cell, None), base_coords=xleash.Coords(*base))
    mon.eq((xl.coords_of(got[0]), got[1]), (exp, None), "rect of %s" % (cell,))
    mon.ev("cells")
    row, col = rng.choice([("0", "A"), ("1", "0"), ("A", "A"), ("1", "$"), ("00", "B"), ("1.5", "B"), (0, "A"), ("", "A")])
    mon.raises(ValueError, xleash.resolve_capture_rect, sm, margins, xleash.Edge(xleash.Cell(row, col), None), base_coords=xleash.Coords(*base))
    mon.ev("cells-bad")
    mon.key("cells", coords, str(mask), base)


def w_large(rng, mon, i):
    """Sheets as tall or wide as excel allows keep their coordinates."""
    import numpy as np

    tall = rng.random() < 0.6
    n = rng.choice([300, 33000, 40000, 70000, EXCEL_ROWS]) if tall else rng.choice([300, 5000, EXCEL_COLS, 40000])
    k = rng.randint(1, 3)
    sm = np.zeros((n, k) if tall else (k, n), dtype=bool)
    full = {(rng.choice([rng.randrange(n), n - 1 - rng.randrange(min(n, 50))]), rng.randrange(k)) for _ in range(rng.randint(1, 4))}
    full = full if tall else {(c, r) for r, c in full}
    for r, c in full:
        sm[r, c] = True
    mon.note("shape", sm.shape, "full", sorted(full))
    got = margin_coords_from_states_matrix(sm)
    up, dn = xl.margins(full)
    mon.eq((xl.coords_of(got[0]), xl.coords_of(got[1])), (up, dn), "margins")

    class Sheet(xleash.ABCSheet):
        def _read_states_matrix(self):
            return sm

        def get_sheet_ids(self):
            return xleash.SheetId("wb", ["sh", 0])

        def open_sibling_sheet(self, sheet_id):
            raise NotImplementedError()

        def list_sheetnames(self):
            return ["sh"]

        def read_rect(self, st, nd):
            return [xl.coords_of(st), xl.coords_of(nd)]

    r, c = rng.choice(sorted(full))
    for ref, exp in (("#^^:__", (up, dn)), ("#R-1C-1:^^", (up, dn)), ("#%s:.." % xl.a1(r, c), ((r, c), (r, c))),
                     ("#R_C%s:R.C." % (c + 1), ((dn[0], c), (dn[0], c))), ("#R%sC_:R.C." % (r + 1), ((r, dn[1]), (r, dn[1])))):
        l = xl.lasso(ref, Sheet())
        mon.eq((xl.coords_of(l.st), xl.coords_of(l.nd)), exp, "rect of %r" % ref)
        mon.eq(l.values, list(exp), "rect read by %r" % ref)
    mon.ev("large")
    mon.key("large", sm.shape, sorted(full))


WORKLOADS = [("cells", w_cells, 600, 20000), ("succession", w_succession, 500, 15000), ("large", w_large, 120, 3000), ("letters", w_letters, 60, EXCEL_COLS // 32), ("edges", w_edges, 6000, 150000), ("margins", w_margins, 800, 20000)]
