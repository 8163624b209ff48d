import os
import pathlib

from pandalone import xleash

from pvm import biff, wb, xl

RULE = ("workbooks of 1-4 sheets with cells of all types at random positions written in the old (.xls) and new (.xlsx) format in both date systems, as values or last results of formulas, with hidden sheets and charts among them, read through the public "
        "lasso() cell by cell and as whole sheets; sheet selection by name/digits/default; non-trivial = workbook with values, keyed by contents")
FLOORS = {"cell": 1300, "sheet": 750, "by-index": 650, "by-name": 380, "default": 110, "unknown": 110, "1904": 130, "kind:datetime": 480, "kind:time": 500, "kind:error": 500, "kind:bool": 480, "kind:whole": 520, "xls": 200, "xlsx": 250, "hidden": 60, "chart": 60}

NAMES = ["Sheet1", "data", "my sheet", "1", "0", "2", "Φύλλο", "a.b", "x(y)", "10", "SHEET", "t-1", "é"]
EXTS = [".xlsx", ".xlsx", ".xlsm", ".xltx", ".xltm", ".XLSX", ".xls"]
KINDS = ["int", "float", "whole", "bool", "text", "text", "datetime", "date", "time", "error"]


def make(rng, mon, i, nsheets=None):
    names = rng.sample(NAMES, nsheets or rng.randint(1, 4))
    if {"Sheet1", "SHEET"} <= set(names):
        names.remove("SHEET")
    epoch1904 = rng.random() < 0.35
    sheets, expect, styled = {}, {}, []
    for n in names:
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        r0, c0 = rng.choice([(0, 0), (0, 0), (rng.randrange(8), rng.randrange(30))])
        cells, exp = {}, {}
        if rng.random() < 0.93:
            for _ in range(rng.randint(1, h * w)):
                k = rng.choice(KINDS)
                p = (r0 + rng.randrange(h), c0 + rng.randrange(w))
                cells[p], exp[p] = wb.rand_cell(rng, [k])
                mon.ev("kind:" + k)
        sheets[n], expect[n] = cells, exp
        if rng.random() < 0.3 and cells:
            styled.append((n, r0 + h + rng.randrange(3), c0 + w + rng.randrange(3)))
    hidden = rng.sample(names, rng.randrange(len(names))) if rng.random() < 0.3 else ()
    others = rng.sample(["Chart1", "chärt"], rng.randint(1, 2)) if rng.random() < 0.2 else ()
    old = rng.random() < 0.45
    path = os.path.join(mon.tmp, "w%d%s" % (i, rng.choice([".xls", ".xls", ".xlt", ".XLS", ".xlw"] if old else EXTS)))
    if old:
        biff.write(rng, path, sheets, epoch1904, styled, hidden, others, rng.choice([0, 0.3, 1]))
    else:
        wb.write(path, sheets, epoch1904, styled, hidden, others, rng.choice([None, lambda: rng.random() < 0.4]))
    mon.ev("xls" if old else "xlsx")
    mon.ev("hidden", len(hidden))
    mon.ev("chart", len(others))
    if epoch1904:
        mon.ev("1904")
    return path, names, expect


def check_sheet(rng, mon, sf, prefix, exp, what):
    """The sheet captured by `prefix` holds `exp`."""
    grid = wb.grid(exp)
    got = xleash.lasso(prefix + ":", sheets_factory=sf)
    if not grid:
        mon.eq(got, [], "%s empty sheet" % what)
        return
    full = {k for k, v in exp.items() if v is not None}
    up, dn = xl.margins(full)
    want = [row[up[1]:] for row in grid[up[0]:]]
    mon.check(wb.close(got, want), "%s: got %r, expected %r", what, got, want)
    whole = xleash.lasso(prefix + "A1:__", sheets_factory=sf)
    mon.check(wb.close(whole, grid), "%s from A1: got %r, expected %r", what, whole, grid)
    mon.ev("sheet")


def w_contents(rng, mon, i):
    path, names, expect = make(rng, mon, i)
    mon.note("workbook", repr(expect))
    own = rng.random() < 0.5
    sf = xleash.SheetsFactory()
    try:
        for n in names:
            pre = "%s#%s!" % (path, n)
            check_sheet(rng, mon, sf, pre, expect[n], "sheet %r" % n)
            for (r, c), v in rng.sample(sorted(expect[n].items()), min(6, len(expect[n]))):
                ref = pre + rng.choice([xl.a1(r, c), xl.rc(r, c)])
                got = xleash.lasso(ref, sheets_factory=None if own and rng.random() < 0.3 else sf)
                mon.check(wb.close(got, v), "cell %s: got %r, expected %r", ref, got, v)
                mon.ev("cell")
            mon.ev("by-name")
        mon.eq(sf.list_sheetnames(pathlib.Path(path).as_uri()), names, "sheet names")
        mon.eq(sf.fetch_sheet(path, names[-1]).list_sheetnames(), names, "sheet names of a sheet")
        mon.key(repr(expect))
    finally:
        sf.close()
        os.remove(path)


def w_select(rng, mon, i):
    """Name first, then zero-based index; first by default; unknown is an error."""
    path, names, expect = make(rng, mon, i, rng.randint(2, 4))
    mon.note("names", names, "expect", repr(expect))
    sf = xleash.SheetsFactory()
    try:
        check_sheet(rng, mon, sf, path + "#", expect[names[0]], "default sheet")
        mon.ev("default")
        for idx in range(len(names)):
            digits = str(idx)
            want = digits if digits in names else names[idx]
            check_sheet(rng, mon, sf, "%s#%s!" % (path, digits), expect[want], "sheet by digits %r of %r" % (digits, names))
            sh = sf.fetch_sheet(path, idx)
            mon.eq(sh.get_sheet_ids().ids[0], names[idx], "sheet fetched by int %s of %r" % (idx, names))
            mon.eq(list(sh.get_sheet_ids().ids), [names[idx], idx], "sheet ids")
            mon.ev("by-index", 2)
            sib = sh.open_sibling_sheet(rng.choice(names))
            n = rng.choice(names)
            sib = sh.open_sibling_sheet(n)
            mon.eq(sib.get_sheet_ids().ids[0], n, "sibling sheet")
        bad = rng.choice(["nope", "77", str(len(names)), names[0] + "x", "1.5", "-"])
        if bad not in names:
            mon.raises(ValueError, xleash.lasso, "%s#%s!A1:B2" % (path, bad), sheets_factory=sf)
            mon.ev("unknown")
        mon.key("select", tuple(names))
    finally:
        sf.close()
        os.remove(path)


def w_vs_memory(rng, mon, i):
    """A file sheet and an in-memory sheet of the same cells answer any xl-ref alike."""
    path, names, expect = make(rng, mon, i, 1)
    grid = wb.grid(expect[names[0]])
    if not grid:
        os.remove(path)
        return
    h, w = len(grid), len(grid[0])
    sheet = xl.mem_sheet(grid)
    sf = xleash.SheetsFactory()
    try:
        for _ in range(6):
            st = xl.E(rng.choice([("abs", rng.randrange(h)), "^", "_"]), rng.choice([("abs", rng.randrange(w)), "^", "_"]), rng.choice([None] + xl.MOVES))
            nd = rng.choice([xl.E(".", ".", rng.choice(xl.MOVES)), xl.E("_", "_"), xl.E("^", "."), xl.E(("abs", rng.randrange(h)), ("abs", rng.randrange(w)))])
            core = xl.ref_text(rng, st, nd, rng.choice([None, "LURD", "R?D1"]))
            mon.note(core, repr(expect))
            a = xleash.lasso(path + core, sheets_factory=sf, return_lasso=True)
            b = xl.lasso(core, sheet)
            mon.eq((a.st, a.nd), (b.st, b.nd), "file vs memory rect of %s" % core)
            mon.check(wb.close(a.values, b.values), "file vs memory: %r vs %r", a.values, b.values)
            mon.ev("differential")
    finally:
        sf.close()
        os.remove(path)


WORKLOADS = [("contents", w_contents, 350, 8000), ("select", w_select, 250, 5000), ("vs_memory", w_vs_memory, 200, 4000)]
