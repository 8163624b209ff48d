"""Workbook files with known contents, written by openpyxl (independent of the xlrd reader)."""
import datetime as dt
import os
import warnings

warnings.simplefilter("ignore")

TEXTS = ["a", "foo bar", "éßΩ", "1", "1.5", "True", "2020-01-01", " lead", "trail ", "two\nlines", "<&>\"'", "None", "nan", "日本語",
         "x" * 300, "#A1", "tab\tx", "0", "-", "A1:B2"]
ERRORS = ["#N/A", "#DIV/0!", "#REF!", "#VALUE!", "#NAME?", "#NUM!", "#NULL!"]
NAN = float("nan")


def ymd(rng, years):
    # Around both epochs, but dates valid in any of them.
    if rng.random() < 0.2:
        return (1904, *rng.choice([(1, 2), (1, 31), (2, 29), (3, 1), (12, 31), (1, rng.randint(2, 31))]))
    return rng.choice(years), rng.randint(1, 12), rng.randint(1, 28)


def rand_cell(rng, kinds=None):
    """-> (value to write, value to expect)"""
    k = rng.choice(kinds or ["int", "float", "whole", "bool", "text", "text", "datetime", "date", "time", "error", "none"])
    if k == "int":
        v = rng.choice([0, 1, -1, 42, -7, 2 ** 31, 2 ** 53, -2 ** 53, 10 ** 15, rng.randrange(-10 ** 6, 10 ** 6)])
        return v, v
    if k == "float":
        v = rng.choice([0.5, -0.25, 1e-9, 3.14159, 1.1, 2 ** -30, rng.randrange(-9999, 9999) + rng.choice([0.125, 0.1, 0.7])])
        return v, v
    if k == "whole":
        v = float(rng.choice([0, 1, -3, 250, 10 ** 9]))
        return v, int(v)
    if k == "bool":
        v = rng.random() < 0.5
        return v, v
    if k == "text":
        v = rng.choice(TEXTS)
        return v, v
    if k == "datetime":
        v = dt.datetime(*ymd(rng, [1905, 1950, 1999, 2000, 2016, 2024, 2100, 2500, 9998]),
                        rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.choice([0, 0, 0, 250000, 7000]))
        return v, v
    if k == "date":
        v = dt.date(*ymd(rng, [1905, 1970, 2000, 2016, 2024, 2199]))
        return v, dt.datetime(v.year, v.month, v.day)
    if k == "time":
        v = dt.time(rng.randrange(24), rng.randrange(60), rng.randrange(59), rng.choice([0, 0, 500000, 125000]))
        return v, v
    if k == "error":
        return rng.choice(ERRORS), NAN
    return None, None


def close(a, b):
    """Exact types; datetimes and times to the millisecond; NaN equals NaN; floats exact."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and a != a:
        return b != b
    if isinstance(a, dt.datetime):
        return abs(a - b) <= dt.timedelta(milliseconds=1)
    if isinstance(a, dt.time):
        s = [x.hour * 3600 + x.minute * 60 + x.second + x.microsecond / 1e6 for x in (a, b)]
        return abs(s[0] - s[1]) <= 0.001
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def write(path, sheets, epoch1904=False, styled=(), hidden=(), others=(), formulas=None):
    """
    sheets: {name: {(row, col): value}}; styled: {(name, row, col)} get a format but no value;
    others: names of chart-sheets, put in front; formulas: call deciding which cells are the last results of formulas
    """
    import openpyxl
    from openpyxl.styles import Font
    from openpyxl.utils.datetime import CALENDAR_MAC_1904

    wb = openpyxl.Workbook()
    if epoch1904:
        wb.epoch = CALENDAR_MAC_1904
    wb.remove(wb.active)
    for name in others:
        wb.create_chartsheet(name)
    for name, cells in sheets.items():
        ws = wb.create_sheet(name)
        if name in hidden:
            ws.sheet_state = "hidden"
        for (r, c), v in cells.items():
            if v is not None:
                ws.cell(r + 1, c + 1).value = v
        for n, r, c in styled:
            if n == name:
                ws.cell(r + 1, c + 1).font = Font(bold=True)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    wb.save(path)
    wb.close()
    if formulas:
        _as_formulas(path, formulas)
    return path


def _as_formulas(path, formulas):
    """Excel stores the last result of a formula next to it; openpyxl writes either, so edit the sheets."""
    import re
    import zipfile

    def edit(m):
        attrs, kind, body = m.group(1), m.group(2), m.group(3)
        if kind in ("s", "inlineStr") or not formulas():
            return m.group(0)
        return '<c%s%s><f>1+1</f>%s</c>' % (attrs, "" if kind is None else ' t="%s"' % kind, body)

    with zipfile.ZipFile(path) as z:
        parts = [(n, z.read(n)) for n in z.namelist()]
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        for n, data in parts:
            if n.startswith("xl/worksheets/"):
                data = re.sub(r'<c((?: (?:r|s)="[^"]*")+)(?: t="(\w+)")?>(<v>[^<]*</v>)</c>', edit, data.decode("utf-8")).encode("utf-8")
            z.writestr(n, data)


def grid(cells):
    """{(r, c): v} -> rows from A1 up to the last valued cell."""
    full = [k for k, v in cells.items() if v is not None]
    if not full:
        return []
    h, w = max(r for r, _ in full) + 1, max(c for _, c in full) + 1
    return [[cells.get((r, c)) for c in range(w)] for r in range(h)]


def book_sheet(rng, mon, rows):
    """The sheet of a workbook file with the same full cells as `rows`, of any kind of value, and perhaps formatted empty ones."""
    from pandalone import utils
    from pandalone.xleash.io import _xlrd
    from pvm import biff

    cells = {}
    for r, line in enumerate(rows):
        for c, v in enumerate(line):
            if v is not None:
                cells[r, c] = rand_cell(rng, ["int", "float", "whole", "bool", "text", "datetime", "date", "time", "error", "error"])[0]
    empty = [(r, c) for r, line in enumerate(rows) for c, v in enumerate(line) if v is None]
    styled = [("S",) + rng.choice(empty) for _ in range(rng.choice([0, 0, 1, 2])) if empty]
    path = os.path.join(mon.tmp, "sheet%d.xls" % rng.randrange(10 ** 9))
    if rng.random() < 0.5:
        biff.write(rng, path, {"other": {}, "S": cells}, styled=styled)
    else:
        path = write(path + "x", {"other": {}, "S": cells}, styled=styled)
    try:
        return _xlrd.XlrdBackend().open_sheet(utils.path2url(path), rng.choice(["S", 1]))
    finally:
        os.remove(path)
