"""Old-style .xls workbooks (a bare BIFF8 stream) with known contents, written record by record: independent of any reader."""
import datetime as dt
import os
from struct import pack


ERRS = {"#NULL!": 0, "#DIV/0!": 7, "#VALUE!": 15, "#REF!": 23, "#NAME?": 29, "#NUM!": 36, "#N/A": 42}
FORMATS = {164: "yyyy\\-mm\\-dd hh:mm:ss", 165: "hh:mm:ss", 166: "dd/mm/yyyy", 167: "0.00", 168: '#,##0.00 "days"'}
XFS = [0, 1, 14, 20, 22, 164, 165, 166, 167, 168]  # number-formats of the XF records after the 15 of styles
DATETIME_XFS, PLAIN_XFS, DATE_XFS = [15 + i for i in (2, 4, 5, 7)], [15, 16, 23, 24], [17, 22]
TIME_XFS = [15 + 3, 15 + 6]


def rec(op, data=b""):
    return pack("<HH", op, len(data)) + data


def uni(text, lenlen):
    n = len(text.encode("utf-16-le")) // 2
    head = pack("<B" if lenlen == 1 else "<H", n)
    try:
        return head + b"\0" + text.encode("latin-1")
    except UnicodeEncodeError:
        return head + b"\1" + text.encode("utf-16-le")


def serial(v, epoch1904):
    if isinstance(v, dt.time):
        return (v.hour * 3600 + v.minute * 60 + v.second + v.microsecond / 1e6) / 86400
    if not isinstance(v, dt.datetime):
        v = dt.datetime(v.year, v.month, v.day)
    d = v - (dt.datetime(1904, 1, 1) if epoch1904 else dt.datetime(1899, 12, 30))
    if not epoch1904 and d.days < 61:  # 1900 was no leap year, but Excel counts its 29 Feb
        d -= dt.timedelta(days=1)
    return d.days + (d.seconds + d.microseconds / 1e6) / 86400


def rk(v):
    """An RK-number, or None when the value does not fit in one."""
    if v == int(v) and -(2 ** 29) <= v < 2 ** 29:
        return pack("<i", (int(v) << 2) | 2)
    h = v * 100
    if h == int(h) and -(2 ** 29) <= h < 2 ** 29 and int(h) / 100.0 == v:
        return pack("<i", (int(h) << 2) | 3)
    b = pack("<d", v)
    if b[:4] == b"\0\0\0\0" and not b[4] & 3:
        return b[4:]
    return None


def cell(rng, r, c, v, epoch1904, formula):
    """Records of one cell, as plain value or as a formula with its last result."""
    xf = rng.choice(PLAIN_XFS)
    num = None
    if isinstance(v, bool):
        res = b"\1\0" + pack("<B", v) + b"\0\0\0\xff\xff"
        plain = rec(0x205, pack("<HHHBB", r, c, xf, v, 0))
    elif isinstance(v, str) and v in ERRS:
        res = b"\2\0" + pack("<B", ERRS[v]) + b"\0\0\0\xff\xff"
        plain = rec(0x205, pack("<HHHBB", r, c, xf, ERRS[v], 1))
    elif isinstance(v, str):
        res = b"\0\0\0\0\0\0\xff\xff"
        plain = rec(0x204, pack("<HHH", r, c, xf) + uni(v, 2))
    else:
        if isinstance(v, (dt.date, dt.time)):
            num = serial(v, epoch1904)
            xf = rng.choice(DATETIME_XFS if isinstance(v, dt.datetime) else TIME_XFS if isinstance(v, dt.time) else DATE_XFS)
        else:
            num = float(v)
        res = pack("<d", num)
        small = rk(num) if rng.random() < 0.6 and abs(num) < 1e300 else None
        if small is None:
            plain = rec(0x203, pack("<HHHd", r, c, xf, num))
        elif rng.random() < 0.5:
            plain = rec(0x27E, pack("<HHH", r, c, xf) + small)
        else:
            plain = rec(0xBD, pack("<HHH", r, c, xf) + small + pack("<H", c))
    if not formula:
        return plain
    out = rec(0x06, pack("<HHH", r, c, xf) + res + pack("<HIH", 0, 0, 3) + b"\x1e\1\0")
    if isinstance(v, str) and v not in ERRS:
        out += rec(0x207, uni(v, 2))
    return out


def write(rng, path, sheets, epoch1904=False, styled=(), hidden=(), others=(), formulas=0.3):
    """sheets: {name: {(row, col): value}}; others: names of chart-sheets, put anywhere; styled: {(name, row, col)} formatted but empty"""
    names = list(sheets)
    order = [(n, 0) for n in names]
    for n in others:
        order.insert(rng.randint(0, len(order)), (n, 2))

    bodies = {}
    for n, typ in order:
        if typ:
            bodies[n] = rec(0x809, pack("<HHHHII", 0x0600, 0x20, 0x0DBB, 0x07CC, 0, 6)) + rec(0x0A)
            continue
        body = rec(0x809, pack("<HHHHII", 0x0600, 0x10, 0x0DBB, 0x07CC, 0, 6))
        cells = {k: v for k, v in sheets[n].items() if v is not None}
        blanks = {(r, c) for m, r, c in styled if m == n} - set(cells)
        every = sorted(set(cells) | blanks)
        if every and rng.random() < 0.8:
            rs, cs = [r for r, _ in every], [c for _, c in every]
            body += rec(0x200, pack("<IIHHH", min(rs), max(rs) + 1, min(cs), max(cs) + 1, 0))
        for r, c in every:
            if (r, c) in cells:
                body += cell(rng, r, c, cells[r, c], epoch1904, rng.random() < formulas)
            else:
                body += rec(0x201, pack("<HHH", r, c, rng.choice(PLAIN_XFS + DATE_XFS)))
        bodies[n] = body + rec(0x0A)

    def globals_(offsets):
        out = rec(0x809, pack("<HHHHII", 0x0600, 5, 0x0DBB, 0x07CC, 0, 6)) + rec(0x42, pack("<H", 1200)) + rec(0x22, pack("<H", bool(epoch1904)))
        out += rec(0x31, pack("<HHHHHBBBB", 200, 0, 0x7FFF, 400, 0, 0, 0, 0, 0) + uni("Arial", 1))
        for k, f in FORMATS.items():
            out += rec(0x41E, pack("<H", k) + uni(f, 2))
        for i in range(15):
            out += rec(0xE0, pack("<HHHBBBBIIH", 0, 0, 0xFFF5, 0x20, 0, 0, 0, 0, 0, 0x20C0))
        for f in XFS:
            out += rec(0xE0, pack("<HHHBBBBIIH", 0, f, 1, 0x20, 0, 0, 0xFC, 0, 0, 0x20C0))
        for n, typ in order:
            out += rec(0x85, pack("<iBB", offsets.get(n, 0), 1 if n in hidden else 0, typ) + uni(n, 1))
        return out + rec(0x0A)

    pos, offsets = len(globals_({})), {}
    for n, _ in order:
        offsets[n] = pos
        pos += len(bodies[n])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(globals_(offsets) + b"".join(bodies[n] for n, _ in order))
    return path


