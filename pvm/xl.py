"""Spreadsheet helpers and the reference model of capturing, shared by the xleash monitors.

The model walks cell by cell over a set of full cells; it shares nothing with the library.
"""
import json

from pandalone import xleash
from pandalone.xleash.io.backend import ArraySheet, SheetId

MOVES1 = ["L", "U", "R", "D"]
MOVES2 = ["LD", "LU", "UL", "UR", "RU", "RD", "DL", "DR"]
MOVES = MOVES1 + MOVES2
DELTA = {"L": (0, -1), "U": (-1, 0), "R": (0, 1), "D": (1, 0)}
DIGITS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


# ---- sheets ---------------------------------------------------------------------------

def obj_array(rows):
    import numpy as np

    h, w = len(rows), (len(rows[0]) if rows else 0)
    arr = np.empty((h, w), dtype=object)
    for r in range(h):
        for c in range(w):
            arr[r, c] = rows[r][c]
    return arr


def mem_sheet(rows, book="wb", ids=("sh", 0), cls=ArraySheet):
    return cls(obj_array(rows), SheetId(book, list(ids)))


def rand_mask(rng, h, w):
    """Varied occupancies: random, blocky, islands, lines, full, single."""
    kind = rng.choice(["rand", "rand", "sparse", "dense", "block", "blocks", "lines", "diag", "one", "full"])
    m = [[False] * w for _ in range(h)]
    if kind in ("rand", "sparse", "dense"):
        p = {"rand": 0.5, "sparse": 0.15, "dense": 0.85}[kind]
        for r in range(h):
            for c in range(w):
                m[r][c] = rng.random() < p
    elif kind in ("block", "blocks"):
        for _ in range(1 if kind == "block" else rng.randint(2, 3)):
            r0, c0 = rng.randrange(h), rng.randrange(w)
            r1, c1 = rng.randint(r0, h - 1), rng.randint(c0, w - 1)
            for r in range(r0, r1 + 1):
                for c in range(c0, c1 + 1):
                    m[r][c] = True
        if rng.random() < 0.5:
            m[rng.randrange(h)][rng.randrange(w)] ^= True
    elif kind == "lines":
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5:
                m[rng.randrange(h)] = [True] * w
            else:
                c = rng.randrange(w)
                for r in range(h):
                    m[r][c] = True
    elif kind == "diag":
        for r in range(h):
            m[r][(r + rng.randrange(2)) % w] = True
    elif kind == "one":
        m[rng.randrange(h)][rng.randrange(w)] = True
    else:
        m = [[True] * w for _ in range(h)]
    return m


def fill(mask, value=lambda r, c: 1000 * r + c):
    return [[value(r, c) if f else None for c, f in enumerate(row)] for r, row in enumerate(mask)]


def full_cells(rows):
    return {(r, c) for r, row in enumerate(rows) for c, v in enumerate(row) if v is not None}


def draw(rows):
    return "/".join("".join("#" if v is not None else "." for v in row) for row in rows)


# ---- coordinates ----------------------------------------------------------------------

def col_letters(c):
    """Zero-based column -> letters (bijective base-26)."""
    s = ""
    c += 1
    while c:
        c, d = divmod(c - 1, 26)
        s = DIGITS[d] + s
    return s


def a1(r, c):
    return "%s%d" % (col_letters(c), r + 1)


def rc(r, c):
    return "R%dC%d" % (r + 1, c + 1)


def margins(full):
    if not full:
        return (0, 0), (0, 0)
    rs, cs = [r for r, _ in full], [c for _, c in full]
    return (min(rs), min(cs)), (max(rs), max(cs))


class ModelError(Exception):
    """The model says: this is an error."""


class Empty(Exception):
    """The model says: targeting fails."""


def m_coord(spec, up, dn, base):
    """spec: ('abs', zero_based) | ('neg', k) | '^' | '_' | '.'"""
    if spec == "^":
        return up
    if spec == "_":
        return dn
    if spec == ".":
        if base is None:
            raise ModelError("no base")
        return base
    kind, n = spec
    if kind == "neg" and n > dn + 1:
        raise ModelError("before the start")
    return n if kind == "abs" else dn - n + 1


def m_opposite(full, land, moves):
    """First full cell, walking along moves[0], line after line along moves[1]."""
    far_r = max([r for r, _ in full] + [land[0]]) + 1
    far_c = max([c for _, c in full] + [land[1]]) + 1

    def inside(r, c):
        return 0 <= r <= far_r and 0 <= c <= far_c

    lr, lc = land
    while inside(lr, lc):
        r, c = lr, lc
        while inside(r, c):
            if (r, c) in full:
                return r, c
            r, c = r + DELTA[moves[0]][0], c + DELTA[moves[0]][1]
        if len(moves) == 1:
            break
        lr, lc = lr + DELTA[moves[1]][0], lc + DELTA[moves[1]][1]
    raise Empty()


def m_same(full, land, moves):
    """Last of the contiguous full cells on the landing's own row/column, for each move."""
    tr, tc = land
    for m in moves:
        r, c = land
        dr, dc = DELTA[m]
        while (r + dr, c + dc) in full:
            r, c = r + dr, c + dc
        if dr:
            tr = r
        else:
            tc = c
    return tr, tc


def m_target(full, land, mov, mod, walk):
    """walk: a fully-dependent 2nd edge"""
    if not mov:
        return land
    if land not in full:
        return m_opposite(full, land, mov)
    if mod == "+" or (walk and mod != "?"):
        return m_same(full, land, mov)
    return land


def m_exp_parse(exp):
    """-> list of (letters, times or None)"""
    out, run, i = [], "", 0
    exp = exp.upper()
    while i < len(exp):
        j = i + 1
        while j < len(exp) and exp[j] in "0123456789?":
            j += 1
        if j > i + 1:
            if run:
                out.append((run, None))
                run = ""
            cnt = exp[i + 1:j]
            out.append((exp[i], 1 if cnt == "?" else int(cnt)))
        else:
            run += exp[i]
        i = j
    if run:
        out.append((run, None))
    return out


def m_expand(full, st, nd, exp):
    r0, r1 = sorted((st[0], nd[0]))
    c0, c1 = sorted((st[1], nd[1]))
    for letters, times in m_exp_parse(exp):
        n = 0
        while times is None or n < times:
            n += 1
            grew = False
            for d in letters:
                if d == "L" and any((r, c0 - 1) in full for r in range(r0, r1 + 1)):
                    c0, grew = c0 - 1, True
                elif d == "R" and any((r, c1 + 1) in full for r in range(r0, r1 + 1)):
                    c1, grew = c1 + 1, True
                elif d == "U" and any((r0 - 1, c) in full for c in range(c0, c1 + 1)):
                    r0, grew = r0 - 1, True
                elif d == "D" and any((r1 + 1, c) in full for c in range(c0, c1 + 1)):
                    r1, grew = r1 + 1, True
            if not grew:
                break
    return (r0, c0), (r1, c1)


class E:
    """An edge of the model: coordinate specs and moves."""

    def __init__(self, row, col, mov=None, mod=None):
        self.row, self.col, self.mov, self.mod = row, col, mov, mod

    def text(self, a1_form, rng=None):
        if a1_form:
            s = "%s%s" % (self._a1(self.col, col_letters), self._a1(self.row, lambda r: str(r + 1)))
        else:
            s = "R%sC%s" % (self._rc(self.row), self._rc(self.col))
        if self.mov:
            s += "(%s%s)" % (self.mov, self.mod or "")
        if rng:
            s = randcase(rng, s)
        return s

    def can_a1(self, second):
        for x in (self.row, self.col):
            if x[0] == "neg" or (x == "." and not second):
                return False
        return True

    @staticmethod
    def _a1(x, f):
        return x if isinstance(x, str) else f(x[1])

    @staticmethod
    def _rc(x):
        return x if isinstance(x, str) else ("%d" % (x[1] + 1) if x[0] == "abs" else "-%d" % x[1])


def randcase(rng, s):
    return "".join(ch.lower() if rng.random() < 0.4 else ch for ch in s)


def m_capture(full, st, nd, exp=None, base=None):
    """Model of the whole capture -> (st, nd or None); raises Empty/ModelError."""
    up, dn = margins(full)
    br, bc = base if base else (None, None)
    land = (m_coord(st.row, up[0], dn[0], br), m_coord(st.col, up[1], dn[1], bc))
    t1 = m_target(full, land, st.mov, st.mod, False)
    t2 = None
    if nd is not None:
        land2 = (m_coord(nd.row, up[0], dn[0], t1[0]), m_coord(nd.col, up[1], dn[1], t1[1]))
        t2 = m_target(full, land2, nd.mov, nd.mod, nd.row == "." and nd.col == ".")
    if exp:
        return m_expand(full, t1, t2 or t1, exp)
    if t2 is None:
        return t1, None
    return ((min(t1[0], t2[0]), min(t1[1], t2[1])), (max(t1[0], t2[0]), max(t1[1], t2[1])))


def m_values(rows, st, nd):
    if nd is None:
        return rows[st[0]][st[1]]
    return [row[st[1]:nd[1] + 1] for row in rows[st[0]:nd[0] + 1]]


# ---- lassoing -------------------------------------------------------------------------

class NoFactory:
    """A sheets-factory serving only the context sheet."""

    def __init__(self):
        self.fetches = []

    def fetch_sheet(self, wb, sh, base_sheet=None):
        self.fetches.append((wb, sh))
        if wb is None and sh is None and base_sheet is not None:
            return base_sheet
        raise KeyError((wb, sh))


def lasso(ref, sheet, filters=None, opts=None, **kw):
    """Public-API lasso on a given in-memory sheet -> the final Lasso."""
    return xleash.lasso(ref, sheets_factory=NoFactory(), base_opts=opts, available_filters=filters,
                        return_lasso=True, sheet=sheet, **kw)


def ref_text(rng, st, nd, exp=None, filt=None, case=True):
    """Spell an xl-ref, choosing A1 or RC at random per edge."""
    cr = rng if case else None
    s = "#" + st.text(st.can_a1(False) and rng.random() < 0.6, cr)
    if nd is not None or exp:
        s += ":"
        if nd is not None:
            s += nd.text(nd.can_a1(True) and rng.random() < 0.6, cr)
        if exp:
            s += ":" + (randcase(rng, exp) if case else exp)
    if filt is not None:
        s += ":" + (filt if isinstance(filt, str) else json.dumps(filt))
    return s


def coords_of(x):
    return None if x is None else (int(x[0]), int(x[1]))


def spoil(v):
    """Change in place whatever nested containers there are."""
    if isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v["spoilt"] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("spoilt")
