import json
import os

from pandalone import xleash
from pandalone.xleash.io.backend import SheetsFactory

from pvm import xl
from pvm.core import same

RULE = ("acyclic networks of 1-3 workbooks x 1-3 sheets whose cells hold references (absolute, own-cell relative, sibling-sheet, other-workbook, moving, "
        "expanding, encased, chained through their own recurse filters), plain texts, invalid references and values; compared with an independent "
        "recursive evaluator; non-trivial = at least one reference replaced, keyed by network and lasso")
FLOORS = {"replaced": 5200, "own-cell": 2700, "sibling": 2000, "other-wb": 750, "chained": 2000, "kept-text": 5400, "kept-other": 10000, "failed": 210, "sub-filter": 3200, "empty": 26, "file": 21, "dict": 270, "off-corner": 3400, "own-nested": 180, "nest:deep": 35, "nest:frame": 36, "nest:series": 35}

TEXTS = ["plain", "A1", "a:b", "", "100%", "#A0", "#A1,B2", "x#?", "R.C.", "{}", "[#]", "text #A1 text", "1+1", "(R)", "#A1(LR)"]
N, M = 5, 6  # rows, columns of each sheet; columns 0-1 hold references, and point only to later cells


class Fail(Exception):
    pass


class Ref:
    def __init__(self, text, wb, sh, st, nd, exp, rec):
        self.text, self.wb, self.sh, self.st, self.nd, self.exp, self.rec = text, wb, sh, st, nd, exp, rec


class Net:
    """Sheets by (workbook, name) and the meaning of reference texts."""

    def __init__(self):
        self.rows, self.refs, self.full = {}, {}, {}

    def resolve(self, key, ref):
        return (ref.wb or key[0], ref.sh or key[1])

    def capture(self, key, ref, base):
        k2 = self.resolve(key, ref)
        if k2 not in self.rows:
            raise Fail("no sheet")
        try:
            st, nd = xl.m_capture(self.full[k2], ref.st, ref.nd, ref.exp, base)
        except xl.Empty:
            return k2, None, None, []
        except xl.ModelError:
            raise Fail("no base")
        return k2, st, nd, xl.m_values(self.rows[k2], st, nd)

    def evaluate(self, key, ref, base, mon, log):
        k2, st, nd, vals = self.capture(key, ref, base)
        if st is None:
            mon.ev("empty")
        if ref.rec:
            vals = self.expand(k2, st, nd, vals, mon, log)
            mon.ev("chained")
        if ref.wb:
            mon.ev("other-wb")
        elif ref.sh:
            mon.ev("sibling")
        if "." in (ref.st.row, ref.st.col):
            mon.ev("own-cell")
        return vals

    def expand(self, key, st, nd, vals, mon, log, subs=(), depth=-1):
        def elem(v, base):
            r = self.refs.get(v) if isinstance(v, str) else None
            if r is None:
                mon.ev("kept-text" if isinstance(v, str) else "kept-other")
                return v
            res = self.evaluate(key, r, base, mon, log)
            mon.ev("replaced")
            if base != st:
                mon.ev("off-corner")
            for s in subs:
                log.append(repr(res))
                res = [s, res]
                mon.ev("sub-filter")
            return res

        if depth == 0:
            return vals
        if not isinstance(vals, list):
            return elem(vals, st)
        if 0 <= depth <= 2:
            return vals
        if st is None:
            return vals
        return [[elem(v, (st[0] + i, st[1] + j)) for j, v in enumerate(row)] for i, row in enumerate(vals)]


def coord(rng, lo, n, here):
    return ("abs", rng.randint(min(lo, n - 1), n - 1)) if rng.random() < 0.8 else "_"


def local_ref(rng, r, c):
    """Edges of a reference at that cell, pointing only to cells after it (column-wise)."""
    k = rng.randrange(6)
    if k == 0:  # same row, later column
        st = xl.E(".", ("abs", rng.randint(c + 1, M - 1)))
        nd = xl.E(".", ("abs", rng.randint(c + 1, M - 1))) if rng.random() < 0.5 else None
    elif k == 1 and r + 1 < N:  # same column, later row
        st = xl.E(("abs", rng.randint(r + 1, N - 1)), ".")
        nd = xl.E(("abs", rng.randint(r + 1, N - 1)), ".") if rng.random() < 0.5 else None
    elif k == 2:
        st = xl.E(".", "_")
        nd = xl.E("_", ".") if rng.random() < 0.5 else None
    elif k == 3:  # row from own, block
        st = xl.E(".", ("abs", rng.randint(c + 1, M - 1)))
        nd = xl.E("_", "_")
    elif k == 4:
        st = xl.E(("abs", rng.randrange(N)), ("abs", rng.randint(c + 1, M - 1)))
        nd = xl.E("_", rng.choice(["_", "."]), *rng.choice([(None, None), ("U", None), ("U", "?")]))
    else:
        st = xl.E(("abs", rng.randrange(N)), ("abs", rng.randint(c + 1, M - 1)))
        nd = None
    return st, nd, None


def far_ref(rng):
    """Edges anywhere in a later sheet."""
    st = xl.E(rng.choice([".", "^", "_", ("abs", rng.randrange(N)), ("abs", rng.randrange(N))]),
              rng.choice([".", "^", "_", ("abs", rng.randrange(M)), ("abs", rng.randrange(M))]))
    nd = exp = None
    if rng.random() < 0.5:
        nd = xl.E(rng.choice([".", "_", ("abs", rng.randrange(N))]), rng.choice([".", "_", ("abs", rng.randrange(M))]))
    elif rng.random() < 0.4:
        st = xl.E(("abs", rng.randrange(N)), ("abs", rng.randrange(M)), rng.choice(["L", "U", "R", "D", "DR", "RD"]), None)
        nd = xl.E(".", ".", rng.choice(["R", "D", "RD", "DR"]), None) if rng.random() < 0.7 else None
    elif rng.random() < 0.3:
        nd, exp = xl.E("_", "_"), rng.choice(["R1", "D1", "RD", "LURD", "D2R1"])
    return st, nd, exp


def make_ref(rng, wb, sh, edges):
    st, nd, exp = edges
    rec = rng.random() < 0.4
    filt = None
    if rec:
        filt = rng.choice(['"recurse"', ["recurse"], {"func": "recurse"}, ["pipe", ["recurse"]]])
    text = (wb or "") + "#" + (sh + "!" if sh else "") + xl.ref_text(rng, st, nd, exp, filt)[1:]
    if rng.random() < 0.1:
        q = rng.choice("/$%&")
        if q not in text and '"' not in text:
            text = q + text + q
    return Ref(text, wb, sh, st, nd, exp, rec)


def make_net(rng, books, files=False):
    net = Net()
    dens = rng.choice([0.5, 0.6, 0.85])
    keys = [(b, "S%d" % s) for b in books for s in range(rng.randint(1, 3))]
    for n, key in reversed(list(enumerate(keys))):
        rows = [[None] * M for _ in range(N)]
        for r in range(N):
            for c in range(M):
                k = rng.random()
                if c < 2 and k < 0.75:
                    later = keys[n + 1:]
                    if later and rng.random() < 0.5:
                        k2 = rng.choice(later)
                        ref = make_ref(rng, None if k2[0] == key[0] else k2[0], k2[1], far_ref(rng))
                    else:
                        ref = make_ref(rng, None, rng.choice([None, None, key[1]]), local_ref(rng, r, c))
                    old = net.refs.get(ref.text)
                    if not old:
                        net.refs[ref.text] = ref
                    rows[r][c] = ref.text
                elif k < 0.4:
                    rows[r][c] = rng.choice(TEXTS[0:1] + TEXTS[4:] if files else TEXTS) or None
                elif k < dens:
                    rows[r][c] = rng.randrange(1000) if files or rng.random() < 0.7 else rng.choice([True, 2.5, float("nan")])
        net.rows[key] = rows
        net.full[key] = xl.full_cells(rows)
    return net, keys


def rand_top(rng, key, first_wb):
    """The lasso done by the user: any rect of the 1st columns."""
    r0, r1 = sorted((rng.randrange(N), rng.randrange(N)))
    c0, c1 = sorted((rng.randrange(3), rng.randrange(M)))
    st = xl.E(("abs", r0), ("abs", c0))
    nd = xl.E(("abs", r1), ("abs", c1)) if rng.random() < 0.8 else None
    return Ref(None, key[0], key[1], st, nd, None, True)


def attempt(fn):
    try:
        return ("ok", fn())
    except ValueError as ex:
        return ("fail", str(ex))


def run_top(rng, mon, net, keys, sf, broken=None):
    key = rng.choice(keys)
    top = rand_top(rng, key, None)
    subs = ["w"] * rng.choice([0, 0, 1, 2, 6])
    depth = rng.choice([-1, -1, -1, -1, 0, 1, 2, 3, 4])
    kw = {}
    if depth != -1 or rng.random() < 0.2:
        kw["depth"] = depth
    if subs or rng.random() < 0.2:
        kw["filters"] = ["w"] * len(subs)
    log, elog = [], []

    def w(ranger, lasso):
        log.append(repr(lasso.values))
        return lasso._replace(values=["w", lasso.values])

    fs = dict(xleash.installed_filters, w={"func": w})
    spec = ["recurse", kw] if rng.random() < 0.6 else {"func": "recurse", "kwds": kw}
    how = rng.choice(["url", "context"])
    ref = (key[0] + "#" + key[1] + "!" if how == "url" else "#") + xl.ref_text(rng, top.st, top.nd, None, spec)[1:]
    mon.note("ref", ref, "network", {k: v for k, v in net.rows.items()})
    try:
        k2, st, nd, vals = net.capture(key, top, None)
        exp = ("ok", net.expand(k2, st, nd, vals, mon, elog, subs, depth))
    except Fail as ex:
        exp = ("fail", str(ex))
    ctx = dict(sheet=sf.fetch_sheet(key[0], key[1])) if how == "context" else {}
    got = attempt(lambda: xleash.lasso(ref, sheets_factory=sf, available_filters=fs, **ctx))
    mon.eq(got[0], exp[0], "outcome of %r (%r vs %r)" % (ref, got, exp))
    if exp[0] == "ok":
        mon.eq(got[1], exp[1], "values of %r" % ref)
        mon.eq(log, elog, "elements given to the sub-filters of %r" % ref)
    else:
        mon.ev("failed")
    mon.key(ref, repr(net.rows))


def w_net(rng, mon, i):
    net, keys = make_net(rng, ["wbA", "wbB", "wbC"][:rng.randint(1, 3)])
    if rng.random() < 0.15:
        # A reference that cannot be done
        key = rng.choice(keys)
        bad = rng.choice([Ref("#Nope!A1", None, "Nope", xl.E(("abs", 0), ("abs", 0)), None, None, False),
                          Ref("none.xls#S0!A1", "none.xls", "S0", xl.E(("abs", 0), ("abs", 0)), None, None, False)])
        net.refs[bad.text] = bad
        net.rows[key][rng.randrange(N)][rng.randrange(3)] = bad.text
        net.full[key] = xl.full_cells(net.rows[key])
    with SheetsFactory() as sf:
        for n, key in enumerate(keys):
            sf.add_sheet(xl.mem_sheet(net.rows[key], key[0], (key[1],)), key[0], key[1])
        for _ in range(3):
            run_top(rng, mon, net, keys, sf)


def w_failing(rng, mon, i):
    """Anything but a syntax error fails all; syntax errors are just texts."""
    bad = rng.choice(['#A1:"nofilter"', '#A1:"boom"', "#Nope!A1", "none.xls#A1", '#Z99(L):{"opts":{"no_empty":true}}', "#B9:C9:LURD:[\"boom\"]", "#Z99"])
    rows = [[rng.choice([1, "txt", None, "#A1(LR)", "#B0"]) for _ in range(3)] for _ in range(3)]
    r, c = rng.randrange(3), rng.randrange(3)
    rows[r][c] = bad
    exc = rng.choice([ValueError("v"), KeyError("k"), OSError(1, "o"), SyntaxError("inside a filter"), AssertionError()])

    def boom(ranger, lasso):
        raise exc

    fs = dict(xleash.installed_filters, boom={"func": boom})
    kw = rng.choice(["", ',{"depth":3}', ',[["nofilter2"]]', ',{"filters":[["boom",{"lax":true}]]}'])
    ref = '#A1:C3:["recurse"%s]' % kw
    mon.note("rows", rows, "ref", ref, "exception", repr(exc))
    got = attempt(lambda: xl.lasso(ref, xl.mem_sheet(rows), fs).values)
    mon.eq(got[0], "fail", "outcome of %r over %r: %r" % (ref, rows, got[1]))
    # ... unless lax, which leaves the whole as it was before, but for those done in-place
    got = attempt(lambda: xl.lasso(ref, xl.mem_sheet(rows), fs, {"lax": True}).values)
    mon.eq(got[0], "ok", "outcome of lax %r over %r" % (ref, rows))
    if bad.startswith("#A1:") or "LURD" in bad:
        mon.eq(len(got[1]), 3, "rows of lax %r" % ref)
    rows[r][c] = "#A1(LR)"
    mon.eq(xl.lasso('#A1:C3:["recurse"]', xl.mem_sheet(rows)).values, rows, "non-references")
    mon.ev("failed")
    mon.key("failing", ref, repr(rows), repr(exc))


def w_dict(rng, mon, i):
    """Dictionaries: selected keys and depths"""
    rows = [[rng.randrange(100) for _ in range(3)] for _ in range(3)]
    sheet = xl.mem_sheet(rows)

    def leaf():
        if rng.random() < 0.6:
            r, c = rng.randrange(3), rng.randrange(3)
            if rng.random() < 0.3:
                return "#A1:" + xl.a1(r, c), [row[:c + 1] for row in rows[:r + 1]]
            return "#" + xl.a1(r, c), rows[r][c]
        v = rng.choice(["txt", 5, None, "#A0", "a#b:"])
        return v, v

    inc = rng.choice([None, None, ["a", "b"], "a", ["c"]])
    exc = rng.choice([None, None, ["b"], "c"])
    depth = rng.choice([-1, -1, 0, 1, 2, 3])
    linc, lexc = ([x] if isinstance(x, str) else x for x in (inc, exc))

    def tree(d, level, on):
        on = on and level != depth
        if d and rng.random() < 0.6:
            if rng.random() < 0.7:
                pairs = {}
                for k in rng.sample("abcd", rng.randint(1, 3)):
                    ok = (not linc or k in linc) and (not lexc or k not in lexc)
                    pairs[k] = tree(d - 1, level + 1, on and ok)
                return {k: p[0] for k, p in pairs.items()}, {k: p[1] for k, p in pairs.items()}
            items = [tree(d - 1, level + 1, on) for _ in range(rng.randint(1, 3))]
            return [p[0] for p in items], [p[1] for p in items]
        v, res = leaf()
        return v, (res if on else v)

    val, exp = tree(4, 0, True)
    kw = {k: v for k, v in (("include", inc), ("exclude", exc), ("depth", depth)) if v is not None}
    fs = dict(xleash.installed_filters, put={"func": lambda ranger, lasso: lasso._replace(values=val)})
    ref = "#A1:" + json.dumps(["pipe", ["put", ["recurse", kw]]])
    mon.note("values", val, "ref", ref)
    shown = repr(val)
    mon.eq(xl.lasso(ref, sheet, fs).values, exp, "values of %r over %s" % (ref, shown))
    mon.ev("dict")
    mon.key("dict", ref, shown)


def w_files(rng, mon, i):
    """The same through real workbooks."""
    import openpyxl

    d = os.path.join(mon.tmp, "r%d" % i)
    os.makedirs(d)
    books = [os.path.join(d, "b%d.xlsx" % n) for n in range(rng.randint(1, 2))]
    net, keys = make_net(rng, books, files=True)
    for b in books:
        wb = openpyxl.Workbook()
        wb.remove(wb.active)
        for k in keys:
            if k[0] == b:
                ws = wb.create_sheet(k[1])
                for r, row in enumerate(net.rows[k]):
                    for c, v in enumerate(row):
                        if v is not None:
                            ws.cell(r + 1, c + 1).value = v
                            if isinstance(v, str):
                                ws.cell(r + 1, c + 1).data_type = "s"
                if len(net.full[k]) == 0 or (N - 1, M - 1) not in net.full[k]:
                    ws.cell(N, M).value = 7
                    net.rows[k][N - 1][M - 1] = 7
                    net.full[k] = xl.full_cells(net.rows[k])
        wb.save(b)
        wb.close()
    with SheetsFactory() as sf:
        for _ in range(2):
            run_top(rng, mon, net, keys, sf)
    mon.ev("file")


def w_nested(rng, mon, i):
    """References nested deeper within the cells of the list-of-rows, or in tables & series made of it, stay based on the cell."""
    import pandas as pd

    n, m = rng.randint(2, 4), rng.randint(2, 4)
    rows = [[rng.randrange(1000) if rng.random() < 0.8 else None for _ in range(m)] for _ in range(n)]
    fr, fc = rng.randrange(n), rng.randrange(m)   # not those holding references
    for r in range(n):
        for c in range(m):
            if r != fr and c != fc and rng.random() < 0.6:
                rows[r][c] = "#"
    for r in range(n):
        for c in range(m):
            if rows[r][c] == "#":
                rows[r][c] = rng.choice(["#R%dC." % (fr + 1), "#R.C%d" % (fc + 1)])
    r0, c0 = rng.randrange(n), rng.randrange(m)
    how = rng.choice(["lists", "lists", "deep", "frame", "series"])

    def val(r, c):
        v = rows[r][c]
        if isinstance(v, str):
            mon.ev("own-nested")
            return rows[fr][c] if "C." in v else rows[r][fc]
        return v

    def nest(v, shape):
        for k in shape:
            v = [v] if k == 0 else [v, v] if k == 1 else [None, [v], "txt"]
        return v

    shapes = {(r, c): [rng.randrange(3) for _ in range(rng.randint(1, 3 if how == "deep" else 1))] for r in range(n) for c in range(m)}

    def put(ranger, lasso):
        if how == "frame":
            v = pd.DataFrame(lasso.values, dtype=object)
        elif how == "series":
            v = pd.Series([row[0] for row in lasso.values], index=["k%s" % k for k in range(len(lasso.values))], dtype=object)
        else:
            v = [[nest(x, shapes[r0 + a, c0 + b]) for b, x in enumerate(row)] for a, row in enumerate(lasso.values)]
        return lasso._replace(values=v)

    fs = dict(xleash.installed_filters, put={"func": put})
    ref = '#%s:%s:{"func": "pipe", "args": ["put", "recurse"]}' % (xl.a1(r0, c0), xl.a1(n - 1, m - 1))
    mon.note("rows", rows, "ref", ref, "how", how, "shapes", shapes)
    got = xl.lasso(ref, xl.mem_sheet(rows), fs).values
    flat = [[val(r, c) for c in range(c0, m)] for r in range(r0, n)]
    if how == "frame":
        got = [[None if x != x else x for x in row] for row in got.values.tolist()]
        exp = flat
    elif how == "series":
        got, exp = [None if x != x else x for x in got.tolist()], [row[0] for row in flat]
    else:
        exp = [[nest(x, shapes[r0 + a, c0 + b]) for b, x in enumerate(row)] for a, row in enumerate(flat)]
    mon.check(got == exp, "values of %r over %r as %s: got %r, expected %r", ref, rows, how, got, exp)
    mon.ev("nest:" + how)
    mon.key("nest", ref, repr(rows), how)


WORKLOADS = [("nested", w_nested, 400, 20000), ("net", w_net, 2400, 30000), ("failing", w_failing, 400, 6000), ("dict", w_dict, 600, 12000), ("files", w_files, 48, 1200)]
