import json

from pandalone import xleash
from pandalone.xleash import EmptyCaptureException

from pvm import refgen, xl
from pvm.core import same

RULE = ("random filter pipelines (nested pipes, spies, filters failing with assorted exceptions, missing filters) under all lax/verbose settings from base, "
        "own opts and call keywords, run against an outcome automaton; failing/empty targeting; failing factories; close events of own/user factories; "
        "non-trivial = some stage failed, keyed by pipeline and settings")
FLOORS = {"other-values": 500, "inspected": 100, "inspected-failure": 100, "failed": 530, "contained": 530, "verbose-pair": 2700, "empty": 740, "no_empty": 360, "open-failed": 180, "own-closed": 88, "user-kept": 91, "sub-lax": 220, "later-stage-ran": 220, "python-good": 90, "python-bad": 90, "non-text": 220}


class Odd(Exception):
    pass


EXCS = [ValueError("v"), KeyError("k"), TypeError("t%s %d"), Odd(), AssertionError("a"), SyntaxError("s"), StopIteration(), RuntimeError("x\ny"),
        EmptyCaptureException("e"), OSError(2, "no"), AttributeError("at"), IndexError(), ZeroDivisionError("z"), UnicodeDecodeError("utf8", b"x", 0, 1, "u"),
        NotImplementedError(), RecursionError("deep")]


class Boom(Exception):
    """The model says the call fails; arg: name of the failing part."""


def make_filters(log):
    def spy(ranger, lasso, tag=None, **kwds):
        """Docs of spy."""
        log.append((tag, repr(lasso.values), sorted(kwds)))
        return lasso._replace(values=["spied", tag, lasso.values])

    def boom(ranger, lasso, n=0, *args, **kwds):
        log.append(("boom", repr(lasso.values), sorted(kwds)))
        raise EXCS[n]

    def undocumented(ranger, lasso, n=0, **kwds):
        log.append(("boom", repr(lasso.values), sorted(kwds)))
        raise EXCS[n]

    def badret(ranger, lasso, *args, **kwds):
        """Returns 100% no lasso."""
        return lasso.values

    undocumented.__doc__ = None
    return {"pipe": xleash.installed_filters["pipe"], "spy": {"func": spy}, "boom": {"func": boom, "desc": "100% described"}, "undoc": {"func": undocumented}, "badret": {"func": badret},
            "builtin": {"func": dict.update}, "nofunc": {"func": 5}, "badrec": {"foo": 1}}


FAILING = ["boom", "boom", "undoc", "badret", "missing", "builtin", "nofunc", "badrec", "mis sing"]


def rand_stage(rng, depth, n):
    k = rng.random()
    kwds = {}
    if rng.random() < 0.35:
        kwds["lax"] = rng.random() < 0.6
    if depth and k < 0.2:
        return ("pipe", [rand_stage(rng, depth - 1, n) for _ in range(rng.randint(0, 3))], kwds)
    if k < 0.6:
        n[0] += 1
        return ("spy", ["s%d" % n[0]], kwds)
    name = rng.choice(FAILING)
    return (name, [rng.randrange(len(EXCS))] if name in ("boom", "undoc") else [], kwds)


def to_json(rng, stage):
    name, args, kwds = stage
    if name == "pipe":
        args = [to_json(rng, s) for s in args]
    k = rng.randrange(3)
    if k == 0 and not args and not kwds:
        return name
    if k == 1:
        d = {"func": name}
        if args:
            d["args"] = args
        if kwds:
            d["kwds"] = kwds
        return d
    return [name] + ([args] if args or kwds else []) + ([kwds] if kwds else [])


def m_run(stage, vals, lax_opt, log, st):
    """The outcome automaton."""
    name, args, kwds = stage
    lax = kwds.get("lax", lax_opt)
    try:
        if name == "spy":
            log.append((args[0], repr(vals), []))
            if st["contained"]:
                st["later"] = True
            return ["spied", args[0], vals]
        if name == "pipe":
            out = vals
            for s in args:
                out = m_run(s, out, lax_opt, log, st)
            return out
        if name in ("boom", "undoc"):
            log.append(("boom", repr(vals), []))
        raise Boom(name)
    except Boom:
        if not lax:
            raise
        st["contained"] += 1
        return vals


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as ex:
        return (type(ex).__name__, str(ex), ex)


def w_pipeline(rng, mon, i):
    log, mlog = [], []
    fs = make_filters(log)
    stage = ("pipe", [rand_stage(rng, 2, [0]) for _ in range(rng.randint(1, 5))], {}) if rng.random() < 0.8 else rand_stage(rng, 0, [0])
    if rng.random() < 0.2:
        stage[2]["lax"] = rng.random() < 0.6
    base, own = {}, {}
    for d in (base, own):
        if rng.random() < 0.4:
            d["lax"] = rng.random() < 0.5
    lax_opt = own.get("lax", base.get("lax", False))
    spec = to_json(rng, stage)
    if own or isinstance(spec, dict):
        if isinstance(spec, str):
            spec = {"func": spec}
        elif isinstance(spec, list):
            d = {"func": spec[0]}
            for p in spec[1:]:
                d["args" if isinstance(p, list) else "kwds"] = p
            spec = d
        if own:
            spec["opts"] = own
    edges, cells, vals = "A1:B1", [[1, "x"]], [[1, "x"]]
    k = rng.random()
    if k < 0.3:
        edges, vals = "A1", rng.choice([0, "", False, 0.0, "x", -1])
        cells = [[vals]]
    elif k < 0.4:
        edges, cells, vals = rng.choice([("B1(R):..", [[1, None]], []), ("A1:..", [[0]], [[0]]), ("A2:A3", [[1], [None], [None], [2]], [[None], [None]])])
    if vals != [[1, "x"]]:
        mon.ev("other-values")
    ref = "#%s:" % edges + json.dumps(spec)
    mon.note("ref", ref, "base", base)
    st = dict(contained=0, later=False)
    try:
        exp = ("ok", m_run(stage, vals, lax_opt, mlog, st))
    except Boom as ex:
        exp = ("ValueError", str(ex))
    seen = []
    for verbose in (False, True):
        del log[:]
        b = dict(base, verbose=verbose) if verbose or rng.random() < 0.5 else dict(base)
        got = outcome(lambda: xl.lasso(ref, xl.mem_sheet(cells), fs, b).values)
        mon.check(got[0] == exp[0], "%r with base opts %r gave %r, expected %r", ref, b, got[:2], exp)
        if exp[0] == "ok":
            mon.eq(got[1], exp[1], "values of %r with base opts %r" % (ref, b))
        else:
            mon.check(type(got[2]) is ValueError and exp[1] in got[1], "message of %r lacks the failing filter %r: %s", ref, exp[1], got[1])
        mon.eq(log, mlog, "filters run by %r with base opts %r" % (ref, b))
        seen.append(log[:])
        mon.ev("verbose-pair")
    if exp[0] != "ok":
        mon.ev("failed")
    if st["contained"]:
        mon.ev("contained")
        if st["later"]:
            mon.ev("later-stage-ran")
    if exp[0] != "ok" or st["contained"]:
        mon.key(ref, base)


def w_sublax(rng, mon, i):
    """Calls applied to each element obey their lax, each time."""
    log = []
    fs = make_filters(log)
    n = rng.randint(1, 5)
    cells = [rng.choice(["%d+%d" % (rng.randrange(9), rng.randrange(9)), rng.randrange(99), None, "'t'*%d" % rng.randrange(3), "no such"]) for _ in range(n)]
    sublax = rng.choice([None, True, False])
    lax = rng.choice([None, True, False])
    kwds = {} if sublax is None else {"lax": sublax}
    subs = [["spy", ["a"]], ["boom", [rng.randrange(len(EXCS))], kwds], ["spy", ["b"]]]
    ref = "#A1:%s:" % xl.a1(0, n - 1) + json.dumps({"func": "pyeval", "kwds": {"filters": subs}, "opts": {} if lax is None else {"lax": lax}})
    eff = lax if sublax is None else sublax
    exprs = {c: eval(c) for c in cells if isinstance(c, str) and c != "no such"}
    mon.note("cells", cells, "ref", ref)
    res = []
    for verbose in (False, True):
        del log[:]
        got = outcome(lambda: xl.lasso(ref, xl.mem_sheet([cells]), dict(xleash.installed_filters, **fs), {"verbose": verbose}).values)
        res.append(got[:2] if got[0] == "ok" else got[0])
        if not exprs or eff:
            exp = [[["spied", "b", ["spied", "a", exprs[c]]] if c in exprs else c for c in cells]]
            mon.check(got[0] == "ok", "%r over %r failed: %r", ref, cells, got[:2])
            mon.eq(got[1], exp, "values of %r" % ref)
            mon.eq([t for t, _, _ in log], ["a", "boom", "b"] * sum(c in exprs for c in cells), "calls made by %r" % ref)
            mon.ev("sub-lax")
        elif lax:
            mon.check(got[0] == "ok", "%r over %r not contained: %r", ref, cells, got[:2])
        else:
            mon.check(got[0] == "ValueError" and "boom" in got[1], "%r over %r gave %r, expected ValueError", ref, cells, got[:2])
    mon.check(same(res[0], res[1]), "verbose changes the outcome of %r over %r: %r vs %r", ref, cells, res[0], res[1])
    mon.key("sub", ref, tuple(map(repr, cells)))


def w_empty(rng, mon, i):
    """Failed targeting: empty, or an error if asked."""
    h, w = rng.randint(1, 5), rng.randint(1, 5)
    rows = xl.fill(xl.rand_mask(rng, h, w))
    full = xl.full_cells(rows)
    if not full:
        return
    st = xl.E(("abs", rng.randrange(8)), ("abs", rng.randrange(8)), rng.choice(xl.MOVES + [None]), None)
    nd = None
    if rng.random() < 0.5:
        nd = xl.E(rng.choice(["^", "_", ".", ("abs", rng.randrange(8))]), rng.choice(["^", "_", ".", ("abs", rng.randrange(8))]),
                  rng.choice(xl.MOVES + [None]), None)
    base, own = {}, {}
    for d in (base, own):
        if rng.random() < 0.5:
            d["no_empty"] = rng.choice([True, False, 1, 0, None])
        if rng.random() < 0.3:
            d["lax"] = True
    no_empty = bool(own.get("no_empty", base.get("no_empty")))
    log = []
    fs = make_filters(log)
    spec = dict(func="spy", args=["t"], opts=own) if rng.random() < 0.5 else dict(opts=own)
    ref = xl.ref_text(rng, st, nd, None, spec)
    mon.note("cells", xl.draw(rows), "ref", ref, "base", base)
    try:
        xl.m_capture(full, st, nd)
        empty = False
    except xl.Empty:
        empty = True
    sheet = xl.mem_sheet(rows)
    res = []
    for verbose in (False, True):
        del log[:]
        got = outcome(lambda: xl.lasso(ref, sheet, fs, dict(base, verbose=verbose)))
        if empty and no_empty:
            mon.check(got[0] != "ok" and isinstance(got[2], EmptyCaptureException), "%r base %r gave %r, expected EmptyCaptureException", ref, base, got[:2])
            mon.eq(log, [], "filters run")
            mon.ev("no_empty")
        elif empty:
            mon.check(got[0] == "ok", "%r base %r gave %r, expected empty", ref, base, got[:2])
            l = got[1]
            mon.eq(l.values, ["spied", "t", []] if "func" in spec else [], "empty values of %r" % ref)
            mon.eq((l.st, l.nd), (None, None), "rect of an empty capture")
            mon.ev("empty")
            mon.key("empty", ref, xl.draw(rows))
        else:
            mon.check(got[0] in ("ok", "IndexError"), "%r gave %r", ref, got[:2])  # out-of-bounds cells belong to P07
            mon.ev("captured")


class BadFactory:
    def __init__(self, exc):
        self.exc = exc

    def fetch_sheet(self, wb, sh, base_sheet=None):
        raise self.exc


class Unreadable(xl.ArraySheet):
    def __init__(self, exc):
        xl.ArraySheet.__init__(self, xl.obj_array([[1, 2], [None, 3]]), xl.SheetId("wb", ["s", 0]))
        self.exc = exc

    def _read_states_matrix(self):
        raise self.exc


def w_open(rng, mon, i):
    """Whatever fails when opening is a ValueError naming workbook & sheet; bad arguments too."""
    exc = rng.choice(EXCS)
    wb = rng.choice(["no/such.xls", "wb.xlsx", None])
    sh = rng.choice(["Sheet9", "3", None])
    ref = "%s#%sA1" % (wb or "", sh + "!" if sh else "")
    opts = {k: True for k in ("lax", "verbose", "no_empty") if rng.random() < 0.4}
    mon.note("ref", ref, "failing with", repr(exc), opts)
    got = outcome(lambda: xleash.lasso(ref, sheets_factory=BadFactory(exc), base_opts=opts))
    mon.check(got[0] == "ValueError", "%r with failing open gave %r, expected ValueError", ref, got[:2])
    for part in (wb, sh):
        mon.check(part is None or part in got[1], "message lacks %r: %s", part, got[1])
    if i % 4 == 0:
        # The real factory
        import os

        d = os.path.join(mon.tmp, "o%d" % i)
        os.makedirs(d)
        bad = os.path.join(d, rng.choice(["none.xls", "text.xlsx", "empty.xls", "dir.xls"]))
        if "text" in bad or "empty" in bad:
            with open(bad, "w") as fd:
                fd.write("hello" * 100 if "text" in bad else "")
        elif "dir" in bad:
            os.makedirs(bad)
        got = outcome(lambda: xleash.lasso(bad + "#S1!A1", base_opts=opts))
        mon.check(got[0] == "ValueError" and "S1" in got[1] and os.path.basename(bad) in got[1], "%r gave %r, expected ValueError", bad, got[:2])
    got = outcome(lambda: xleash.lasso(rng.choice([None, 5, b"#A1", ["#A1"]]), base_opts=opts))
    mon.check(got[0] == "ValueError", "non-string reference gave %r", got[:2])
    # Not knowing its full cells, nothing can be located in a sheet.
    edges = rng.choice(["A1(DR)", "A1:..(D)", "_^", "R-1C2:..:LURD"])
    got = outcome(lambda: xleash.lasso("#" + edges, sheet=Unreadable(exc), base_opts=opts))
    if not isinstance(exc, EmptyCaptureException):
        mon.check(got[0] == "ValueError", "%r on a sheet failing with %r gave %r, expected ValueError", edges, exc, got[:2])
    for factory in (None, False):
        mon.raises(ValueError, xleash.Ranger, factory)
    mon.ev("open-failed")
    mon.key("open", ref, repr(exc), sorted(opts))


class SpySheet(xl.ArraySheet):
    """Logs its closing, fails on demand."""

    def __init__(self, fail, wb, log):
        xl.ArraySheet.__init__(self, xl.obj_array([[1, "1+"], [2, None]]), xl.SheetId(wb, ["s", 0]))
        self.fail, self.log = fail, log

    def _close(self):
        self.log.append("close")

    def _close_all(self):
        self.log.append("close_all")

    def read_rect(self, st, nd):
        if self.fail == "read":
            raise Odd("read")
        return xl.ArraySheet.read_rect(self, st, nd)

    def _read_states_matrix(self):
        if self.fail == "states":
            raise Odd("states")
        return xl.ArraySheet._read_states_matrix(self)


def w_close(rng, mon, i):
    from pandalone.xleash.io.backend import ABCBackend, SheetsFactory

    log = []
    fail = rng.choice([None, "read", "states", "filter", "nofilter", "empty", "parse", "open", "laxfilter", "base_exc"])

    class B(ABCBackend):
        def bid(self, url):
            return 10 ** 6 if url and "spybook" in url else None

        def open_sheet(self, wb_url, sheet_id):
            if fail == "open":
                raise Odd("open")
            log.append("open")
            return SpySheet(fail, wb_url, log)

        def list_sheetnames(self, wb_url):
            return ["s"]

    class Abort(BaseException):
        pass

    def boom(ranger, lasso):
        raise Abort() if fail == "base_exc" else Odd("filter")

    ref = "spybook.xls#s!"
    ref += {"parse": "A1:B2:{", "empty": 'D9(R):{"opts":{"no_empty":true}}', "filter": 'A1:B2:"boom"', "nofilter": 'A1:B2:"none"',
            "laxfilter": 'A1:B2:{"func":"boom","opts":{"lax":true}}', "states": "^^:__", "base_exc": 'A1:"boom"'}.get(fail, "A1:B2")
    mon.note("failing", fail)
    backends = xleash.io_backends
    b = B()
    backends.insert(0, b)
    try:
        user = SheetsFactory() if rng.random() < 0.5 else None
        if user and rng.random() < 0.5:
            u2 = []
            user.add_sheet(SpySheet(None, "other", u2), "other", "s")
        else:
            u2 = None
        try:
            xleash.lasso(ref, sheets_factory=user, available_filters={"boom": {"func": boom}})
            ok = True
        except (Exception, Abort):
            ok = False
        mon.eq(ok, fail in (None, "laxfilter"), "success with failure %r" % fail)
        opened = log.count("open")
        mon.eq(opened, 0 if fail in ("parse", "open") else 1, "sheets opened")
        closes = [e for e in log if e != "open"]
        if user is None:
            mon.check(len(closes) >= opened, "sheet left open by lasso()'s own factory on %r: %r", fail, log)
            mon.ev("own-closed")
        else:
            mon.eq(closes, [], "closings of sheets of the user's factory on %r" % fail)
            if opened:
                sh = user.fetch_sheet("spybook.xls", "s")
                mon.eq((log.count("open"), type(sh).__name__), (1, "SpySheet"), "sheet still cached in the user's factory")
            if u2 is not None:
                mon.eq(u2, [], "closings of other sheets in the user's factory")
                mon.eq(xleash.lasso("other#s!A1", sheets_factory=user), 1, "lasso on it again")
            user.close()
            mon.check(len([e for e in log if e != "open"]) >= opened, "sheet left open after closing the factory: %r", log)
            mon.ev("user-kept")
    finally:
        backends.remove(b)
    mon.key("close", fail, user is None, u2 is None)


def w_inspect(rng, mon, i):
    """The intermediate lasso of a ranger tells how far its last lasso went."""
    rows = [[1, "x", None], [2.5, None, True], [None, None, 7]]
    sheet = xl.mem_sheet(rows)

    def boom(ranger, lasso):
        raise Odd("filter")

    def wrap(ranger, lasso):
        return lasso._replace(values=["w", lasso.values])

    fs = {"boom": {"func": boom}, "wrap": {"func": wrap}, "pipe": xleash.installed_filters["pipe"]}
    class Unreadable(type(sheet)):
        def read_rect(self, *args, **kwds):
            raise Odd("read")

    torn = xl.mem_sheet(rows)
    torn.__class__ = Unreadable
    ranger = xleash.Ranger(xl.NoFactory(), base_opts={"o": 1}, available_filters=fs)
    mon.check(ranger.intermediate_lasso is None, "intermediate lasso %r before any lasso", ranger.intermediate_lasso)
    for _ in range(rng.randint(1, 5)):
        st = xl.E(("abs", rng.randrange(3)), ("abs", rng.randrange(3)))
        nd = xl.E(("abs", rng.randrange(3)), ("abs", rng.randrange(3)))
        a, b = xl.m_capture(xl.full_cells(rows), st, nd, None)
        vals = xl.m_values(rows, a, b)
        kind = rng.choice(["ok", "boom", "wrap", "wrap-boom", "none", "empty", "parse", "json", "nosheet", "lax-boom", "noread"])
        spec = {"boom": "boom", "wrap": "wrap", "wrap-boom": ["pipe", ["wrap", "boom"]], "none": "nope", "json": {"func": 1}, "empty": {"opts": {"no_empty": True}},
                "lax-boom": {"func": "boom", "opts": {"lax": True}}}.get(kind)
        ref = "#Z9(R)" if kind == "empty" else xl.ref_text(rng, st, nd, None, None)
        ref += ":" + refgen.dumps(rng, spec) if spec else "!!" if kind == "parse" else ""
        mon.note("ref", ref, kind)
        try:
            res = ranger.do_lasso(ref, **({} if kind == "nosheet" else {"sheet": torn if kind == "noread" else sheet}))
        except (ValueError, SyntaxError, EmptyCaptureException, Odd):
            res = None
        mon.check((res is not None) == (kind in ("ok", "wrap", "lax-boom")), "%r %s", ref, "succeeded" if res else "failed")
        got = ranger.intermediate_lasso
        mon.check(type(got) is tuple and len(got) == 2 and isinstance(got[0], str) and isinstance(got[1], xleash.Lasso), "intermediate lasso %r", got)
        l = got[1]
        mon.check(l.opts.get("o") == 1, "options %r of the intermediate lasso", l.opts)
        mon.check(l.sheet is {"nosheet": None, "noread": torn}.get(kind, sheet), "sheet %r of the intermediate lasso", l.sheet)
        mon.check(l.xl_ref in ([None, ref] if kind in ("parse", "json") else [ref]), "reference of the intermediate lasso of %r: %r", ref, l.xl_ref)
        if kind in ("parse", "json"):
            mon.check(l.st_edge is l.nd_edge is l.call_spec is None, "fields of an unparsed reference: %r", l)
        else:
            mon.check(l.st_edge is not None, "no edge in the intermediate lasso of %r", ref)
        if kind in ("parse", "json", "nosheet", "empty"):
            mon.check(l.st is l.nd is l.values is None, "captured coordinates or values after %r failed: %r", ref, l)
        else:
            mon.eq((xl.coords_of(l.st), xl.coords_of(l.nd)), (a, b), "rect of the intermediate lasso of %r" % ref)
            wrapped = ["w", vals]
            mon.check(l.values in {"wrap-boom": [wrapped], "wrap": [vals, wrapped], "noread": [None]}.get(kind, [vals]), "values of the intermediate lasso of %r: %r", ref, l.values)
        mon.ev("inspected" if res else "inspected-failure")
        mon.key("inspect", ref)


GOOD_PY = [("1+1", 2), ("lasso.values", None), ("[lasso.values, 1]", [None, 1]), ("x_ = 3\nx_ * 2", 6), ("lasso._replace(values=['own'])", ["own"]), ("xleash.Lasso(values='bare')", "bare"), ("None", None),
           ("lasso.sheet is not None", True), ("ranger is not None", True)]
BAD_PY = ["1/0", "no_such", "1 +", ")(", "raise KeyError('k')", "lasso.nope", "int('q')", "x_ = 1\nx_ / 0", "assert False", "[][1]", "'unclosed"]


def w_python(rng, mon, i):
    """Python expressions filtering values as a whole."""
    log = []
    fs = make_filters(log)
    good = rng.random() < 0.5
    expr, val = rng.choice(GOOD_PY) if good else (rng.choice(BAD_PY), None)
    lax, own, after = rng.choice([None, True, False]), rng.choice([None, True, False]), rng.random() < 0.5
    kwds = {} if own is None else {"lax": own}
    cells = [[rng.choice([1, "a", None, 2.5, "1+1"])]]
    call = ["py", [expr], kwds]
    js = {"func": "pipe", "args": [call, ["spy", ["t"]]]} if after else {"func": "py", "args": [expr], "kwds": kwds}
    js["opts"] = {} if lax is None else {"lax": lax}
    ref = "#A1:" + json.dumps(js)
    mon.note("cells", cells, "ref", ref)
    v = cells[0][0]
    res = []
    for verbose in (False, True):
        del log[:]
        got = outcome(lambda: xl.lasso(ref, xl.mem_sheet(cells), dict(xleash.installed_filters, **fs), {"verbose": verbose}).values)
        res.append(got[:2] if got[0] == "ok" else got[0])
        contained = bool(lax if own is None else own)
        if good or contained:
            exp = v if not good else v if expr == "lasso.values" else [v, 1] if expr.startswith("[lasso") else val
            mon.check(got[0] == "ok", "%r over %r failed: %r", ref, cells, got[:2])
            mon.eq(got[1], ["spied", "t", exp] if after else exp, "values of %r over %r" % (ref, cells))
            mon.check(len(log) == after, "later calls of %r over %r: %r", ref, cells, log)
        elif not lax:
            mon.check(got[0] == "ValueError", "%r over %r gave %r, expected ValueError", ref, cells, got[:2])
            mon.check(expr in got[1] or repr(expr) in got[1], "error of %r does not mention it: %s", expr, got[1])
            mon.check(log == [], "calls made after the failed one: %r", log)
    mon.check(same(res[0], res[1]), "verbose changes the outcome of %r over %r: %r vs %r", ref, cells, res[0], res[1])
    mon.ev("python-good" if good else "python-bad")
    mon.key("py", ref)
    bad = rng.choice([None, 5, b"#A1", ["#A1"], object(), ("#A1",), {"a": 1}, 1.5, True])
    r = xleash.make_default_Ranger(sheets_factory=None)
    try:
        got = r.do_lasso(bad, sheet=xl.mem_sheet(cells))
    except Exception:
        mon.ev("non-text")
    else:
        mon.fail("lassoing %r gave %r" % (bad, got))


WORKLOADS = [("python", w_python, 500, 6000), ("pipeline", w_pipeline, 3000, 60000), ("sublax", w_sublax, 400, 5000), ("empty", w_empty, 2000, 40000), ("open", w_open, 400, 4000), ("inspect", w_inspect, 400, 8000),
             ("close", w_close, 400, 6000)]
