import copy

from pandalone import xleash
from pandalone.xleash import CallSpec, Cell, Coords, Edge

from pvm import refgen, xl

RULE = ("lasso()/make_default_Ranger() with base options over the defaults; histories of 2-6 lassos on one ranger with random base/own options, context fields and option-mutating spy filters; overlay oracle inside "
        "filters and on results, base options snapshotted around each; fresh-ranger differential; non-trivial = both base and own options given")
FLOORS = {"lasso": 4500, "own+base": 1600, "mutating": 1700, "context": 720, "nested": 1700, "defaults": 890}

KEYS = ["lax", "verbose", "o1", "o2", "o3", "read", "no_empty"]


def val(rng):
    return rng.choice([None, 0, 1, 2.5, "t", [], [1, [2]], {"a": 1}, {"a": {"b": [3]}}, {}, {"c": [{"d": {}}]}, [[[0]]]])


def rand_opts(rng, base):
    d = {}
    for k in rng.sample(KEYS, rng.randint(0, 4)):
        d[k] = rng.random() < 0.5 if k in ("lax", "verbose", "no_empty") else val(rng)
    return d


def filters(rng, log, base):
    def spy(ranger, lasso, *args, **kwds):
        log.append(copy.deepcopy(dict(lasso.opts)))
        return lasso

    def vandal(ranger, lasso, *args, **kwds):
        log.append(copy.deepcopy(dict(lasso.opts)))
        for k, v in list(lasso.opts.items()):
            xl.spoil(v)
        maps = getattr(lasso.opts, "maps", [lasso.opts])
        for m in maps:
            m["vandal"] = True
            m.pop("o1", None)
        return lasso

    return {"spy": {"func": spy}, "vandal": {"func": vandal}, "pipe": xleash.installed_filters["pipe"]}


def w_history(rng, mon, i):
    sheet = xl.mem_sheet([[1, 2], [3, None]])
    base = rand_opts(rng, True)
    snap = copy.deepcopy(base)
    log = []
    fs = filters(rng, log, base)
    ranger = xleash.Ranger(xl.NoFactory(), base_opts=base, available_filters=fs)
    for _ in range(rng.randint(2, 6)):
        own = rand_opts(rng, False) if rng.random() < 0.7 else None
        which = rng.choice(["spy", "vandal", ["spy", "vandal", "spy"], None])
        spec = {} if own is None else {"opts": own}
        if isinstance(which, str):
            spec["func"] = which
        elif which:
            spec.update(func="pipe", args=which)
        ref = "#A1:B2" + (":" + refgen.dumps(rng, spec) if spec else "")
        mon.note("base", snap, "ref", ref)
        del log[:]
        exp = copy.deepcopy(dict(snap, **(own or {})))
        l = ranger.do_lasso(ref, sheet=sheet)
        mon.ev("lasso")
        if log:
            mon.eq(sorted(log[0].items(), key=str), sorted(exp.items(), key=str), "options seen by the first filter of %r over %r" % (ref, snap))
        if which in (None, "spy"):
            mon.eq(sorted(dict(l.opts).items(), key=str), sorted(exp.items(), key=str), "options returned by %r over %r" % (ref, snap))
        else:
            mon.ev("mutating")
        mon.eq(base, snap, "base options after %r" % ref)
        mon.check(ranger.base_opts is base or core_same(ranger.base_opts, snap), "base options of the ranger changed: %r", ranger.base_opts)
        if own and snap:
            mon.ev("own+base")
            mon.key(repr(snap), ref)
        # vandalize what was returned
        for v in l.opts.values():
            if isinstance(v, dict):
                mon.ev("nested")
            xl.spoil(v)
        l.opts["late"] = 1


def core_same(a, b):
    from pvm.core import same

    return same(a, b)


def w_context(rng, mon, i):
    """Fields written in the reference override the context's, omitted ones keep it."""
    rows = xl.fill([[True] * 5 for _ in range(5)])
    sheet, other = xl.mem_sheet(rows), xl.mem_sheet([[7] * 5] * 5)

    class F(xl.NoFactory):
        def fetch_sheet(self, wb, sh, base_sheet=None):
            self.fetches.append((wb, sh, base_sheet is sheet))
            return sheet

    sf = F()
    log = []

    def mk(name):
        def f(ranger, lasso, *a, **k):
            log.append((name, list(a), k))
            return lasso._replace(values=name)
        return {"func": f}

    fs = {"f": mk("f"), "g": mk("g")}
    ctx, ref, exp = {}, "", {}
    url = rng.choice([None, "own.xlsx"])
    curl = rng.choice([None, "ctx.xlsx"])
    sh, csh = rng.choice([None, "own"]), rng.choice([None, "ctx"])
    st = xl.E(("abs", rng.randrange(3)), ("abs", rng.randrange(3)))
    two = rng.random() < 0.5
    nd = xl.E(("abs", rng.randrange(5)), ("abs", rng.randrange(5))) if two else None
    cnd = xl.E(("abs", rng.randrange(5)), ("abs", rng.randrange(5))) if rng.random() < 0.6 else None
    cst = Edge(Cell("5", "E")) if rng.random() < 0.5 else None
    cexp = rng.choice([None, "R1", "DR"])
    oexp = rng.choice([None, "D1", "U1L1"]) if two else None
    call = rng.choice([None, "g"])
    ccall = rng.choice([None, CallSpec("f", [1], {"k": 2}), CallSpec("f", [], {"lax": True})])
    for k, v in (("url_file", curl), ("sh_name", csh), ("st_edge", cst), ("exp_moves", cexp), ("call_spec", ccall),
                 ("nd_edge", cnd and Edge(Cell(str(cnd.row[1] + 1), xl.col_letters(cnd.col[1]))))):
        if v is not None:
            ctx[k] = v
    if rng.random() < 0.5:
        ctx["sheet"] = sheet
    snap = copy.deepcopy({k: v for k, v in ctx.items() if k != "sheet"})
    ref = (url or "") + "#" + (sh + "!" if sh else "") + xl.ref_text(rng, st, nd, oexp, call and [call, ["a"]])[1:]
    ranger = xleash.Ranger(sf, base_opts={"b": 1}, available_filters=fs)
    mon.note("ref", ref, "context", ctx)
    for again in range(2):
        del log[:], sf.fetches[:]
        l = ranger.do_lasso(ref, **ctx)
        mon.eq(sf.fetches[0][:2], (url or curl, sh or csh), "workbook and sheet fetched by %r" % ref)
        mon.eq(sf.fetches[0][2], "sheet" in ctx, "base sheet")
        mon.eq((l.url_file, l.sh_name), (url or curl, sh or csh), "url and sheet of the lasso")
        full = xl.full_cells(rows)
        a, b = xl.m_capture(full, st, nd or cnd, oexp or cexp)
        mon.eq((xl.coords_of(l.st), xl.coords_of(l.nd)), (a, b), "rect of %r with %r" % (ref, ctx))
        if call:
            mon.eq(log, [("g", ["a"], {})], "filter run")
        elif ccall:
            mon.eq(log, [("f", ccall.args, {k: v for k, v in snap["call_spec"].kwds.items() if k != "lax"})], "context filter run")
        else:
            mon.eq(log, [], "no filter")
            mon.eq(l.values, xl.m_values(rows, a, b), "values")
        mon.eq({k: v for k, v in ctx.items() if k != "sheet"}, snap, "context after the lasso")
        mon.eq(dict(l.opts), {"b": 1}, "options")
        mon.ev("context")
    # A context without edges for a reference with only a sheet means the whole sheet
    l = ranger.do_lasso("#s!", sheet=sheet)
    mon.eq(l.values, rows, "whole sheet")
    mon.key("ctx", ref, repr(snap))


def w_independent(rng, mon, i):
    """A lasso's outcome is that of a fresh ranger, whatever was lassoed before."""
    sheet = xl.mem_sheet([["1+1", "#A1", "x"], [1, None, "'a'*2"]])
    base = {"lax": rng.random() < 0.5, "o": {"x": [1]}}
    refs = ['#A1:C2', '#A1:C2:"pyeval"', '#A1:C2:["pyeval",{"eval_all":true}]', '#A1:C2:["pyeval",{"eval_all":true,"lax":true}]',
            '#A1:C2:{"func":"pyeval","opts":{"lax":true}}', '#B1:["recurse"]', '#A1:{"func":"nope"}', '#A1:{"func":"nope","opts":{"lax":true}}',
            '#A1:{"func":"nope","opts":{"lax":false}}', '#Z9(L)', '#Z9:', '#A1:C2:{"opts":{"no_empty":true}}', '#Z9(R):{"opts":{"no_empty":true}}',
            '#A1:["py",["lasso.opts.maps[-1][\'lax\']=True"]]', '#A1:["py",["lasso.opts[\'lax\']=True"]]', '#A1:["py",["ranger.foo=1"]]']

    def out(ranger, ref):
        try:
            l = ranger.do_lasso(ref, sheet=sheet)
            return repr((l.values, l.st, l.nd, sorted(dict(l.opts).items(), key=str)))
        except Exception as ex:
            return "%s" % type(ex).__name__

    ranger = xleash.Ranger(xl.NoFactory(), base_opts=base)
    hist = [rng.choice(refs) for _ in range(rng.randint(3, 7))]
    for ref in hist:
        mon.note("history", hist, "at", ref)
        fresh = xleash.Ranger(xl.NoFactory(), base_opts={"lax": base["lax"], "o": {"x": [1]}})
        mon.eq(out(ranger, ref), out(fresh, ref), "outcome of %r in history %r vs fresh" % (ref, hist))
        mon.ev("lasso")
    mon.key("indep", hist, base["lax"])


DEFAULTS = {"lax": False, "verbose": False, "read": {"on_demand": True}}


def w_defaults(rng, mon, i):
    """lasso(), make_default_Ranger() & get_default_opts() overlay the options given on fresh defaults."""
    sheet = xl.mem_sheet([[1, 2], [3, None]])
    log = []
    for _ in range(rng.randint(1, 4)):
        base = rng.choice([None, {}, rand_opts(rng, True), rand_opts(rng, True)])
        if base and rng.random() < 0.5:
            base.pop("lax", None)
        fs = filters(rng, log, base)
        snap = copy.deepcopy(base)
        own = rand_opts(rng, False) if rng.random() < 0.5 else {}
        spec = {"func": rng.choice(["spy", "vandal"])}
        if own or rng.random() < 0.3:
            spec["opts"] = own
        ref = "#A1:B2:" + refgen.dumps(rng, spec)
        exp = dict(copy.deepcopy(DEFAULTS), **(base or {}))
        exp.update(own)
        mon.note("base", snap, "ref", ref)
        del log[:]
        how = rng.randrange(4)
        kw = {} if base is None and rng.random() < 0.5 else {"base_opts": base}
        if how == 0:
            l = xleash.lasso(ref, sheets_factory=xl.NoFactory(), available_filters=fs, return_lasso=True, sheet=sheet, **kw)
        elif how == 1:
            l = xleash.lasso(ref, xl.NoFactory(), base, fs, True, sheet=sheet)
        else:
            r = xleash.make_default_Ranger(xl.NoFactory(), available_filters=fs, **kw)
            mon.eq(sorted(dict(r.base_opts).items(), key=str), sorted(dict(DEFAULTS, **(snap or {})).items(), key=str), "base options of the ranger")
            l = r.do_lasso(ref, sheet=sheet)
            l = r.do_lasso(ref, sheet=sheet) if how == 3 else l
        for seen in log:
            mon.eq(sorted(seen.items(), key=str), sorted(exp.items(), key=str), "options seen by the filter of %r with base %r over the defaults" % (ref, snap))
        mon.check(len(log) == (2 if how == 3 else 1), "filter ran %d times", len(log))
        if spec["func"] == "spy":
            mon.eq(sorted(dict(l.opts).items(), key=str), sorted(exp.items(), key=str), "options returned by %r with base %r" % (ref, snap))
        mon.eq(base, snap, "base options given")
        got = xleash.get_default_opts(base) if rng.random() < 0.5 else xleash.get_default_opts(overrides=base)
        mon.eq(sorted(got.items()), sorted(dict(copy.deepcopy(DEFAULTS), **(base or {})).items()), "default opts with %r" % base)
        got["read"] = got["late"] = 1
        xleash.get_default_opts()["read"]["late"] = 2
        mon.eq(base, snap, "overrides given")
        mon.ev("defaults")
        if base and own:
            mon.key("def", repr(snap), ref)
    mon.eq(xleash.get_default_opts(), DEFAULTS, "the defaults, afterwards")


WORKLOADS = [("defaults", w_defaults, 800, 20000), ("history", w_history, 2000, 50000), ("context", w_context, 800, 20000), ("independent", w_independent, 400, 8000)]
