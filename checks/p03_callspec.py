import copy

from pvm import refgen, xl

RULE = ("a call (name, args, kwds of random JSON) written in every documented spelling, run through the public lasso() with spy filters; "
        "and corrupted shapes; non-trivial = calls with args or kwds, or corrupted specs, keyed by their JSON")
FLOORS = {"invoked": 8700, "rejected": 1800, "failed": 350, "missing": 110}

SHEET = xl.mem_sheet([["x", 2], [None, 3.5]])
NAMES = ["f", "pipe", "my.filter", "x y", "é", "func", "None", "A1:B2", "lax", "a-b", " f", "f ", "F"]


def spy(log, name):
    def func(ranger, lasso, *args, **kwds):
        log.append((name, copy.deepcopy(list(args)), copy.deepcopy(kwds)))
        for v in list(args) + list(kwds.values()):
            xl.spoil(v)  # The filter uses up what it is given; the next call must not notice.
        return lasso._replace(values=["seen", name])
    return func


class Broken(Exception):
    pass


def failing(log, name, ex):
    note = spy(log, name)

    def func(ranger, lasso, *args, **kwds):
        note(ranger, lasso, *args, **kwds)
        raise ex("no way")
    return func


def run(ref, log):
    filters = {n: {"func": spy(log, n)} for n in NAMES}
    return xl.lasso(ref, SHEET, filters=filters).values


def jv(rng, d=2):
    return refgen.json_value(rng, d)


def w_spellings(rng, mon, i):
    name = rng.choice(NAMES)
    args = [jv(rng) for _ in range(rng.choice([0, 0, 1, 2, 4, 9]))]
    if args and rng.random() < 0.2:
        args[-1] = {k: jv(rng) for k in rng.sample(["a", "b", "lax"], rng.randint(1, 2))}
    kwds = {k: jv(rng) for k in rng.sample(["a", "b", "k 1", "func", "args", "kwds", "opts", "é"], rng.choice([0, 0, 1, 3]))}
    specs = [[name, args, kwds], [name, kwds, args], {"func": name, "args": args, "kwds": kwds}]
    if not kwds:
        specs += [[name, args], [name, args, None], [name, None, args], {"func": name, "args": args}, {"args": args, "kwds": None, "func": name}]
    if not args:
        specs += [[name, kwds], [name, kwds, None], [name, None, kwds], {"func": name, "kwds": kwds}, {"args": None, "kwds": kwds, "func": name}]
    if not args and not kwds:
        specs += [name, [name], [name, None], [name, None, None], [name, [], {}], {"func": name}, {"func": name, "opts": {"x": 1}}]
    for spec in specs:
        ref = rng.choice(["#A1:B2:", "#A1:", "#:", "#::R:"]) + refgen.dumps(rng, spec)
        mon.note("ref=", ref)
        for nth in ("", " again")[:rng.choice([1, 1, 2])]:
            log = []
            vals = run(ref, log)
            mon.ev("invoked")
            mon.eq(log, [(name, args, kwds)], "calls for %r%s" % (ref, nth))
            mon.eq(vals, ["seen", name], "result of %r%s" % (ref, nth))
    if rng.random() < 0.6:
        # A filter that fails has still been invoked once.
        ex = rng.choice([TypeError, TypeError, TypeError, ValueError, KeyError, SyntaxError, AttributeError, IndexError, AssertionError, Broken])
        log = []
        mon.note("failing with", ex)
        mon.raises(ValueError, xl.lasso, ref, SHEET, filters={n: {"func": failing(log, n, ex)} for n in NAMES})
        mon.eq(log, [(name, args, kwds)], "calls of the failing filter of %r" % ref)
        mon.ev("failed")
    if rng.random() < 0.2:
        # A filter that does not exist; its namesakes do.
        log = []
        mon.raises(ValueError, xl.lasso, ref, SHEET, filters={n: {"func": spy(log, n)} for n in NAMES if n != name})
        mon.eq(log, [], "filters invoked in place of the missing one of %r" % ref)
        mon.ev("missing")
    if args or kwds:
        mon.key(name, args, kwds)


def w_corrupt(rng, mon, i):
    name = rng.choice(NAMES)
    args, kwds = [jv(rng, 1)], {"a": jv(rng, 1)}
    nonstr = rng.choice([None, 1, 2.5, True, False, ["f"], {"func": "f"}, [], {}])
    scalar = rng.choice([1, 0, -2.5, True, False, "txt", ""])
    spec = rng.choice([
        [nonstr], [nonstr, args], [nonstr, args, kwds], [name, args, args], [name, kwds, kwds], [name, [], []], [name, {}, {}],
        [name, scalar], [name, scalar, args], [name, args, scalar], [name, kwds, scalar], [name, args, kwds, None], [name, args, kwds, []],
        [name, None, None, None],
        {"func": nonstr}, {"func": nonstr, "args": args}, {"args": args}, {"kwds": kwds}, {"args": args, "kwds": kwds},
        {"func": name, "args": kwds}, {"func": name, "args": scalar}, {"func": name, "kwds": args}, {"func": name, "kwds": scalar},
        {"func": name, "foo": 1}, {"func": name, "args": args, "kwds": kwds, "Func": name}, {"fun": name}, {name + "x": args},
    ])
    ref = rng.choice(["#A1:B2:", "#A1:", "#:"]) + refgen.dumps(rng, spec)
    mon.note("ref=", ref)
    log = []
    mon.raises(ValueError, run, ref, log)
    mon.eq(log, [], "filters invoked by the invalid %r" % ref)
    mon.ev("rejected")
    mon.key("bad", ref)


def w_piped(rng, mon, i):
    """Each stage of a pipe is a call-spec of its own, in any spelling, invoked once and in order."""
    from pandalone.xleash import installed_filters

    log, exp, specs = [], [], []
    for n in range(rng.choice([1, 2, 3, 4, 8])):
        name = rng.choice([x for x in NAMES if x not in ("pipe",)])
        args = [jv(rng, 1) for _ in range(rng.randrange(3))]
        kwds = {k: jv(rng, 1) for k in rng.sample(["a", "b", "c"], rng.randrange(3))}
        exp.append((name, args, kwds))
        alts = [[name, args, kwds], [name, kwds, args], {"func": name, "args": args, "kwds": kwds}]
        if not args and not kwds:
            alts += [name, [name], {"func": name}]
        specs.append(rng.choice(alts))
    filters = {n: {"func": spy(log, n)} for n in NAMES if n != "pipe"}
    filters["pipe"] = installed_filters["pipe"]
    bad = rng.random() < 0.2
    if bad:
        specs.append(rng.choice([[1], [None], {"args": []}, ["f", 1], ["f", [], []], {"func": "f", "x": 1}]))
    ref = "#A1:B2:" + refgen.dumps(rng, ["pipe", specs])
    mon.note("ref=", ref)
    if bad:
        mon.raises(ValueError, xl.lasso, ref, SHEET, filters=filters)
        mon.ev("rejected")
    else:
        for _ in range(rng.choice([1, 1, 2])):
            del log[:]
            xl.lasso(ref, SHEET, filters=filters)
        mon.eq(log, exp, "calls piped by %r" % ref)
        mon.ev("invoked", len(exp))
    mon.key("pipe", ref)


WORKLOADS = [("spellings", w_spellings, 1500, 30000), ("corrupt", w_corrupt, 4000, 80000), ("piped", w_piped, 1000, 30000)]
