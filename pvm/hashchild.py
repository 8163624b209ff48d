"""Runs calls all over the code, printing their results: `python hashchild.py SEED START COUNT ORDER`.

Each call has inputs drawn from its own seed, so the lines printed have to be equal in any process and order.
"""
import copy
import importlib
import json
import os
import random
import re
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pvm import core  # noqa: E402

core.setup_imports()
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

from pandalone import components, mappings, pandata, utils, xleash  # noqa: E402
from pvm import maps, models, refgen, xl  # noqa: E402

p16 = importlib.import_module("checks.p16_recurse")
p28 = importlib.import_module("checks.p28_validation")
p30 = importlib.import_module("checks.p30_codec")
p39 = importlib.import_module("checks.p39_schemapaths")


class Events(core.Mon):
    """Monitor of nothing, for the generators asking for one."""

    def __init__(self):
        core.Mon.__init__(self, "P40", "quick", 0)


def text(x):
    """All of it, in its own order."""
    if isinstance(x, pd.DataFrame):
        return "DataFrame(%s, %s, %s)" % (list(x.columns), list(x.index), [text(x.iloc[:, i]) for i in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return "Series(%s, %s, %s)" % (list(x.index), x.dtype, [text(v) for v in x.tolist()])
    if isinstance(x, np.ndarray):
        return "array(%s, %s)" % (x.dtype, text(x.tolist()))
    if isinstance(x, dict):
        return "%s{%s}" % (type(x).__name__, ", ".join("%s: %s" % (text(k), text(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "%s(%s)" % (type(x).__name__, ", ".join(map(text, x)))
    return re.sub(r"0x[0-9a-fA-F]+", "0x", repr(x))


def outcome(fn):
    try:
        return text(fn())
    except Exception as ex:
        return "%s: %s" % (type(ex).__name__, re.sub(r"0x[0-9a-fA-F]+", "0x", str(ex)))


def c_merge(rng):
    subs = [models.submodel(rng, 3, 0) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.2:
        subs = [models.value(rng, "frame", 2, 0) for _ in range(3)]
    strict = models.schema(rng) if rng.random() < 0.5 else {}
    if rng.random() < 0.3:
        strict["additionalProperties"] = rng.choice([False, {"type": "string"}])

    def errors():
        p = models.Model(copy.deepcopy(strict), copy.deepcopy(strict))
        for s in subs:
            p.add_submodel(copy.deepcopy(s))
        return [(list(map(str, e.absolute_path)), e.message) for e in p.build_iter()], p.model

    return outcome(errors)


def c_validate(rng):
    sch = p28.rand_schema(rng, 3, True)
    if isinstance(sch, dict):
        if rng.random() < 0.5:
            sch = {"properties": {"a": sch}, "additionalProperties": rng.choice([False, {"type": "string"}, {"minimum": 9}])}
        if rng.random() < 0.2:
            sch["patternProperties"] = {p: {} for p in rng.sample(["^a", "^b", "z$", "[0-9]", "^f.*r$", "q"], rng.randint(2, 5))}
            sch["additionalProperties"] = False
        sch["$schema"] = rng.choice(p28.DRAFTS[1:])
    inst = p28.plain(rng, 3)
    if rng.random() < 0.6:
        inst = {k: p28.plain(rng, 2) for k in rng.sample(p28.KEYS + ["k1", "k2", "k3"], rng.randint(0, 6))}
    if rng.random() < 0.3:
        inst = pd.DataFrame({k: [1, 2] for k in "pqrstab"[: rng.randint(1, 7)]})

    def errors():
        v = pandata.PandelVisitor(sch, auto_default=rng.random() < 0.3)
        return [(list(map(str, e.absolute_path)), list(map(str, e.absolute_schema_path)), e.message) for e in v.iter_errors(inst)], inst

    return outcome(errors)


def c_mapping(rng):
    names = maps.NAMES
    rules = maps.rand_rules(rng, rng.randint(1, 7))
    paths = [maps.rand_path(rng) for _ in range(6)]

    def mapped():
        pm = mappings.pmods_from_tuples(rules)
        out = [pm, pm.map_paths(paths)]
        p = pm.step(rng.choice(names))
        for _ in range(8):
            q = p
            for n in rng.sample(names, rng.randint(1, 3)):
                q = getattr(q, n)
            if rng.random() < 0.4:
                q._tag(rng.choice("xyz"))
        s = p._paths()
        q = p._schema
        return out, s, list(p._paths(with_orig=True)), [list(p._paths(tag=t)) for t in "xyz"], str(p)

    return outcome(mapped)


def c_component(rng):
    names = maps.NAMES
    rules = maps.rand_rules(rng, rng.randint(0, 4))

    def built():
        comps = []
        for k in range(rng.randint(1, 3)):
            chains = [(rng.random() < 0.5, [rng.choice(names) for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(1, 6))]

            def fn(comp, vtree, chains=chains):
                for out, chain in chains:
                    p = comp.pout() if out else comp.pinp()
                    for n in chain:
                        p = getattr(p, n)

            comps.append(components.FuncComponent(fn, "c%d" % k))
        ass = components.Assembly(comps)
        ass._build(mappings.pmods_from_tuples(rules) if rules else None)
        return ass._inp, ass._out, [(c._inp, c._out) for c in comps]

    return outcome(built)


FILTERS = ['', ':["redim", {"table": 1}]', ':"pyeval"', ':["pyeval", {"include": ["a", "b"]}]', ':"dict"', ':["pipe", [["df", {"header": null}]]]', ':["pipe", ["nope"]]', ':"sorted"', ':"odict"',
           ':["df", {"skip_footer": 1, "chunksize": 2, "date_parser": 0, "converted": 1}]', ':"recurse"', ':{"func": "pyeval", "opts": {"lax": true, "b": {"x": 1}, "a": 0}}', ':["py", ["1/0"]]',
           ':["py", ["{v: k for k, v in enumerate(sorted(str(x) for r in lasso.values for x in r))}"]]']


def c_lasso(rng):
    h, w = rng.randint(2, 4), rng.randint(2, 4)
    rows = [[rng.choice([None, 1, 2.5, "a", "b", "1+1", "#A1", "#A1:B1", "{'z': 1, 'y': 2, 'x': 3}", True]) for _ in range(w)] for _ in range(h)]
    ref = "#%s:%s%s%s" % (rng.choice(["A1", "B2(LU)", "^^", "__(UL)", "A1(RD)", "R.C.", "R1C.(R)", "R-1C2"]), rng.choice(["..", "__", "..(RD)", "B2", "^_(D)"]), rng.choice(["", ":RDLU", ":R1D?"]), rng.choice(FILTERS))
    opts = {"verbose": rng.random() < 0.5, "lax": rng.random() < 0.3}

    def lassoed():
        l = xleash.lasso(ref, sheet=xl.mem_sheet(rows), return_lasso=True, base_opts=opts)
        return l.values, xl.coords_of(l.st), xl.coords_of(l.nd), dict(l.opts)

    return outcome(lassoed)


def c_parse(rng):
    ref = refgen.spell(rng, refgen.compose(rng)[0], blanks=True)
    if rng.random() < 0.3:
        k = rng.randrange(len(ref))
        ref = ref[:k] + rng.choice("!#:[(Zz0") + ref[k + rng.randrange(2):]
    return outcome(lambda: list(xleash.parse_xlref(ref).items()))


def c_paths(rng):
    sch = p39.rand_schema(rng, 3, True)
    return outcome(lambda: pandata.build_all_jsonpaths(sch))


def c_codec(rng):
    o = {"k": [rng.choice([{"b": 1, "a": 2}, [1, "x"], b"by", 1.5, None, pd.Series([1.0, 2.0], index=["p", "q"]), pd.DataFrame({"u": [1], "v": [2]}), np.arange(3.0), 2 + 1j]) for _ in range(3)], "j": {}}

    def both():
        s = json.dumps(o, cls=pandata.JSONCodec.Encoder)
        return s, json.loads(s, cls=pandata.JSONCodec.Decoder)

    return outcome(both)


def c_utils(rng):
    s = rng.choice(["a [kg]", "b", "x [m/s]", "[q]", "q[", "foo[bar] ", "a b [%]"])
    t = rng.choice(["yes", "NO", "1", "maybe", "", "on", "offf", "true"])
    p = rng.choice(["/a/b", "a.xlsx", "/x/../y/", "c/d/", "http://h/p?q=1"])
    return " ".join([outcome(lambda: pandata.parse_value_with_units(s)), outcome(lambda: utils.str2bool(t)), outcome(lambda: utils.ensure_file_ext(p, ".txt", ".xls")), outcome(lambda: utils.path2url(p))])


CALLS = [c_merge, c_validate, c_mapping, c_component, c_lasso, c_parse, c_paths, c_codec, c_utils]


def call(seed, n):
    fn = CALLS[n % len(CALLS)]
    return fn.__name__, fn(random.Random("%s %s" % (seed, n)))


def interleave():
    """Let other threads run between lines of the code under test, every now and then."""
    mon, prefix, rnd = sys.monitoring, core.REPO + "/pandalone/", random.Random(1).random

    def on_line(code, line):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        if rnd() < 0.04:
            time.sleep(1e-6)

    mon.use_tool_id(4, "pvm-threads")
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.set_events(4, mon.events.LINE)


def main(seed, start, count, order):
    """`order`: fwd, back, mix (each twice) or threads (several at once)."""
    idx = list(range(start, start + count))
    out = {n: [] for n in idx}
    if order == "back":
        idx.reverse()
    elif order != "fwd":
        idx = idx + idx
        random.Random("%s %s" % (order, seed)).shuffle(idx)
    if order == "threads":
        todo = iter(idx)
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    n = next(todo, None)
                if n is None:
                    break
                out[n].append(call(seed, n))

        sys.setswitchinterval(2e-5)
        interleave()
        threads = [threading.Thread(target=work) for _ in range(6)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    else:
        for n in idx:
            out[n].append(call(seed, n))
    json.dump([out[n] for n in sorted(out)], sys.stdout)


if __name__ == "__main__":
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
