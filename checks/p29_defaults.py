"""P29: filling of schema defaults and null removal against a reference defaulter."""
import copy
import itertools
import math

import numpy as np
import pandas as pd
from pandalone.pandata import PandelVisitor

from pvm.core import same

RULE = ("all combinations of the three switches at validator and property level with default/no default, type admitting null or not, and missing/null/NaN/given values; random nested schemas and instances "
        "(dictionaries, lists, Series, tables) against a reference defaulter; schemas and untouched containers compared with before; non-trivial = something was filled, replaced or removed")
FLOORS = {"combo": 13000, "filled": 2400, "replaced": 1000, "removed": 1600, "untouched": 20000, "nested": 2100, "series": 470, "frame": 190, "schema-frame": 16000, "own-switch": 2000, "independent": 740}
SW = [("auto_default", "autoDefault"), ("auto_default_nulls", "autoDefaultNull"), ("auto_remove_nulls", "autoRemoveNull")]


def is_null(x):
    return x is None or isinstance(x, (float, np.floating)) and math.isnan(x)


def admits_null(typ):
    return typ == "null" or isinstance(typ, list) and "null" in typ


_missing = object()


def apply(mon, inst, schema, kw):
    """Reference, in place."""
    if isinstance(inst, (list, tuple)):
        if isinstance(schema.get("items"), dict):
            for x in inst:
                apply(mon, x, schema["items"], kw)
        return
    if not isinstance(inst, dict):
        return
    for k, sub in schema.get("properties", {}).items():
        if isinstance(sub, bool):
            continue

        def on(n):
            arg, key = SW[n]
            own = sub.get(key)
            if own is not None and bool(own) != bool(kw[arg]):
                mon.ev("own-switch")
            return kw[arg] if own is None else own

        v = inst.get(k, _missing)
        nullish = v is not _missing and is_null(v) and not admits_null(sub.get("type"))
        if "default" in sub and v is _missing and on(0):
            inst[k] = copy.deepcopy(sub["default"])
            mon.ev("filled")
        elif "default" in sub and nullish and on(1):
            inst[k] = copy.deepcopy(sub["default"])
            mon.ev("replaced")
        elif nullish and on(2):
            del inst[k]
            mon.ev("removed")
        else:
            mon.ev("untouched")
    for k, sub in schema.get("properties", {}).items():
        if k in inst and isinstance(sub, dict):
            apply(mon, inst[k], sub, kw)
    if isinstance(schema.get("additionalProperties"), dict):
        for k in inst:
            if k not in schema.get("properties", {}):
                apply(mon, inst[k], schema["additionalProperties"], kw)


def default(rng, depth=1):
    if depth and rng.random() < 0.3:
        return rng.choice([{}, {"p": {}}, {"q": 1}, {"p": None}, [], [{}], [None, 1], {"p": {"q": None}}])
    return rng.choice([0, 1, 2.5, "dflt", True, False, "", None])


def rand_schema(rng, depth):
    props = {}
    for k in rng.sample(["p", "q", "r", "s"], rng.randint(1, 4)):
        sub = rand_schema(rng, depth - 1) if depth and rng.random() < 0.45 else {}
        if depth and rng.random() < 0.15:
            sub = {"items": rand_schema(rng, depth - 1)}
        if rng.random() < 0.5:
            sub["default"] = default(rng)
        if rng.random() < 0.4:
            sub["type"] = rng.choice(["null", "number", ["null", "string"], ["object", "string"], "object", ["null"]])
        for _, key in SW:
            if rng.random() < 0.25:
                sub[key] = rng.choice([True, False, None])
        props[k] = sub
        if rng.random() < 0.03:
            props[k] = rng.choice([True, {}])
    s = {"properties": props}
    if rng.random() < 0.1:
        s["required"] = ["p"]
    if depth and rng.random() < 0.1:
        s["additionalProperties"] = rand_schema(rng, depth - 1)
    if rng.random() < 0.5:
        s = dict(reversed(list(s.items())))
    return s


def rand_inst(rng, depth):
    out = {}
    for k in rng.sample(["p", "q", "r", "s", "t"], rng.randrange(6)):
        x = rng.random()
        out[k] = (rng.choice([None, None, float("nan"), np.nan, np.float64("nan")]) if x < 0.35 else rand_inst(rng, depth - 1) if depth and x < 0.7
                  else [rng.choice([rand_inst(rng, depth - 1), None, 1]) for _ in range(rng.randrange(3))] if depth and x < 0.8 else rng.choice([0, 1, "", "txt", False, 2.5]))
    return out


def containers(x, path=()):
    if isinstance(x, (dict, list)):
        yield path, x
        for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
            yield from containers(v, path + (k,))


def rand_kw(rng):
    return {a: rng.choice([True, False, None]) for a, _ in SW}


def run(rng, mon, schema, inst, kw):
    sch, before = copy.deepcopy(schema), copy.deepcopy(schema)
    exp = copy.deepcopy(inst)
    apply(mon, exp, schema, kw)
    orig = copy.deepcopy(inst)
    ids = {p: c for p, c in containers(inst)}
    kw2 = dict(kw)
    if kw2 == {"auto_default": True, "auto_default_nulls": False, "auto_remove_nulls": False} and rng.random() < 0.5:
        kw2 = {}
    list(PandelVisitor(sch, **kw2).iter_errors(inst))
    mon.check(same(inst, exp), "%r validated against %r with %r became %r, expected %r", orig, schema, kw, inst, exp)
    mon.check(same(sch, before), "schema changed to %r from %r", sch, before)
    mon.ev("schema-frame")
    for p, c in containers(inst):
        if p in ids and same(get(orig, p), get(exp, p)):
            mon.check(c is ids[p], "container at %r was replaced", p)
    return sch, before


def get(x, path):
    for k in path:
        if isinstance(x, dict) and k not in x or isinstance(x, list) and k >= len(x) or not isinstance(x, (dict, list)):
            return _missing
        x = x[k]
    return x


def w_nested(rng, mon, i):
    for _ in range(4):
        schema, inst, kw = rand_schema(rng, 3), rand_inst(rng, 3), rand_kw(rng)
        mon.note("schema", schema, "instance", inst, "switches", kw)
        orig = copy.deepcopy(inst)
        sch, before = run(rng, mon, schema, inst, kw)
        mon.ev("nested")
        if not same(orig, inst):
            mon.key(repr(schema), repr(orig), repr(kw))
            # filled values are independent copies
            wreck(inst)
            mon.check(same(sch, before), "modifying the instance changed the schema to %r from %r", sch, before)
            mon.ev("independent")
            again = copy.deepcopy(orig)
            exp = copy.deepcopy(orig)
            apply(mon, exp, schema, kw)
            list(PandelVisitor(sch, **kw).iter_errors(again))
            mon.check(same(again, exp), "2nd instance became %r, expected %r", again, exp)


def wreck(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(v)
        x["wrecked"] = 1
    elif isinstance(x, list):
        for v in x:
            wreck(v)
        x.append("wrecked")


COMBOS = list(itertools.product([True, False, None], repeat=3))


def w_combos(rng, mon, i):
    """All switches; case i for those of the validator."""
    kw = dict(zip([a for a, _ in SW], COMBOS[i % 27]))
    for own in itertools.product([_missing, True, False, None], repeat=3):
        for has_default in (False, True):
            for typ in (_missing, "number", ["number", "null"]):
                for value in (_missing, rng.choice([None, float("nan"), np.float64("nan")]), 7):
                    sub = {} if typ is _missing else {"type": typ}
                    if has_default:
                        sub["default"] = rng.choice([5, 0, [1]])
                    for (_, key), o in zip(SW, own):
                        if o is not _missing:
                            sub[key] = o
                    inst = {"other": None}
                    if value is not _missing:
                        inst["x"] = value
                    schema = {"properties": {"x": sub}}
                    mon.note("schema", schema, "instance", inst, "switches", kw)
                    run(rng, mon, schema, inst, kw)
                    mon.ev("combo")
    mon.key("combos", i % 27)


def w_pandas(rng, mon, i):
    """Series and tables get the same, for scalar defaults."""
    for _ in range(5):
        kw = rand_kw(rng)
        props = {}
        for k in rng.sample(["p", "q", "r", "s"], rng.randint(1, 4)):
            sub = {}
            if rng.random() < 0.6:
                sub["default"] = rng.choice([0, 1, 2.5, "dflt", True])
            if rng.random() < 0.4:
                sub["type"] = rng.choice(["number", ["null", "string"], "null"])
            for _, key in SW:
                if rng.random() < 0.25:
                    sub[key] = rng.choice([True, False, None])
            props[k] = sub
        schema = {"properties": props}
        names = rng.sample(["p", "q", "r", "s", "t"], rng.randint(1, 5))
        if rng.random() < 0.7:
            plain = {k: rng.choice([None, np.nan, 1, "a", 2.5]) for k in names}
            if rng.random() < 0.4:
                plain = {k: rng.choice([np.nan, 1.0, 2.5]) for k in names}
            inst = pd.Series(list(plain.values()), index=names, dtype=object if set(map(type, plain.values())) != {float} else float)
            back = lambda s: {k: None if is_null(v) else v for k, v in s.items()}
            mon.ev("series")
        else:
            n = rng.randint(2, 3)
            plain = {k: [rng.choice([1.0, np.nan, 2.5]) for _ in range(n)] for k in names}
            inst = pd.DataFrame(plain)
            back = lambda df: {k: [None if is_null(v) else v for v in df[k].tolist()] for k in df.columns}
            mon.ev("frame")
        mon.note("schema", schema, "instance", inst, "switches", kw)
        # A lone NaN is null itself, so a wrapped one might get removed.
        wrapped = rng.random() < 0.3 and len(names) > 1
        frame = isinstance(inst, pd.DataFrame)
        exp = copy.deepcopy(plain)
        apply(mon, exp, schema, kw)
        if frame:
            exp = {k: v if isinstance(v, list) else [v] * n for k, v in exp.items()}
        exp = {k: [None if is_null(x) else x for x in v] if isinstance(v, list) else None if is_null(v) else v for k, v in exp.items()}
        sch = copy.deepcopy(schema)
        doc = {"k": inst, "z": [inst]} if wrapped else inst
        list(PandelVisitor({"properties": {"k": sch}} if wrapped else sch, **kw).iter_errors(doc))
        got = back(doc["k"] if wrapped else doc)
        mon.check(got == exp and list(got) == list(exp), "%r became %r, expected %r", plain, got, exp)
        mon.check(same(sch, schema), "schema changed")
        if exp != plain:
            mon.key(repr(schema), repr(plain), repr(kw))


WORKLOADS = [("combos", w_combos, 27, 270), ("nested", w_nested, 1200, 30000), ("pandas", w_pandas, 300, 6000)]
