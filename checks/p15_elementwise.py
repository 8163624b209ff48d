import copy
import json
from collections import OrderedDict

import pandas as pd
from pandalone import xleash

from pvm import xl

RULE = ("random nestings (up to 5 levels) of lists and dictionaries, and of Series and DataFrames with labels even repeated, over expressions, failing texts and other values, put in place of captured values by "
        "a filter, through pyeval with all include/exclude/depth/eval_all choices and spy sub-filters; reference recursive walker gives the values and "
        "the multiset of visited elements; non-trivial = at least one element evaluated and one not, keyed by values and arguments")
FLOORS = {"evaluated": 2200, "failing-kept": 780, "other-kept": 1800, "excluded": 550, "too-deep": 780, "eval_all-error": 220, "sub-visits": 2000, "cells": 220, "pandas": 500}

GOOD = [("1+1", 2), ("'a'*3", "aaa"), ("[1, '2+2']", [1, "2+2"]), ("{'k': '1+1'}", {"k": "1+1"}), ("(1, 2)", (1, 2)), ("None", None), ("True", True),
        ("not True", False), ("1.5*2", 3.0), ("7 // 2 - 1", 2), ("max(3, 4)", 4), ("len('abc')", 3), ("[x*x for x in [1, 2]]", [1, 4]), ("'é'", "é"),
        ("2**10", 1024), ("'1+1'", "1+1"), ("[]", []), ("{}", {}), ("''", ""), ("1 if False else 0", 0), ("'x y'.upper()", "X Y"),
        ("lasso._replace(values=[5])", [5]), ("xleash.Lasso(values='vv')", "vv"), ("3 == 3.0", True), ("'a' 'b'", "ab"), ("-(-4)", 4),
        ("v_ = 3\nv_ + 1", 4), ("w_ = [1]\nw_", [1]), ("def f_(): return 7\nf_()", 7)]
BAD = ["no_such_name", "1 +", "a b", ")(", "1/0", "'unclosed", "[1,2", "hello world", "é è", "foo(", "x.y.z", "{'a'}['b']", "int('q')", "lambda", "$", "?", "v_", "w_", "f_()", "v_ + 1"]
KEYS = ["a", "b", "c", "1", "x y", "é"]


def others(rng):
    return rng.choice([None, 0, 1, 2.5, True, False, float("inf"), (1, "1+1"), b"1+1", {"1+1"} and frozenset(["1+1"]), 1j])


def rand_tree(rng, depth, n):
    k = rng.random()
    if depth and k < 0.62:
        if rng.random() < 0.5:
            return [rand_tree(rng, depth - 1, n) for _ in range(rng.choice([0, 1, 2, 3, 3, 7]))]
        d = OrderedDict() if rng.random() < 0.2 else {}
        for key in rng.sample(KEYS + [1, None, (1, 2)], rng.choice([0, 1, 2, 3, 3, 6])):
            d[key] = rand_tree(rng, depth - 1, n)
        return d
    n[0] += 1
    k = rng.random()
    if k < 0.45:
        return rng.choice(GOOD)[0]
    return rng.choice(BAD) if k < 0.65 else others(rng)


def rand_pandas(rng, n):
    """With labels at times repeated, and elements nesting others."""
    h, w = rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 6])
    vals = [[rand_tree(rng, 2 if rng.random() < 0.2 else 0, n) for _ in range(w)] for _ in range(h)]
    labels = [rng.choice(KEYS + [1]) for _ in range(h)] if rng.random() < 0.5 else rng.sample(KEYS, h)
    cols = [rng.choice(KEYS) for _ in range(w)] if rng.random() < 0.4 else rng.sample(KEYS, w)

    def column(c):
        s = pd.Series([None] * h, index=labels, dtype=object)
        for r in range(h):
            s.iat[r] = vals[r][c]
        return s

    if rng.random() < 0.5:
        return column(0)
    df = pd.concat([column(c).reset_index(drop=True) for c in range(w)], axis=1)
    df.columns, df.index = cols, labels
    return df


def norm(v):
    """Plain structures in place of any Series and DataFrames."""
    if isinstance(v, pd.Series):
        return ("Series", list(v.index), [norm(x) for x in v.tolist()])
    if isinstance(v, pd.DataFrame):
        return ("DataFrame", list(v.columns), list(v.index), [[norm(x) for x in v.iloc[:, c].tolist()] for c in range(v.shape[1])])
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return type(v)((k, norm(x)) for k, x in v.items())
    return v


GOODS = dict(GOOD)


class Stop(Exception):
    pass


def walk(v, level, a, log, mon):
    """The reference walker."""
    if a["depth"] is not None and a["depth"] == level:
        mon.ev("too-deep")
        return norm(v)
    if isinstance(v, (pd.Series, pd.DataFrame)):
        out = []
        mon.ev("pandas")
        for k, x in v.items():
            ok = level or (not a["include"] or k in a["include"]) and (not a["exclude"] or k not in a["exclude"])
            if not ok:
                mon.ev("excluded")
            out.append(walk(x, level + 1, a, log, mon) if ok else norm(x))
        if isinstance(v, pd.Series):
            return ("Series", list(v.index), out)
        return ("DataFrame", list(v.columns), list(v.index), [x[2] for x in out])
    if isinstance(v, dict):
        out = type(v)()
        for k, x in v.items():
            ok = (not a["include"] or k in a["include"]) and (not a["exclude"] or k not in a["exclude"])
            if not ok:
                mon.ev("excluded")
            out[k] = walk(x, level + 1, a, log, mon) if ok else norm(x)
        return out
    if isinstance(v, list):
        return [walk(x, level + 1, a, log, mon) for x in v]
    if isinstance(v, str):
        if v in GOODS:
            mon.ev("evaluated")
            res = copy.deepcopy(GOODS[v])
            for s in a["subs"]:
                log.append((s, repr(res)))
                if s == "wrap":
                    res = ["w", res]
            return res
        if a["eval_all"]:
            raise Stop(v)
        mon.ev("failing-kept")
        return v
    mon.ev("other-kept")
    return v


def w_tree(rng, mon, i):
    n = [0]
    vals = rand_tree(rng, rng.choice([0, 2, 3, 4, 5]), n)
    a = dict(include=None, exclude=None, depth=-1, eval_all=False, subs=[])
    picky, k = True, rng.random()
    if k < 0.1:
        vals = rand_pandas(rng, n)
    elif k < 0.2:
        vals = rng.choice([lambda p: [1, p, "1+1"], lambda p: {"a": p, 1: "1+1"}, lambda p: [{"b": [p]}]])(rand_pandas(rng, n))
        picky = False
    if rng.random() < 0.35 and picky:
        a["include"] = rng.choice([[], rng.sample(KEYS, rng.randint(1, 4)), rng.choice(KEYS)])
    if rng.random() < 0.35 and picky:
        a["exclude"] = rng.choice([[], rng.sample(KEYS, rng.randint(1, 3)), rng.choice(KEYS)])
    if rng.random() < 0.4:
        a["depth"] = rng.choice([0, 1, 2, 3, 4, 5, -1, -2])
    if rng.random() < 0.3:
        a["eval_all"] = True
    if rng.random() < 0.5:
        a["subs"] = [rng.choice(["spy", "wrap"]) for _ in range(rng.choice([1, 2, 3, 6]))]
    kwds = {k: v for k, v in a.items() if k != "subs" and (not (v is None or v is False or v == -1) or rng.random() < 0.2)}
    if a["subs"] or rng.random() < 0.2:
        kwds["filters"] = [s if rng.random() < 0.5 else [s] for s in a["subs"]]
    m = dict(a)
    for k in ("include", "exclude"):
        if isinstance(m[k], str):
            m[k] = [m[k]]
    log, elog = [], []
    put = copy.deepcopy(vals)

    def spy(ranger, lasso):
        log.append(("spy", repr(lasso.values)))
        return lasso

    def wrap(ranger, lasso):
        log.append(("wrap", repr(lasso.values)))
        return lasso._replace(values=["w", lasso.values])

    fs = dict(xleash.installed_filters, spy={"func": spy}, wrap={"func": wrap}, put={"func": lambda ranger, lasso: lasso._replace(values=put)})
    ref = rng.choice(["#A1", "#A1:B2"]) + ":" + json.dumps(["pipe", ["put", ["pyeval", kwds]]])
    mon.note("values", vals, "ref", ref)
    try:
        exp, err = walk(vals, 0, m, elog, mon), None
    except Stop as ex:
        err = str(ex)
    try:
        got = xl.lasso(ref, xl.mem_sheet([[1, 2], [3, 4]]), fs)
    except ValueError as ex:
        mon.check(err is not None, "%r over %r failed: %s", ref, vals, ex)
        mon.check(repr(err) in str(ex) or err in str(ex), "error of %r over %r does not mention the first failing %r: %s", ref, vals, err, ex)
        mon.eq(log, elog, "sub-filter calls before the error of %r over %r" % (ref, vals))
        mon.ev("eval_all-error")
    else:
        mon.check(err is None, "%r over %r did not fail on %r but gave %r", ref, vals, err, got.values)
        mon.eq(norm(got.values), exp, "values of %r over %r" % (ref, vals))
        mon.eq(sorted(log), sorted(elog), "sub-filter calls of %r over %r" % (ref, vals))
        mon.eq(xl.coords_of(got.st), (0, 0), "st")
    mon.ev("sub-visits", len(elog))
    if elog or n[0] > 1:
        mon.key("tree", repr(vals), ref)


def w_cells(rng, mon, i):
    """The same on captured cells."""
    h, w = rng.choice([1, 2, 3, 4, 8]), rng.choice([1, 2, 3, 4, 7])
    rows = [[rng.choice([rng.choice(GOOD)[0], rng.choice(BAD), rng.randrange(9), None]) for _ in range(w)] for _ in range(h)]
    a = dict(include=None, exclude=None, depth=rng.choice([-1, 0, 1, 2, 3]), eval_all=rng.random() < 0.2, subs=[])
    kind = rng.choice(["rect", "flat", "scalar"])
    pre, ref, vals = [], "#A1:" + xl.a1(h - 1, w - 1), rows
    if kind == "flat":
        pre, vals = [["redim", [1] * 5]], [v for r in rows for v in r]
    elif kind == "scalar":
        ref, vals = "#A1", rows[0][0]
    ref += ":" + json.dumps(["pipe", pre + [["pyeval", [[]], {k: v for k, v in a.items() if k in ("depth", "eval_all")}]]])
    mon.note("cells", rows, "ref", ref)
    try:
        exp = walk(vals, 0, a, [], mon)
    except Stop:
        mon.raises(ValueError, xl.lasso, ref, xl.mem_sheet(rows))
    else:
        mon.eq(xl.lasso(ref, xl.mem_sheet(rows)).values, exp, "values of %r over %r" % (ref, vals))
    mon.ev("cells")
    mon.key("cells", ref, repr(rows))


WORKLOADS = [("tree", w_tree, 8000, 80000), ("cells", w_cells, 500, 8000)]
