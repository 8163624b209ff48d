"""P24: resolve_path() against a reference walker."""
import types

import numpy as np
import pandas as pd
from jsonschema import RefResolutionError
from pandalone import pandata as pd_

from pvm import docs
from pvm.core import same

RULE = ("random documents mixing dictionaries, lists, Series, DataFrames, arrays and objects with attributes; paths to their nodes, attributes and mutations of these, relative and absolute, "
        "with no, other, empty and pandas roots; compared with a reference walker; non-trivial = resolved through two or more kinds of steps")
FLOORS = {"resolved": 3600, "unresolved": 6900, "absolute": 5300, "other-root": 1900, "empty-root": 430, "pandas-root": 730, "attribute": 3500, "index": 2100, "item": 7500, "default": 20000}
KEYS = ["", "a", "b", "_a", "__b", "foo", "0", "1", "k k", "ünï", "shape", "real", "x~y", "a/b", "size", "name"]


class Obj:
    cls_attr = {"in": 5}

    def __init__(self, **kw):
        vars(self).update(kw)

    @property
    def prop(self):
        return ["p0", {"x": 1}]

    @property
    def broken(self):
        raise AttributeError("broken")


class Both(dict):
    """Items prevail over attributes."""

    a = "attr-a"
    only = "attr-only"


def doc_(rng, depth):
    k = rng.random()
    if k < 0.15 and depth:
        return Obj(**{n: doc_(rng, depth - 1) for n in rng.sample(["a", "b", "foo", "real", "_a", "__b", "ünï"], 2)})
    if k < 0.2 and depth:
        return types.SimpleNamespace(a=doc_(rng, depth - 1), **{"foo": 1, "_a": 2})
    if k < 0.25 and depth:
        return Both({n: doc_(rng, depth - 1) for n in rng.sample(["a", "b", "foo"], 2)})
    if k < 0.3:
        return np.array([1.0, 2])
    if k < 0.5 and depth:
        return {n: doc_(rng, depth - 1) for n in rng.sample(KEYS, rng.randint(1, 3))}
    if k < 0.65 and depth:
        return [doc_(rng, depth - 1) for _ in range(rng.randrange(4))]
    if k < 0.8 and depth:
        return docs.doc(rng, 0, keys=KEYS, containers=())
    return rng.choice([None, 3, 2.5, True])


_no, _skip = object(), object()


def step(mon, d, p):
    """-> node, or _no"""
    if isinstance(d, (list, tuple)):
        if p.isascii() and p.isdigit():
            if int(p) < len(d):
                mon.ev("index")
                return d[int(p)]
    elif isinstance(d, dict):
        if p in d:
            mon.ev("item")
            return d[p]
    elif isinstance(d, (pd.Series, pd.DataFrame)):
        if isinstance(d, pd.Series) and docs.intlike(p) and (d.index.dtype == object or str(int(p)) != p or int(p) < 0):
            return _skip
        for k, v in docs.children(d):
            if k == p:
                mon.ev("item")
                return v
    try:
        r = getattr(d, p)
    except AttributeError:
        return _no
    mon.ev("attribute")
    return r


def walk(mon, doc, root, path):
    steps = path.split("/")
    node = doc
    if steps[0] == "":
        node = doc if root is None else root
        steps = steps[1:]
    for s in steps:
        if isinstance(node, (str, bytes)):
            return _skip
        node = step(mon, node, s.replace("~1", "/").replace("~0", "~"))
        if not s:
            if node is _no:
                return _skip  # an empty step, yet not a key
            mon.ev("empty-key")
        if node is _no or node is _skip:
            break
    return node


def rand_path(rng, d):
    out = []
    for _ in range(rng.randint(1, 5)):
        kids = docs.children(d)
        names = [n for n in vars(d)] + ["prop", "cls_attr"] if isinstance(d, (Obj, types.SimpleNamespace)) else []
        k = rng.random()
        if names and k < 0.8:
            n = rng.choice(names)
            out.append(n)
            d = getattr(d, n, None)
        elif kids and k < 0.85:
            n, d = rng.choice(kids)
            out.append(n)
        else:
            out.append(rng.choice(KEYS + ["zz", "only", "broken", "shape", "real", "append", "7", "T", "index", "dtype", "columns"]))
            d = getattr(d, out[-1], None)
        if d is None and rng.random() < 0.7:
            break
    return "/".join(docs.escape(p) for p in out)


def eq(got, exp):
    if callable(exp) and not isinstance(exp, type):
        return callable(got) and getattr(got, "__name__", 0) == getattr(exp, "__name__", 0)
    if isinstance(exp, (np.ndarray, pd.Index)):
        return type(got) is type(exp) and got.tolist() == exp.tolist()
    if isinstance(exp, (dict, list)) and not isinstance(exp, Both) and got is not exp:
        return type(got) is type(exp) and got == exp  # from properties
    return same(got, exp)


def w_paths(rng, mon, i):
    doc = doc_(rng, 4)
    while doc is None or isinstance(doc, (int, float)):
        doc = doc_(rng, 4)
    for _ in range(12):
        root = None
        k = rng.random()
        if k < 0.2:
            root = doc_(rng, 3)
        elif k < 0.3:
            root = rng.choice([{}, [], pd.Series([], dtype=float), pd.DataFrame(), 0, False, ""])
        elif k < 0.38:
            root = docs.doc(rng, 1, keys=KEYS, containers=())
        src = doc
        absolute = rng.random() < 0.5
        if absolute and root is not None:
            src = root
        path = ("/" if absolute else "") + rand_path(rng, src)
        if absolute and rng.random() < 0.05:
            path = ""  # just the root
        if absolute and isinstance(root, str):
            path = ""
        mon.note("doc", doc, "root", root, "path", path)
        exp = walk(mon, doc, root, path) if path else (doc if root is None else root)
        if exp is _skip:
            continue
        kw = {} if root is None and rng.random() < 0.7 else {"root": root}
        if absolute:
            mon.ev("absolute")
            if root is not None:
                mon.ev("other-root")
                if isinstance(root, (pd.Series, pd.DataFrame)):
                    mon.ev("pandas-root")
                if hasattr(root, "__len__") and not len(root):
                    mon.ev("empty-root")
        if exp is _no:
            ex = mon.raises(RefResolutionError, pd_.resolve_path, doc, path, **kw)
            mon.check(repr(path) in str(ex) or path in str(ex), "error does not name the path: %s", ex)
            for d in (None, 0, mon):
                mon.check(pd_.resolve_path(doc, path, d, **kw) is d, "default %r not given for %r", d, path)
                mon.ev("default")
            mon.ev("unresolved")
        else:
            got = pd_.resolve_path(doc, path, **kw)
            mon.check(eq(got, exp), "path %r from %r (root %r): %r, expected %r", path, doc, root, got, exp)
            got = pd_.resolve_path(doc, path, "dflt", **kw)
            mon.check(eq(got, exp), "path %r from %r (root %r) with default: %r, expected %r", path, doc, root, got, exp)
            mon.ev("resolved")
            mon.key(path, repr(kw), repr(type(exp)))


WORKLOADS = [("paths", w_paths, 2000, 40000)]
