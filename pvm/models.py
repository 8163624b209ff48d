"""Random submodels & schemas for Pandel, a reference merger and a reference defaulter."""
import copy

import numpy as np
import pandas as pd
from pandalone.pandata import Pandel

from .core import same

# kind of value by key, so that like meets like
KINDS = {"d1": "dict", "d2": "dict", "d3": "dict", "l1": "list", "l2": "list", "s1": "scalar", "s2": "scalar", "s3": "scalar", "sr": "series", "sr2": "series", "df": "frame", "df2": "frame", "arr": "array", "it1": "item", "it2": "item", "lb": "labels", "mx": "mixed", "mx2": "mixed2", "mp": "pandas"}
ROWS = ["r0", "r1", "r2"]


class Model(Pandel):
    """A pandel with given schemas, logging their requests."""

    def __init__(self, loose=None, strict=None, curate_funcs=(), log=None):
        Pandel.__init__(self, curate_funcs=curate_funcs)
        self.loose, self.strict = loose if loose is not None else {}, strict if strict is not None else {}
        self.log = [] if log is None else log

    def _get_json_schema(self, is_prevalidation):
        self.log.append(("schema", bool(is_prevalidation)))
        s = self.loose if is_prevalidation else self.strict
        return s() if callable(s) else s


class Txt(str):
    """Texts may be of some derived class, like psteps are."""


def scalar(rng):
    return rng.choice([0, 1, -5, 2.5, True, False, "", "txt", "other", 7, b"bytes", Txt("steps/like")])


def value(rng, kind, depth, nulls=0.1):
    if rng.random() < nulls:
        return None
    if kind == "item":  # sequences & scalars overwrite each other
        kind = rng.choice(["scalar", "list", "array"])
    if kind == "mixed":  # anything above or below anything else
        kind = rng.choice(["scalar", "list", "dict", "dict", "array"])
    if kind == "mixed2":
        kind = rng.choice(["scalar", "list", "labels", "labels", "array"])
    if kind == "labels":  # a mapping above or below a series
        kind = "series"
        if rng.random() < 0.5:
            return {k: rng.randint(0, 50) * 0.5 for k in rng.sample(["x", "y", "z", "w"], rng.randint(1, 3))}
    if kind == "pandas":
        kind = rng.choice(["series", "series", "frame", "frame", "scalar", "list"])
    if kind == "dict":
        if depth < 1:
            return {}
        return submodel(rng, depth - 1, nulls)
    if kind == "list":
        return [value(rng, rng.choice(["scalar", "scalar", "list", "dict"]), depth - 1, rng.choice([0, nulls])) if depth > 0 else scalar(rng) for _ in range(rng.choice([0, 1, 2, 3, 3, 7]))]
    if kind == "series":
        labels = rng.sample(["x", "y", "z", "w"], rng.randint(1, 4))
        return pd.Series([rng.choice([rng.randint(0, 50) * 0.5, rng.randint(0, 50) * 0.5, np.nan]) for _ in labels], index=labels, dtype=float)
    if kind == "frame":
        cols = rng.sample(["A", "B", "C", "D"], rng.randint(1, 3)) if rng.random() < 0.8 else rng.sample("ABCDEFGH", 6)
        rows = rng.sample(ROWS, rng.choice([3, 3, 2, 1]))
        return pd.DataFrame({c: [rng.choice([rng.randint(0, 50) * 0.5, rng.randint(0, 50) * 0.5, np.nan]) for _ in rows] for c in cols}, index=rows, dtype=float)
    if kind == "array":
        return np.array([rng.randint(0, 9) * 1.0 for _ in range(rng.randint(1, 3))])
    return scalar(rng)


def submodel(rng, depth=3, nulls=0.1):
    kinds = [k for k, v in KINDS.items() if depth > 0 or v != "dict"]
    return {k: value(rng, KINDS[k], depth, nulls) for k in rng.sample(kinds, rng.choice([0, 1, 2, 3, 4, 5, 6, 7]))}


_absent = object()


class NullClash(Exception):
    """Null over null at a path."""


MAPS = {"dict", "series"}


def group(v):
    return "dict" if isinstance(v, dict) else "series" if isinstance(v, pd.Series) else "frame" if isinstance(v, pd.DataFrame) else "other"


def merge(values):
    """Reference: `values` from bottom to top -> the merged one (of topmost non-nulls)."""
    given = [v for v in values if v is not _absent]
    vals = [v for v in given if v is not None]
    if len(given) > 1 and given[0] is None and given[1] is None:
        raise NullClash()
    if not vals:
        return None
    stack, kind = [], None
    for v in vals:  # only those above the last one of another kind
        k = group(v)
        if k != kind and not (k in MAPS and kind in MAPS):
            stack = []
        if not (stack and kind == "series"):  # dictionaries merged with series become such
            kind = k
        stack.append(v)
    vals = stack
    top = vals[-1]
    series = [v for v in vals if isinstance(v, pd.Series)]
    if series:
        top = series[0]
    if isinstance(top, dict):
        keys = []
        for v in vals:
            keys += [k for k in v if k not in keys]
        return {k: merge([v.get(k, _absent) for v in vals]) for k in keys}
    if isinstance(top, pd.Series):
        out = {}
        for v in vals:
            for lbl, x in v.items():
                if lbl not in out or x == x:
                    out[lbl] = x
        return pd.Series(out)
    if isinstance(top, pd.DataFrame):
        out = {}
        for v in vals:
            for c in v.columns:
                for r in v.index:
                    x = v.at[r, c]
                    if (c, r) not in out or x == x:
                        out[c, r] = x
        cols = {}
        for (c, r), x in out.items():
            cols.setdefault(c, {})[r] = x
        return pd.DataFrame(cols)
    return copy.deepcopy(top)


def eq(got, exp):
    """Like same(), but dictionaries, series and columns in any order."""
    if isinstance(exp, dict):
        return type(got) is dict and set(got) == set(exp) and all(eq(got[k], v) for k, v in exp.items())
    if isinstance(exp, pd.Series):
        return isinstance(got, pd.Series) and set(got.index) == set(exp.index) and len(got) == len(exp) and all(same(float(got[k]), float(exp[k])) for k in exp.index)
    if isinstance(exp, pd.DataFrame):
        return isinstance(got, pd.DataFrame) and set(got.columns) == set(exp.columns) and got.shape[1] == exp.shape[1] and all(eq(got[c], exp[c]) for c in exp.columns)
    if isinstance(exp, list):
        return type(got) is list and len(got) == len(exp) and all(eq(a, b) for a, b in zip(got, exp))
    return same(got, exp)


def schema(rng, depth=3, defaults=True):
    """A schema admitting all submodels, with defaults at various depths."""
    props = {}
    for k in rng.sample(sorted(KINDS) + ["new1", "new2"], rng.randint(1, 5)):
        kind = KINDS.get(k, "scalar")
        sub = schema(rng, depth - 1, defaults) if kind == "dict" and depth > 0 else {}
        if defaults and rng.random() < 0.6:
            sub["default"] = {} if kind == "dict" and rng.random() < 0.5 else value(rng, kind, 1, 0)
        props[k] = sub
    return {"properties": props} if depth < 3 or rng.random() < 0.6 else {"type": "object", "properties": props}


def fill(model, sch):
    """Reference of defaults, in place."""
    for k, sub in sch.get("properties", {}).items():
        if not isinstance(model, dict):
            return
        if k not in model and "default" in sub:
            model[k] = copy.deepcopy(sub["default"])
        if k in model:
            fill(model[k], sub)


def has_nulls(x):
    return x is None or isinstance(x, dict) and any(map(has_nulls, x.values()))
