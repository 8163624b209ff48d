"""P25: Pandel merging against a reference of topmost values."""
import copy

import jsonschema
import pandas as pd

from pvm import models
from pvm.core import same

RULE = ("random stacks of nested submodels (dictionaries, lists, scalars, Series, DataFrames, arrays, nulls), with and without defaults in the loose and strict schemas, built, extended and "
        "rebuilt; models compared with a topmost-value reference; non-trivial = stacks where submodels overlap")
FLOORS = {"build": 1500, "overlap": 410, "defaults": 320, "rebuild": 380, "extended": 310, "series": 1900, "frame": 1500, "null": 650, "null-clash": 15, "get": 1900, "toplevel-pandas": 110}


def stats(mon, x):
    if isinstance(x, dict):
        for v in x.values():
            stats(mon, v)
    elif isinstance(x, pd.Series):
        mon.ev("series")
    elif isinstance(x, pd.DataFrame):
        mon.ev("frame")
    elif x is None:
        mon.ev("null")


def expected(subs, strict):
    m = models.merge(subs)
    models.fill(m, strict)
    return m


def check(mon, pandel, subs, strict, what):
    try:
        exp = expected(subs, strict)
    except models.NullClash:
        mon.raises(jsonschema.ValidationError, pandel.build)
        mon.ev("null-clash")
        return None
    got = pandel.build()
    mon.check(models.eq(got, exp), "%s of %r with %r: %r, expected %r", what, subs, strict, got, exp)
    mon.check(pandel.model is got, "model attribute is not the one built")
    mon.ev("build")
    return got


def w_stack(rng, mon, i):
    nulls = rng.choice([0, 0, 0.1, 0.2])
    subs = [models.submodel(rng, rng.randint(1, 4), nulls) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 7]))]
    strict = models.schema(rng) if rng.random() < 0.5 else {}
    loose = rng.choice([strict, {}, models.schema(rng)])
    mon.note("submodels", subs, "strict", strict, "loose", loose)
    p = models.Model(copy.deepcopy(loose), copy.deepcopy(strict))
    now = []
    step = rng.random()
    for k, s in enumerate(subs):
        p.add_submodel(copy.deepcopy(s))
        now.append(s)
        if step < 0.5 and k < len(subs) - 1 and rng.random() < 0.5:
            check(mon, p, now, strict, "stack")
            mon.ev("extended")
    got = check(mon, p, subs, strict, "stack")
    if got is None:
        return
    if strict:
        mon.ev("defaults")
    keys = [set(s) for s in subs]
    if len(subs) > 1 and any(a & b for n, a in enumerate(keys) for b in keys[:n]):
        mon.ev("overlap")
        mon.key(repr(subs), repr(strict))
    stats(mon, got)
    if rng.random() < 0.6:
        check(mon, p, subs, strict, "rebuilt stack")
        mon.ev("rebuild")
    fresh = models.Model(copy.deepcopy(loose), copy.deepcopy(strict))
    for s in subs:
        fresh.add_submodel(copy.deepcopy(s))
    mon.check(models.eq(fresh.build(), p.model), "fresh build of %r: %r, rebuilt: %r", subs, fresh.model, p.model)
    for k in list(got)[:3]:
        mon.check(p.get("/" + k) is p.model[k], "get(%r)", k)
        mon.check(p.get("/" + k + "-none", default=5) == 5, "get() default")
        mon.ev("get")
    mon.check(p.get("") is p.model, "get('')")


def w_toplevel(rng, mon, i):
    """Submodels being pandas objects or lists themselves."""
    kind = rng.choice(["series", "frame", "list"])
    subs = [models.value(rng, kind, 2, 0) for _ in range(rng.randint(1, 3))]
    mon.note("submodels", subs)
    p = models.Model()
    for s in subs:
        p.add_submodel(copy.deepcopy(s))
    got = check(mon, p, subs, {}, "stack")
    mon.ev("toplevel-pandas")
    check(mon, p, subs, {}, "rebuilt")


WORKLOADS = [("stack", w_stack, 1500, 25000), ("toplevel", w_toplevel, 250, 2500)]
