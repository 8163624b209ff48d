"""P27: staging of Pandel builds, over event logs with injected faults."""
import copy
import re

import jsonschema
from jsonschema import ValidationError

from pvm import models
from pvm.core import same

RULE = ("random stacks of good and faulty submodels, strict schemas failing for merged models, submodels clashing with nulls or failing with any exception while merged, and curators and schema factories failing with any exception at any position; "
        "the log of schema requests, curator calls and yielded errors is checked against the staging automaton (expected schema errors from the stock validator); non-trivial = a failing build")
FLOORS = {"build": 1800, "curator-twice": 110, "ok": 470, "failed-1": 470, "failed-2": 100, "failed-3": 480, "failed-4": 250, "errors": 3400, "many-errors": 410, "cause": 480, "curator": 1800, "schema-fault": 130, "null-clash": 20, "merge-fault": 40}
PROPS = ["p", "q", "r", "t"]
STEPS = {1: "prevalidate", 2: "merge", 3: "validate", 4: "curate"}


class Boom(Exception):
    pass


class Odd(BaseException):
    pass


def rand_exc(rng):
    return rng.choice([Boom("boom"), ValueError("bad"), KeyError("k"), ZeroDivisionError(), AssertionError("a"), StopIteration("stop"), TypeError("%s %d"), OSError(2, "x"), RuntimeError("ünï"),
                       jsonschema.SchemaError("schema"), jsonschema.RefResolutionError("ref"), ValidationError("curator says no"), MemoryError(), RecursionError("deep"), UnicodeDecodeError("utf8", b"x", 0, 1, "r"),
                       GeneratorBox("gen")])


class GeneratorBox(LookupError):
    pass


def rand_schema(rng):
    s = {"type": "object"}
    if rng.random() < 0.4:
        s["required"] = rng.sample(PROPS, rng.randint(1, 2))
    props = {}
    for p in PROPS:
        if rng.random() < 0.5:
            props[p] = rng.choice([{"type": "integer"}, {"type": "string"}, {"minimum": 3}, {"enum": [1, "a", 5]}, {"type": "array"}, {"maxLength": 1}, {"type": "object", "required": ["z"]}])
    if props:
        s["properties"] = props
    if rng.random() < 0.2:
        s["additionalProperties"] = False
    return s


def rand_sub(rng, nulls):
    return {p: rng.choice([0, 1, 5, 9, "a", "text", [1], {"z": 1}, {}] + [None] * nulls) for p in rng.sample(PROPS, rng.randrange(4))}


class Moody(dict):
    """Can be validated and cloned, but not merged."""

    def __init__(self, exc):
        dict.__init__(self, z=1)
        self.exc = exc

    def _fail(self, *args):
        raise self.exc

    __iter__ = keys = items = _fail

    def __deepcopy__(self, memo):
        return self


class Unmergeable(Exception):
    """With the error expected: `None` for the null clashes."""


def merge(a, b):
    """The simple plain cases."""
    if a is None and b is None:
        raise Unmergeable(None)
    if isinstance(b, Moody) and (a is None or isinstance(a, dict)):
        raise Unmergeable(b.exc)
    if isinstance(a, dict) and b is None:
        return a
    if isinstance(a, dict) and isinstance(b, dict):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(a[k], v) if k in a else v
        return out
    return a if b is None else b


def in_any_order(e):
    """Its message, where the extra properties may be told in any order."""
    return " ".join(sorted(re.split(r"[ ,()]+", e.message))) if e.validator == "additionalProperties" else e.message


def stock_errors(schema, instance):
    cls = jsonschema.validators.validator_for(schema)
    return sorted((e.validator, [str(p) for p in e.absolute_path], in_any_order(e)) for e in cls(schema).iter_errors(instance))


def described(errs):
    return sorted((e.validator, [str(p) for p in e.absolute_path], in_any_order(e)) for e in errs)


def w_staging(rng, mon, i):
    loose, strict = rng.choice([{}, rand_schema(rng), {"type": "object"}]), rand_schema(rng) if rng.random() < 0.6 else {}
    nulls = rng.choice([0, 0, 0, 3])
    subs = [rand_sub(rng, nulls) for _ in range(rng.choice([1, 1, 2, 3, 4, 8]))]
    if rng.random() < 0.6:  # homogenous, to let it pass
        subs = [{k: v for k, v in s.items() if not isinstance(v, (dict, list))} for s in subs]
    if len(subs) > 1 and rng.random() < 0.15:
        k, n = rng.choice(PROPS), rng.randrange(1, len(subs))
        subs[n - 1][k] = {"z": 3}
        subs[n][k] = Moody(rand_exc(rng))
    curexcs = [rand_exc(rng) if rng.random() < 0.3 else None for _ in range(rng.choice([0, 1, 2, 3, 7]))]
    for ex in curexcs:
        if ex is not None and not isinstance(ex, StopIteration) and rng.random() < 0.4:
            ex.__cause__ = rng.choice([ValueError("deeper"), ValidationError("deeper")])
    log = []
    edits = [rng.random() < 0.3 for _ in curexcs]

    def curator(n):
        def fn(p):
            log.append(("curator", n))
            mon.ev("curator")
            mon.check(p is pandel, "curator got %r", p)
            mon.check(p.model is not None, "curator without model")
            if edits[n]:
                p.model["edited%d" % n] = n
            if curexcs[n] is not None:
                raise curexcs[n]

        return fn

    faults = {}
    for k in (True, False):
        if rng.random() < 0.05:
            faults[k] = rand_exc(rng)
            while isinstance(faults[k], (StopIteration,)):
                faults[k] = rand_exc(rng)

    def getter(k, sch):
        def fn():
            if k in faults:
                raise faults[k]
            return sch

        return fn

    curators = [curator(n) for n in range(len(curexcs))]
    if len(curators) > 1 and rng.random() < 0.3:  # one given twice, edits and fails alike
        j, k = rng.sample(range(len(curators)), 2)
        again = rng.choice([k, len(curators)])
        order = list(range(len(curators)))
        order[again:again + 1] = [j]
        mon.ev("curator-twice")
    else:
        order = list(range(len(curators)))
    pandel = models.Model(getter(True, loose), getter(False, strict), rng.choice([tuple, list])(curators[n] for n in order), log)
    for s in subs:
        pandel.add_submodel(copy.deepcopy(s))
    mon.note("loose", loose, "strict", strict, "submodels", subs, "curators", curexcs, "schema faults", faults)

    # what should happen
    def expect():
        """-> log, [errors: tuples of schema-errors, or the exceptions], failed step, model"""
        elog, errs = [], []
        for s in subs:
            elog.append(("schema", True))
            if True in faults:
                return elog, errs + [faults[True]], 1, None
            errs += stock_errors(loose, s)
        if errs:
            return elog, errs, 1, None
        try:
            m = None
            for s in subs:
                m = copy.deepcopy(s) if m is None else merge(m, copy.deepcopy(s))
        except Unmergeable as ex:
            return elog, [ex.args[0]], 2, None
        elog.append(("schema", False))
        if False in faults:
            return elog, [faults[False]], 3, None
        errs = stock_errors(strict, m)
        if errs:
            return elog, errs, 3, None
        for n in order:
            ex = curexcs[n]
            elog.append(("curator", n))
            if edits[n]:
                m["edited%d" % n] = n
            if ex is not None:
                return elog, [ex], 4, None
        return elog, [], None, m

    elog, exp, failed, model = expect()
    for attempt in range(2):
        log[:] = []
        try:
            errs = list(pandel.build_iter())
        except BaseException as ex:
            if isinstance(ex, (KeyboardInterrupt,)) or type(ex).__name__ == "CaseTimeout":
                raise
            mon.fail("build_iter() raised %r" % ex)
        mon.ev("build")
        # How many times a step fetches its schema is its own affair.
        taken = [e for n, e in enumerate(log) if e[0] != "schema" or log[n - 1:n] != [e]]
        steps = [e for n, e in enumerate(elog) if e[0] != "schema" or elog[n - 1:n] != [e]]
        mon.check(taken == steps, "steps taken: %r, expected %r", log, elog)
        mon.check(all(isinstance(e, ValidationError) for e in errs), "errors of other types: %r", errs)
        if failed is None:
            mon.check(errs == [], "errors %r, expected none", errs)
            mon.check(same(pandel.model, model) or pandel.model == model, "model %r, expected %r", pandel.model, model)
            mon.check(getattr(pandel, "_errored", False) is False, "flagged as errored")
            mon.ev("ok")
        else:
            mon.check(len(errs) == len(exp) + 1, "reported %r, expected %d errors %r and a give-up one of step %d", errs, len(exp), exp, failed)
            giveup = errs[-1].message
            mon.check(set(re.findall(r"[a-z]+", giveup)) & set(STEPS.values()) == {STEPS[failed]}, "give-up error of step %d: %r", failed, giveup)
            mon.ev("failed-%d" % failed)
            mon.ev("errors", len(errs))
            if len(exp) > 1:
                mon.ev("many-errors")
            mon.key(failed, repr(exp), len(subs))
            if failed == 1:
                mon.check(pandel.model is None, "submodels merged despite failing prevalidation: %r", pandel.model)
            mon.check(getattr(pandel, "_errored", True) is True, "not flagged as errored")
            got = errs[:-1]
            schema_errs = [e for e in exp if isinstance(e, tuple)]
            if exp and not isinstance(exp[-1], tuple):
                last = got[-1]
                got = got[:-1]
                if isinstance(exp[-1], ValidationError):
                    mon.check(last is exp[-1] or last.cause is exp[-1], "validation error %r reported as %r", exp[-1], last)
                elif exp[-1] is not None:
                    mon.check(last.cause is exp[-1] or isinstance(exp[-1], StopIteration) and last.cause.__cause__ is exp[-1], "cause of %r is %r, expected %r", last, last.cause, exp[-1])
                    mon.ev("cause")
                    if failed in (1, 3):
                        mon.ev("schema-fault")
                else:
                    mon.check(type(last) is ValidationError and "None" in last.message, "null over null is reported as %r", last)
                    mon.ev("null-clash")
                if failed == 2 and exp[-1] is not None:
                    mon.ev("merge-fault")
            mon.check(described(got) == sorted(schema_errs), "schema errors %r, expected %r", described(got), schema_errs)
        # build() gives the model or raises the 1st
        log[:] = []
        if failed is None:
            got = pandel.build()
            mon.check(got is pandel.model and (same(got, model) or got == model), "built %r, expected %r", got, model)
        else:
            ex = mon.raises(ValidationError, pandel.build)
            mon.check((ex.message, ex.validator, list(ex.absolute_path)) == (errs[0].message, errs[0].validator, list(errs[0].absolute_path)), "build() raised %r, 1st error is %r", ex, errs[0])
            mon.check(getattr(pandel, "_errored", True) is True, "not flagged as errored after build() failed")


WORKLOADS = [("staging", w_staging, 2000, 40000)]
