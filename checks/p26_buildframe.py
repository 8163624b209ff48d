"""P26: what building (and using its model) must not touch."""
import copy

import jsonschema
import numpy as np
import pandas as pd
from pandalone.pandata import PandelVisitor

from pvm import models
from pvm.core import same

RULE = ("random stacks and schemas with mutable defaults; builds that succeed, fail validation at either schema, fail merging or curation, with curators that modify the model deeply; built models "
        "then wrecked in place; after each event all submodels, schemas and other models compared with their deep snapshots; non-trivial = an outcome other than a plain success, or wrecked containers")
FLOORS = {"build": 1100, "ok": 600, "failed": 550, "curated": 690, "curator-failed": 180, "wrecked": 27000, "frame-checks": 11000, "rebuilt": 570, "with-defaults": 530}


def snap(x):
    return copy.deepcopy(x)


def wreck(mon, x, rng):
    """Modify in place all containers in x."""
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(mon, v, rng)
        x["wrecked"] = [1]
        for k in list(x)[:1]:
            if rng.random() < 0.3:
                x[k] = "gone"
            elif rng.random() < 0.3:
                del x[k]
        mon.ev("wrecked")
    elif isinstance(x, list):
        for v in x:
            wreck(mon, v, rng)
        x.append("wrecked")
        x[0] = "wrecked"
        mon.ev("wrecked")
    elif isinstance(x, pd.DataFrame):
        if x.size:
            x.iloc[0, 0] = -99
        x["wrecked"] = 1
        x.loc["extra-row"] = -1
        mon.ev("wrecked")
    elif isinstance(x, pd.Series):
        if len(x):
            x.iloc[0] = -99
        x["wrecked"] = -1
        mon.ev("wrecked")
    elif isinstance(x, np.ndarray):
        x[...] = -99
        mon.ev("wrecked")


class Boom(Exception):
    pass


def w_builds(rng, mon, i):
    nulls = rng.choice([0, 0, 0.1])
    subs = [models.submodel(rng, rng.randint(1, 3), nulls) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < 0.1:
        subs.append(subs[0])
    if rng.random() < 0.15:
        # unlike containers
        subs.append({rng.choice(sorted(models.KINDS)): rng.choice([{"z": 1}, "txt", [1]])})
    strict, loose = models.schema(rng), rng.choice([{}, models.schema(rng)])
    if rng.random() < 0.25:
        rng.choice([strict, loose])["required"] = ["absent"]
    if rng.random() < 0.2:
        rng.choice([strict, loose])["properties"] = dict(strict["properties"], s1={"type": "string"})
    wrecked = []

    def curate_ok(p):
        mon.ev("curated")

    def curate_wreck(p):
        mon.ev("curated")
        wreck(mon, p.model, rng)

    def curate_fail(p):
        mon.ev("curated")
        if rng.random() < 0.5:
            wreck(mon, p.model, rng)
        mon.ev("curator-failed")
        raise rng.choice([Boom("x"), ValueError("y"), jsonschema.ValidationError("z"), KeyError("k")])

    curators = [rng.choice([curate_ok, curate_wreck, curate_wreck, curate_fail]) for _ in range(rng.randrange(3))]
    mon.note("submodels", subs, "strict", strict, "loose", loose, "curators", [c.__name__ for c in curators])
    p = models.Model(loose, strict, curators)
    for s in subs:
        p.add_submodel(s)
    watched = [("submodel", s) for s in subs] + [("strict schema", strict), ("loose schema", loose)]
    snaps = [snap(x) for _, x in watched]
    if any("default" in s for sch in (strict, loose) for s in sch.get("properties", {}).values()):
        mon.ev("with-defaults")

    def verify(what):
        for (name, x), s in zip(watched, snaps):
            mon.check(same(x, s), "%s changed after %s: %r, was %r", name, what, x, s)
            mon.ev("frame-checks")

    for n in range(rng.randint(1, 3)):
        try:
            if rng.random() < 0.5:
                m = p.build()
            else:
                errs = list(p.build_iter())
                m = None if errs else p.model
        except jsonschema.ValidationError:
            m = None
        mon.ev("build")
        mon.ev("failed" if m is None else "ok")
        verify("build")
        if m is not None:
            # its nodes are of no submodel, schema or other model
            watched.append(("built model #%d" % n, m))
            snaps.append(snap(m))
        if n:
            mon.ev("rebuilt")
        if m is None:
            mon.key(repr(mon.desc))
        if p.model is not None and m is None:
            wreck(mon, p.model, rng)
            verify("modifying the model of a failed build")
    while len(watched) > len(subs) + 2:
        _, m = watched.pop()
        snaps.pop()
        wreck(mon, m, rng)
        mon.key("wrecked", repr(mon.desc))
        verify("modifying a built model")


def w_visitor(rng, mon, i):
    """Validating leaves the schema as is, even when its filled-in defaults are modified."""
    sch = models.schema(rng)
    s = snap(sch)
    docs = [models.submodel(rng, 3) for _ in range(2)]
    mon.note("schema", sch, "instances", docs)
    v = PandelVisitor(sch)
    for d in docs:
        list(v.iter_errors(d))
        mon.check(same(sch, s), "schema changed by validation: %r, was %r", sch, s)
    other = snap(docs[1])
    wreck(mon, docs[0], rng)
    mon.check(same(sch, s), "schema changed through the instance: %r, was %r", sch, s)
    mon.check(same(docs[1], other), "another instance changed: %r, was %r", docs[1], other)
    mon.ev("frame-checks", 3)


WORKLOADS = [("builds", w_builds, 1300, 20000), ("visitor", w_visitor, 400, 5000)]
