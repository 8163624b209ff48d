"""P36: hierarchies of steps built from data-frames, their origins, derived mappings and schemas."""
import collections
import json

import numpy as np
import pandas as pd
from pandalone.mappings import Pstep, pmods_from_tuples, pstep_from_df

from pvm import maps

RULE = ("random hierarchies referenced, renamed and mapped: their steps, origins, derived mappings, schemas and uses as keys against a shadow tree; random data-frames of "
        "(nested) paths, names, and attributes, in any order and with missing names; non-trivial = distinct hierarchies or frames")
FLOORS = {"alias-over-maps": 78, "attr": 2100, "frame": 400, "listing": 4100, "named": 1700, "nested": 480, "no-name": 200, "rebuilt": 110, "rename": 730, "replaced": 730, "replaced-changed": 760, "schema": 810, "tag": 1000, "used": 1300}
NAMES = ["a", "b", "ab", "a1", "foo", "Xy", "q_r"]
ALIASES = ["X", "Y", "A", "B", "Foo", "XY", "x/y", "N [kg]", "a", "b", "é", "1", "P/Q/R"]
ROOTED = ["/R", "/R/s"]
DOTTED = ["", "..", ".", "../u"]


class Node:
    def __init__(self, orig, name):
        self.orig, self.name, self.kids, self.obj, self.schema, self.attrs, self.tags = orig, name, {}, None, {}, {}, set()

    def walk(self, prefix=()):
        prefix += (self,)
        yield prefix
        for k in self.kids.values():
            yield from k.walk(prefix)

    def leaves(self):
        return [p for p in self.walk() if not p[-1].kids]


def join(steps):
    """As names are steps as a whole, whatever slashes they have within."""
    return maps.normalize(steps)


def compare(mon, p, n, what):
    mon.check(isinstance(p, Pstep) and str(p) == n.name, "%s: step %r should be named %r", what, p, n.name)
    mon.check(repr(p) == "`%s`" % n.name, "%s: %r of name %r", what, p, n.name)
    mon.check(list(p._steps(keys=True)) == list(n.kids), "%s: steps of %r are %r, not %r", what, p, list(p._steps(keys=True)), list(n.kids))
    mon.check([str(c) for c in p._steps()] == [k.name for k in n.kids.values()], "%s: children of %r are %r", what, p, list(p._steps()))
    mon.check(set(p._tags) == n.tags, "%s: tags of %r are %r, not %r", what, p, p._tags, n.tags)
    for k, c in n.kids.items():
        got = getattr(p, k)
        compare(mon, got, c, what)


def listings(mon, root, shadow, what):
    exp = sorted({join([s.name for s in l]) for l in shadow.leaves()})
    mon.eq(root._paths(), exp, what + ": paths")
    exp = sorted({join([s.name if s.name == s.orig else "(%s-->%s)" % (s.orig, s.name) for s in l]) for l in shadow.leaves()})
    mon.eq(root._paths(with_orig=True), exp, what + ": paths with origins")
    exp = sorted([(join([s.orig for s in w]), w[-1].name) for w in shadow.walk()], key=lambda t: t[0])
    mon.eq(root._derrive_map_tuples(), exp, what + ": mappings derived")
    mon.ev("listing")
    return exp


def w_tree(rng, mon, i):
    plain = rng.random() < 0.6
    pool = ALIASES if plain else ALIASES + ROOTED + DOTTED
    rname = rng.choice(["", "", "root", "a"])
    top = rname
    if rng.random() < 0.3:
        top = rng.choice(["R", "r/s", ".."] if not plain else ["R", "r/s"])
    if rng.random() < 0.2:  # an alias wins over mappings, whose other parts apply below
        maps_ = [(rname, "mapped"), (rname + "/b", "BBB")] if rng.random() < 0.7 else [("/zz", "x")]
        pm = pmods_from_tuples(maps_)
        named = rng.choice(["R", "r/s", "x"])
        p = rng.choice([lambda: pm.step(rname, named), lambda: pm.step(rname, alias=named), lambda: Pstep(rname, pm, named), lambda: Pstep(rname, tuple(maps_), alias=named)])()
        mon.note("maps", maps_, "root", rname, named)
        mon.check(p == named and p._orig == rname and p.b == ("BBB" if len(maps_) == 2 else "b"), "step %r of origin %r, child %r", p, p._orig, p.b)
        mon.check(pm.step(rname) == ("mapped" if len(maps_) == 2 else rname) and (rname or pm.step() == pm.step("")), "unnamed step %r", pm.step(rname))
        mon.ev("alias-over-maps")
        tags = [rng.choice("xyz") for _ in range(rng.randrange(4))]
        p = rng.choice([lambda: Pstep(rname, pm, None, *tags), lambda: Pstep(rname, None, named, *tags), lambda: Pstep(rname, maps_, named, *tags)])()
        mon.check(set(p._tags) == set(tags) and set(p.b._tags) == set(), "tags %r of %r made with %r", p._tags, p, tags)
        mon.eq(p._tag("w")._tags, set(tags) | {"w"}, "tags")
        mon.raises(ValueError, Pstep, rname, maps=rng.choice([{"a": "b"}, "a", 5, {"a"}]))
    root = Pstep(rname, alias=top) if top != rname else rng.choice([lambda: Pstep(rname), lambda: Pstep(rname, maps=[])])()
    shadow = Node(rname, top)
    hist, replaced = [], []
    for _ in range(rng.randint(3, 22)):
        p, n = root, shadow
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            key = rng.choice(NAMES)
            if rng.random() < 0.22:
                name = rng.choice(pool)
                hist.append(".%s=%r" % (key, name))
                old = dict(zip(p._steps(keys=True), p._steps())).get(key)
                if old is not None:
                    replaced.append((old, str(old), list(old._steps(keys=True)), set(old._tags), own_schema(old)))
                setattr(p, key, name)
                if key in n.kids:
                    n.kids[key].name = name
                    mon.ev("rename")
                else:
                    n.kids[key] = Node(key, name)
                    mon.ev("named")
            else:
                n.kids.setdefault(key, Node(key, key))
            hist.append("." + key)
            p, n = getattr(p, key), n.kids[key]
        hist.append(";")
        if rng.random() < 0.2:
            t = rng.choice("xyz")
            hist.append("_tag " + t)
            p._tag(t)
            n.tags.add(t)
            mon.ev("tag")
        if replaced and rng.random() < 0.3:
            # what had been replaced is on its own
            k = rng.randrange(len(replaced))
            old, name, kids, tags, schema = replaced[k]
            key, t = rng.choice(NAMES), rng.choice("xyz")
            hist.append("(replaced %s)._tag(%s).%s;" % (name, t, key))
            getattr(old._tag(t), key)
            if rng.random() < 0.4:
                setattr(old._schema, "title", "replaced %s" % t)
                schema = dict(schema or {}, title="replaced %s" % t)
                hist.append("_schema.title=%r;" % schema["title"])
                mon.ev("replaced-schema")
            replaced[k] = (old, name, kids if key in kids else kids + [key], tags | {t}, schema)
            mon.ev("replaced-changed")
        if rng.random() < 0.25:
            use(rng, mon, p, n)
        if rng.random() < 0.2:
            mon.note("root", rname, top, "history", "".join(hist))
            compare(mon, root, shadow, "midway")
            listings(mon, root, shadow, "midway")
    mon.note("root", rname, top, "history", "".join(hist))
    compare(mon, root, shadow, "tree")
    for old, name, kids, tags, schema in replaced:
        mon.check(own_schema(old) == schema, "the schema of the step %r replaced by a renaming became %r from %r", old, own_schema(old), schema)
        mon.check(str(old) == name and list(old._steps(keys=True)) == kids and set(old._tags) == tags, "the step replaced by a renaming became %r with %r and %r, from %r with %r and %r",
                  str(old), list(old._steps(keys=True)), old._tags, name, kids, tags)
        mon.ev("replaced")
    pairs = listings(mon, root, shadow, "tree")
    mon.key(rname, top, tuple(pairs))
    for k in list(shadow.kids):
        listings(mon, getattr(root, k), shadow.kids[k], "subtree")
    for w in shadow.walk():
        check_schema(mon, root, w)
    if plain and rname == "":
        rebuild(rng, mon, root, shadow, pairs)


def rebuild(rng, mon, root, shadow, pairs):
    """The derived mappings make the same paths again out of the original references."""
    pairs = list(pairs)
    if rng.random() < 0.5:
        rng.shuffle(pairs)
    pm = pmods_from_tuples(pairs)
    p2 = pm.step()
    walks = list(shadow.walk())
    rng.shuffle(walks)
    for w in walks:
        p = p2
        for s in w[1:]:
            p = getattr(p, s.orig)
        mon.check(str(p) == w[-1].name, "rebuilt %r is %r, not %r", [s.orig for s in w], p, w[-1].name)
    mon.eq(p2._paths(), root._paths(), "paths of the rebuilt tree")
    mon.eq(p2._paths(with_orig=True), root._paths(with_orig=True), "paths with origins of the rebuilt tree")
    if not any(s.name.startswith("/") for w in walks for s in w):
        for w in walks:
            if w[0].name == w[0].orig:
                mon.eq(pm.map_path("/".join(s.orig for s in w)), join("/".join(s.name for s in w).split("/")), "mapping of %r" % [s.orig for s in w])
    mon.ev("rebuilt")


SCHEMAS = [("type", "object"), ("type", "list"), ("title", "T"), ("minimum", 0), ("maximum", None), ("required", []), ("required", ["a"]), ("enum", [1, 2]), ("allOf", {}), ("kws", {"minimum": 1}),
           ("description", ""), ("pattern", "a.*"), ("exclusiveMinimum", False)]


def use(rng, mon, p, n):
    if rng.random() < 0.6:
        mon.check(p._schema_exists() == bool(n.schema), "schema of %r exists? %r", p, p._schema_exists())
        k, v = rng.choice(SCHEMAS)
        setattr(p._schema, k, v)
        n.schema[k] = v
        mon.check(p._schema_exists(), "schema of %r was set", p)
        mon.ev("schema")
    doc = {n.name: 5}
    mon.check(doc[p] == 5 and json.loads(json.dumps({p: [p]})) == {n.name: [n.name]}, "use of %r as key", p)
    df = pd.DataFrame([[1, 2]], columns=[n.name, "other-" + n.name])
    mon.check(list(df[p]) == [1], "use of %r as column", p)
    sr = pd.Series([3], index=[n.name])
    mon.check(sr[p] == 3, "use of %r as label", p)
    for attr in ("_nope", "__len", "get_values", "Series"):
        mon.raises(AttributeError, getattr, p, attr)
        mon.check(not hasattr(p, attr), "%r has %r", p, attr)
    names = dir(p)
    mon.check(names == sorted(names) and "upper" in names, "dir() of %r: %r", p, names)
    for k in n.kids:
        mon.check(k in names, "%r not in dir() of %r", k, p)
    mon.ev("used")


def own_schema(p):
    return dict(p._schema.todict()) if p._schema_exists() else None


def check_schema(mon, root, walk):
    p = root
    for s in walk[1:]:
        p = getattr(p, s.orig)
    n = walk[-1]
    mon.check(p._schema_exists() == bool(n.schema), "schema of %r exists? %r", p, p._schema_exists())
    if n.schema:
        got = p._schema.todict()
        mon.check(type(got) is dict and got == n.schema, "schema of %r is %r, not %r", p, got, n.schema)


def w_adopt(rng, mon, i):
    """A step assigned from another takes after it, and is on its own."""
    hist = []

    def change(p, kids, tags, schema):
        op = rng.random()
        if op < 0.35:
            t = rng.choice("xyz")
            hist.append("%r._tag(%r);" % (p, t))
            p._tag(t)
            tags.add(t)
        elif op < 0.5:
            t = rng.choice("xyz")
            hist.append("%r._tag_remove(%r);" % (p, t))
            p._tag_remove(t)
            tags.discard(t)
        elif op < 0.75:
            k = rng.choice(NAMES)
            hist.append("%r.%s;" % (p, k))
            getattr(p, k)
            if k not in kids:
                kids.append(k)
        else:
            k, v = rng.choice(SCHEMAS)
            hist.append("%r._schema.%s=%r;" % (p, k, v))
            setattr(p._schema, k, v)
            schema[k] = v

    def verify(p, name, kids, tags, schema):
        mon.check(isinstance(p, Pstep) and str(p) == name, "step %r should be %r", p, name)
        mon.check(list(p._steps(keys=True)) == kids, "steps of %r are %r, not %r", p, list(p._steps(keys=True)), kids)
        mon.check(set(p._tags) == tags, "tags of %r are %r, not %r", p, p._tags, tags)
        mon.check(own_schema(p) == (schema or None), "schema of %r is %r, not %r", p, own_schema(p), schema)

    src = Pstep(rng.choice(["q", "src", ""]))
    states = [(src, str(src), [], set(), {})]
    for _ in range(rng.randrange(7)):
        change(src, *states[0][2:])
    root = Pstep(rng.choice(["", "root"]))
    for _ in range(rng.randint(1, 3)):
        q, _, kids, tags, schema = rng.choice(states)
        at, key = root, rng.choice(["k1", "k2", "k3"])
        if rng.random() < 0.3:
            at = root.sub
        if rng.random() < 0.3 and key not in at._steps(keys=True):
            getattr(at, key)
        setattr(at, key, q)
        hist.append("%r.%s = %r;" % (at, key, q))
        mon.note("history", " ".join(hist))
        new = getattr(at, key)
        mon.check(new is getattr(at, key) and new is not q, "step assigned from %r is %r", q, new)
        states.append((new, key, list(kids), set(tags), dict(schema)))
        mon.ev("adopted")
        for _ in range(rng.randrange(6)):
            s = rng.choice(states)
            change(s[0], *s[2:])
            mon.note("history", " ".join(hist))
            for s in states:
                verify(*s)
            mon.ev("adopted-changed")
    for s in states:
        verify(*s)
    mon.key(" ".join(hist))


def w_frame(rng, mon, i):
    """Steps from data-frames."""
    cols = rng.sample(["renames", "dtype", "unit", "Long name", "x1"], rng.randint(0, 3))
    name_col = rng.choice(["names", "names", "colname", "to"])
    paths, deep = [], rng.random() < 0.6
    for _ in range(rng.randint(0, 8)):
        p = "/" + "/".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]) if deep else 1))
        if p not in paths:
            paths.append(p)
    if rng.random() < 0.15:
        paths.append("")
    rng.shuffle(paths)
    vals = [["F", "L"], [], None, float("nan"), pd.NaT, 3, 2.5, "txt", "", True, {"k": 1}, ("t",)]
    rows = []
    for p in paths:
        name = None if rng.random() < 0.15 else rng.choice(ALIASES + (ROOTED if rng.random() < 0.2 else [])) if p else rng.choice(["R", "r/s"])
        rows.append([name] + [rng.choice(vals) for _ in cols])
    order = [name_col] + cols
    perm = rng.sample(range(len(order)), len(order))
    df = pd.DataFrame({k: pd.Series([r[k] for r in rows], index=pd.Index(paths, dtype=object), dtype=object) for k in range(len(order))}, index=pd.Index(paths, dtype=object))
    df = df[perm]
    df.columns = [order[k] for k in perm]
    mon.note("paths", paths, "columns", list(df.columns), "rows", rows)
    before = df.copy(deep=True)
    if name_col == "names" and rng.random() < 0.5:
        root = pstep_from_df(df)
    else:
        root = pstep_from_df(df, name_col=name_col) if rng.random() < 0.5 else pstep_from_df(df, name_col)
    mon.check(list(df.columns) == list(before.columns) and df.equals(before), "the frame has been modified")
    shadow = Node("", "")
    names = {p: r[0] for p, r in zip(paths, rows)}
    for p, r in zip(paths, rows):
        n, at = shadow, ""
        for s in p.split("/")[1:]:
            at += "/" + s
            n = n.kids.setdefault(s, Node(s, names.get(at) or s))
        n.attrs = dict(zip(cols, r[1:]))
        if len(p.split("/")) > 2:
            mon.ev("nested")
        if r[0] is None:
            mon.ev("no-name")
    shadow.name = names.get("") or ""
    compare(mon, root, shadow, "frame")
    listings(mon, root, shadow, "frame")
    for w in shadow.walk():
        p = root
        for s in w[1:]:
            p = getattr(p, s.orig)
        for c in cols:
            if c in w[-1].attrs:
                got, exp = getattr(p, "_" + c), w[-1].attrs[c]
                mon.check(got is exp or (type(got) is type(exp) and got == exp), "attribute %r of %r is %r, not %r", c, p, got, exp)
                mon.ev("attr")
            else:
                mon.check(not hasattr(p, "_" + c), "%r has attribute %r", p, c)
        mon.check(set(p._tags) == set() and p._locked == Pstep.CAN_RELOCATE, "tags or locks of %r", p)
    mon.ev("frame")
    mon.key(tuple(paths), str(rows), tuple(df.columns))


WORKLOADS = [("tree", w_tree, 900, 9000), ("frame", w_frame, 900, 9000), ("adopt", w_adopt, 500, 8000)]
