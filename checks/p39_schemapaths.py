"""P39: listing the json-paths of a schema."""
import copy

from pandalone import pandata as pd_

from pvm import docs

RULE = ("random schemas with nested properties, alternatives (oneOf, anyOf, allOf) beside or within them, other keywords and adversarial names; the listed paths against those of an own walk, "
        "and against a document populated through them; non-trivial = distinct schemas")
FLOORS = {"escaped": 1400, "forks": 680, "path": 3600, "populated": 220, "schema": 1100}
KEYS = ["a", "b", "", "a/b", "~", "~1", "0", "-", "é", "properties", "anyOf", "x y", "~0~1", "%", "items"]


def rand_schema(rng, depth, forks):
    if rng.random() < 0.06:
        return rng.random() < 0.5  # a boolean sub-schema, since draft-6
    s = {}
    kinds = []
    if depth and rng.random() < 0.75:
        kinds.append("properties")
    if depth and forks and rng.random() < 0.35:
        kinds += rng.sample(["oneOf", "anyOf", "allOf"], rng.choice([1, 1, 2]))
    kinds += rng.sample(["type", "title", "required", "minimum", "items", "additionalProperties", "enum", "patternProperties", "definitions", "not", "default", "$ref"], rng.randint(0, 2))
    rng.shuffle(kinds)
    for k in kinds:
        if k == "properties":
            s[k] = {n: rand_schema(rng, depth - 1, forks) for n in rng.sample(KEYS, rng.choice([0, 1, 1, 2, 3, 6] if depth < 3 else [0, 1, 1, 2, 3]))}
        elif k in ("oneOf", "anyOf", "allOf"):
            s[k] = [rand_schema(rng, depth - 1, forks) for _ in range(rng.choice([0, 1, 2, 3, 6] if depth < 3 else [0, 1, 2, 3]))]
        else:
            s[k] = {"type": rng.choice(["object", "array", ["string", "null"]]), "title": "t", "required": ["a"], "minimum": 0, "items": rng.choice([{"type": "integer"}, {"properties": {"in": {}}}, [{}, {"properties": {"in": {}}}]]),
                    "additionalProperties": rng.choice([False, {"properties": {"in": {}}}]), "enum": [1], "patternProperties": {"^x": {"properties": {"in": {}}}, "b": {}},
                    "definitions": {"a": {"properties": {"in": {}}}}, "not": {"properties": {"in": {}}}, "default": {"properties": {"in": {}}}, "$ref": "#/definitions/a"}[k]
    return s


def leaves(s, path=()):
    """Leaf paths: of the nodes having no properties of their own."""
    todo, out = [(s, path)], set()
    while todo:
        node, at = todo.pop()
        if isinstance(node, bool):
            out.add(at)
            continue
        for f in ("oneOf", "anyOf", "allOf"):
            todo += [(o, at) for o in node.get(f, ())]
        if node.get("properties"):
            todo += [(o, at + (k,)) for k, o in node["properties"].items()]
        else:
            out.add(at)
    return out


def w_paths(rng, mon, i):
    forks = rng.random() < 0.6
    schema = True
    while isinstance(schema, bool):
        schema = rand_schema(rng, rng.randint(0, 4), forks)
    mon.note("schema", schema)
    before = copy.deepcopy(schema)
    got = pd_.build_all_jsonpaths(schema)
    mon.check(schema == before, "the schema has been modified")
    exp = {"".join("/" + docs.escape(p) for p in path) for path in leaves(schema)}
    mon.check(set(got) == exp, "listed %r, expected %r", sorted(got), sorted(exp))
    mon.ev("schema")
    mon.ev("path", len(exp))
    mon.ev("escaped", sum("~" in p for p in exp))
    mon.key(repr(schema))
    if not forks:
        mon.check(len(got) == len(exp), "paths listed more than once: %r", got)
        if got != [""]:
            doc = {}
            for n, p in enumerate(got):
                pd_.set_jsonpointer(doc, p, n)
            for n, p in enumerate(got):
                mon.check(pd_.resolve_jsonpointer(doc, p) == n, "%r resolves to %r", p, pd_.resolve_jsonpointer(doc, p))

            def tree(s):
                return {k: tree(o) for k, o in s["properties"].items()} if isinstance(s, dict) and s.get("properties") else None

            def blank(d):
                return {k: blank(v) for k, v in d.items()} if isinstance(d, dict) else None
            mon.check(blank(doc) == tree(schema), "document made through the paths %r", doc)
            mon.ev("populated")
    else:
        mon.ev("forks")


WORKLOADS = [("paths", w_paths, 2500, 60000)]
