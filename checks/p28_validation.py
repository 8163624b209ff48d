"""P28: verdicts on pandas/numpy clothed instances against the stock validator on plain ones."""
import copy

import jsonschema
import numpy as np
import pandas as pd
from pandalone.pandata import PandelVisitor

RULE = ("random schemas (drafts 4, 6, 7; type, properties, required, additional/pattern properties, ranges, patterns, items, enumerations, combinations, dependencies) with instances generated along "
        "them and mutated; each is validated plain and in random pandas/numpy clothing, and the failing rules and their paths compared with those of the stock validator; non-trivial = an invalid clothed instance")
FLOORS = {"plain": 6700, "clothed": 6700, "invalid": 2300, "valid": 4300, "series-object": 1000, "series-array": 570, "frame": 190, "ndarray": 400, "empty-array": 140, "empty-object": 220, "npscalar": 3700, "rule:type": 1300, "rule:required": 89, "rule:additionalProperties": 40, "rule:enum": 300, "rule:pattern": 240, "rule:minimum": 210, "rule:anyOf": 100, "rule:not": 87, "rule:items-path": 240, "version:0": 1000, "version:1": 550, "version:2": 550, "version:3": 1000, "version-invalid": 1200}
DRAFTS = ["http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-06/schema#", "http://json-schema.org/draft-07/schema#"]
KEYS = ["a", "b", "foo", "bar1", "x_y", "c2", "zoo"]
PATTERNS = ["^a", "b", "o+$", "\\d", "_"]
OBJ_WORDS = {"minProperties", "maxProperties", "properties", "required", "additionalProperties", "patternProperties", "dependencies", "propertyNames"}
ARR_WORDS = {"items", "minItems", "maxItems", "contains", "uniqueItems", "additionalItems"}


def scalar(rng):
    return rng.choice([None, True, False, 0, 1, 2, 5, -3, 2.5, 0.5, -1.5, 4.0, "", "a", "foo", "bar1", "text"])


def plain(rng, depth=2):
    k = rng.random()
    if depth > 0 and k < 0.3:
        return {x: plain(rng, depth - 1) for x in rng.sample(KEYS, rng.choice([0, 1, 2, 3, 3, 6]))}
    if depth > 0 and k < 0.5:
        return [plain(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 3, 7]))]
    return scalar(rng)


def rand_schema(rng, depth, draft):
    k = rng.random()
    if draft and k < 0.04:
        return rng.choice([True, False])
    if k < 0.1:
        return {}
    kind = rng.choice(["object", "object", "array", "number", "integer", "string", "boolean", "null", "enum", "const", "combo", "combo"])
    if depth <= 0 and kind in ("object", "array", "combo"):
        kind = "integer"
    s = {}
    typed = rng.random() < 0.8
    if kind == "object":
        if typed:
            s["type"] = rng.choice(["object", ["object", "null"]])
        names = rng.sample(KEYS, rng.choice([0, 1, 2, 3, 3, 6]))
        if names:
            s["properties"] = {n: rand_schema(rng, depth - 1, draft) for n in names}
        if rng.random() < 0.5:
            s["required"] = rng.sample(KEYS, rng.choice([1, 1, 2, 2, 5]))
        if rng.random() < 0.3:
            s["patternProperties"] = {p: rand_schema(rng, depth - 1, draft) for p in rng.sample(PATTERNS, rng.randint(1, 2))}
        if rng.random() < 0.4:
            s["additionalProperties"] = rng.choice([False, True, {"type": "integer"}, rand_schema(rng, 0, draft)])
        if rng.random() < 0.1:
            s["dependencies"] = {"a": ["b"]}
        for w in ("minProperties", "maxProperties"):
            if rng.random() < 0.15:
                s[w] = rng.randrange(4)
        if draft and rng.random() < 0.1:
            s["propertyNames"] = {"pattern": rng.choice(PATTERNS)}
    elif kind == "array":
        if typed:
            s["type"] = rng.choice(["array", ["string", "array"]])
        if rng.random() < 0.7:
            s["items"] = rand_schema(rng, depth - 1, draft)
        elif rng.random() < 0.5:
            s["items"] = [rand_schema(rng, 0, draft) for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.3:
            s["minItems"] = rng.randrange(3)
        if rng.random() < 0.3:
            s["maxItems"] = rng.randrange(4)
        if rng.random() < 0.3:
            s["uniqueItems"] = rng.random() < 0.9
        if draft and rng.random() < 0.15:
            s["contains"] = rng.choice([{"type": "integer"}, {"type": "string"}])
    elif kind in ("number", "integer"):
        if typed:
            s["type"] = rng.choice([kind, kind, [kind, "null"]])
        if rng.random() < 0.6:
            s["minimum"] = rng.choice([0, 1, 2, -2.5])
        if rng.random() < 0.4:
            s["maximum"] = rng.choice([2, 4, 0.5])
        if not draft and "minimum" in s and rng.random() < 0.3:
            s["exclusiveMinimum"] = True
        if draft and rng.random() < 0.2:
            s["exclusiveMaximum"] = rng.choice([2, 5])
        if rng.random() < 0.1:
            s["multipleOf"] = rng.choice([2, 0.5])
    elif kind == "string":
        if typed:
            s["type"] = rng.choice(["string", ["string", "integer"]])
        if rng.random() < 0.5:
            s["pattern"] = rng.choice(PATTERNS)
        if rng.random() < 0.3:
            s["minLength"] = rng.randint(0, 3)
        if rng.random() < 0.3:
            s["maxLength"] = rng.randint(1, 4)
    elif kind in ("boolean", "null"):
        s["type"] = kind
    elif kind == "enum":
        s["enum"] = [enumerated(rng) for _ in range(rng.randint(1, 5))]
    elif kind == "const":
        if draft:
            s["const"] = enumerated(rng)
        else:
            s["type"] = rng.choice(["number", ["integer", "string", "boolean"]])
    else:
        w = rng.choice(["anyOf", "oneOf", "allOf", "not"])
        s[w] = rand_schema(rng, depth - 1, draft) if w == "not" else [rand_schema(rng, depth - 1, draft) for _ in range(rng.choice([1, 2, 3] if rng.random() < 0.9 else [6]))]
        if rng.random() < 0.3:
            s["type"] = rng.choice(["object", "array", "integer", ["string", "number"]])
    return s


def enumerated(rng):
    """A value to compare with, as a whole."""
    r = rng.random()
    if r < 0.5:
        return rng.choice([scalar(rng), scalar(rng), [2, 5], ["a"], {"a": 2}, {}])
    if r < 0.75:
        return {k: rng.choice([1, 2, 2.5, "a", "c", [1, 2, 3], {"b": 1, "a": "x", "foo": 0}]) for k in rng.sample(KEYS, rng.randint(2, min(5, len(KEYS))))}
    return [rng.choice([0, 1, 2, 3.5, "b", "c", [1, 2], {"a": 1}]) for _ in range(rng.randint(2, 6))]


def nearly(rng, x):
    """The value differing in one spot, or nowhere."""
    x = copy.deepcopy(x)
    if rng.random() < 0.4 or not isinstance(x, (dict, list)) or not x:
        return x
    k = rng.choice(list(x)) if isinstance(x, dict) else rng.randrange(len(x))
    r = rng.random()
    if r < 0.5:
        x[k] = rng.choice([0, 1, 2, 5, "a", "b", "c", [1, 2], [1, 2, 4], {"a": 2}]) if rng.random() < 0.6 else nearly(rng, x[k])
    elif r < 0.75:
        del x[k]
    elif isinstance(x, dict):
        x[rng.choice(KEYS)] = 1
    else:
        x.insert(k, x[k])
    return x


def along(rng, s, depth):
    """An instance inspired by the schema."""
    if not isinstance(s, dict) or not s or rng.random() < 0.08:
        return plain(rng, min(depth, 2))
    for w in ("anyOf", "oneOf", "allOf"):
        if w in s:
            return along(rng, rng.choice(s[w]), depth)
    if "enum" in s and rng.random() < 0.7:
        return nearly(rng, rng.choice(s["enum"]))
    if "const" in s and rng.random() < 0.7:
        return nearly(rng, s["const"])
    t = s.get("type")
    if isinstance(t, list):
        t = rng.choice(t)
    if t == "object" or not t and OBJ_WORDS & set(s):
        props = s.get("properties", {})
        names = [n for n in props if rng.random() < 0.85] + [n for n in s.get("required", []) if rng.random() < 0.85]
        if s.get("additionalProperties") is not False or rng.random() < 0.2:
            names += rng.sample(KEYS, rng.randrange(2))
        if rng.random() < 0.5:  # a table
            n = rng.randint(1, 3)
            out = {}
            for k in dict.fromkeys(names):
                sub = props.get(k, {})
                items = sub.get("items", {}) if isinstance(sub, dict) else {}
                out[k] = [along(rng, items if isinstance(items, dict) else {}, 0) for _ in range(n)]
            return out
        return {k: along(rng, props.get(k, {}), depth - 1) for k in dict.fromkeys(names)}
    if t == "array" or not t and ARR_WORDS & set(s):
        items = s.get("items", {})
        return [along(rng, items if isinstance(items, dict) else {}, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 3, 7]))]
    if t == "integer":
        return rng.choice([0, 1, 2, 3, 5, -1, 1.0, -3.0])
    if t == "number":
        return rng.choice([0, 1, 2.5, 3, -0.5, 2.0])
    if t == "string":
        return rng.choice(["a", "foo", "bar1", "", "x_y"])
    if t == "boolean":
        return rng.choice([True, False])
    if t == "null":
        return None
    return plain(rng, depth)


def flat(schemas):
    """All schemas applying at a place, through combinations."""
    out = []
    for s in schemas:
        if isinstance(s, dict):
            out.append(s)
            for w in ("anyOf", "oneOf", "allOf"):
                out += flat(s.get(w, []))
            if "not" in s:
                out += flat([s["not"]])
    return out


def mentions(schemas, typ, words):
    for s in schemas:
        t = s.get("type", [])
        if typ == t or isinstance(t, list) and typ in t or words & set(s):
            return True
        for each in s.get("enum", []) + [s.get("const")]:
            if isinstance(each, dict) and typ == "object" or isinstance(each, list) and typ == "array":
                return True
    return False


def subs_key(schemas, key):
    out = []
    for s in schemas:
        out += [s["properties"][key]] if key in s.get("properties", {}) else []
        out += list(s.get("patternProperties", {}).values())
        out += [s["additionalProperties"]] if isinstance(s.get("additionalProperties"), dict) else []
    return flat(out)


def subs_items(schemas):
    out = []
    for s in schemas:
        i = s.get("items", [])
        out += i if isinstance(i, list) else [i]
        out += [s["contains"]] if "contains" in s else []
    return flat(out)


def is_scalar(x):
    return not isinstance(x, (dict, list))


def column(rng, values, index=None):
    """A series keeping the json-types of the values."""
    types = {type(v) for v in values}
    if len(types) == 1 and types <= {int, float, bool} and values and rng.random() < 0.7:
        return pd.Series(values, index=index)
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return pd.Series(a, index=index, dtype=object)


def has_series(x):
    if isinstance(x, (dict, list, tuple)):
        return any(map(has_series, x.values() if isinstance(x, dict) else x))
    return isinstance(x, pd.Series)


def clothe(rng, mon, x, schemas, p=0.6):
    if isinstance(x, list) and any(s.get("uniqueItems") for s in schemas) and not all(map(is_scalar, x)):
        # A series equals a list as an array, and a mapping as an object: no telling which, when comparing it to others.
        items = [clothe(rng, mon, v, subs_items(schemas), p) for v in x]
        return [v if has_series(d) else d for v, d in zip(x, items)]
    return clothe_any(rng, mon, x, schemas, p)


def clothe_any(rng, mon, x, schemas, p):
    if rng.random() > p:
        if isinstance(x, dict):
            return {k: clothe(rng, mon, v, subs_key(schemas, k), p) for k, v in x.items()}
        if isinstance(x, list):
            return [clothe(rng, mon, v, subs_items(schemas), p) for v in x]
        return x
    if isinstance(x, dict):
        vals = list(x.values())
        lens = {len(v) if isinstance(v, list) else -1 for v in vals}
        if len(lens) == 1 and lens > {-1} or (len(lens) == 1 and -1 not in lens and 0 not in lens):
            if all(is_scalar(i) for v in vals for i in v) and not any(mentions(subs_key(schemas, k), "object", OBJ_WORDS) for k in x):
                n = lens.pop()
                idx = rng.choice([None, ["r%d" % i for i in range(n)], list(range(5, 5 + n))])
                mon.ev("frame")
                return pd.DataFrame({k: column(rng, v, idx) for k, v in x.items()})
        if vals and not mentions(schemas, "array", ARR_WORDS):
            mon.ev("series-object")
            return column(rng, [v if is_scalar(v) else clothe(rng, mon, v, subs_key(schemas, k), p) for k, v in x.items()], list(x))
        if not x and rng.random() < 0.7:
            mon.ev("empty-object")
            if rng.random() < 0.5 and not mentions(schemas, "array", ARR_WORDS):
                return pd.Series([], dtype=rng.choice([object, float]), index=pd.Index([], dtype=object))
            return pd.DataFrame()
        return {k: clothe(rng, mon, v, subs_key(schemas, k), p) for k, v in x.items()}
    if isinstance(x, list):
        types = {type(v) for v in x}
        if x and all(map(is_scalar, x)) and rng.random() < 0.5:
            if len(types) == 1 and types <= {int, float, bool, str}:
                mon.ev("ndarray")
                return np.array(x)
            mon.ev("ndarray")
            a = np.empty(len(x), dtype=object)
            a[:] = x
            return a if len(x) > 1 or x[0] is not None else x
        if x and not mentions(schemas, "object", OBJ_WORDS):
            mon.ev("series-array")
            return column(rng, [v if is_scalar(v) else clothe(rng, mon, v, subs_items(schemas), p) for v in x], rng.choice([None, ["r%d" % i for i in range(len(x))]]))
        if not x and rng.random() < 0.7:
            mon.ev("empty-array")
            if rng.random() < 0.3 and not mentions(schemas, "object", OBJ_WORDS):
                return pd.Series([], dtype=rng.choice([object, float, int]))
            return np.array([], dtype=rng.choice([object, float, int, bool, str]))
        return rng.choice([list, tuple])(clothe(rng, mon, v, subs_items(schemas), p) for v in x)
    mon.ev("npscalar")
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return rng.choice([np.int64, np.int32, np.int8] + [np.uint8, np.uint16, np.uint64] * (x >= 0))(x)
    if isinstance(x, float):
        return rng.choice([np.float64, np.float32, np.float16])(x)
    if isinstance(x, str):
        return np.str_(x)
    return x


def printable(x):
    """Pandas fails printing some nested objects, that error-messages print."""
    try:
        repr(x)
    except Exception:
        return False
    if isinstance(x, (dict, pd.Series)):
        return all(printable(v) for v in (x.values() if isinstance(x, dict) else list(x)))
    if isinstance(x, (list, tuple)):
        return all(map(printable, x))
    return True


def errors(validator, inst):
    out = []
    for e in validator.iter_errors(inst):
        out.append((str(e.validator), [str(p) for p in e.absolute_path], [str(p) for p in e.absolute_schema_path]))
    return sorted(out)


def w_valid(rng, mon, i):
    draft = rng.randrange(3)
    schema = {}
    while not schema or not isinstance(schema, dict):
        schema = rand_schema(rng, rng.choice([1, 2, 2, 3]), draft)
    schema["$schema"] = DRAFTS[draft]
    stock = jsonschema.validators.validator_for(schema)(schema)
    jsonschema.validators.validator_for(schema).check_schema(schema)
    for _ in range(6):
        inst = along(rng, schema, 3)
        exp = errors(stock, inst)
        mon.note("schema", schema, "instance", inst)
        sch = copy.deepcopy(schema)
        v = PandelVisitor(sch) if rng.random() < 0.7 else PandelVisitor(sch, auto_default=False)
        got = errors(v, inst)
        mon.check(got == exp, "plain %r with %r fails %r, expected %r", inst, schema, got, exp)
        mon.check(v.is_valid(inst) == (not exp), "is_valid()")
        mon.ev("plain")
        mon.ev("invalid" if exp else "valid")
        for e in exp:
            mon.ev("rule:" + e[0])
            if any(p.isdigit() for p in e[1]):
                mon.ev("rule:items-path")
        dressed = clothe(rng, mon, inst, flat([schema]), rng.choice([0.3, 0.6, 1]))
        if not printable(dressed):
            mon.ev("unprintable")
            continue
        mon.note("schema", schema, "instance", inst, "clothed", dressed)
        norm = lambda errs: sorted((w, [p for p in path if not p.isdigit()], sp) for w, path, sp in errs)
        got = errors(v, dressed)
        mon.check(norm(got) == norm(exp), "clothed instance fails %r, expected %r", got, exp)
        mon.check(v.is_valid(dressed) == (not exp), "is_valid() of clothed")
        mon.check(sch == schema, "schema changed")
        mon.ev("clothed")
        if exp:
            mon.key(repr(schema), repr(inst))


def foreign(rng, s, draft, depth=0):
    """Sprinkle with keywords that other versions define, shared definitions and formats."""
    if isinstance(s, list):
        return [foreign(rng, i, draft, depth) for i in s]
    if not isinstance(s, dict):
        return s
    out = {}
    for k, v in s.items():
        if k in ("properties", "patternProperties"):
            v = {n: foreign(rng, sub, draft, depth + 1) for n, sub in v.items()}
        elif k in ("items", "additionalProperties", "not", "anyOf", "oneOf", "allOf", "contains"):
            v = foreign(rng, v, draft, depth + 1)
        out[k] = v
    if rng.random() < 0.25:
        w = rng.choice(["const", "propertyNames", "contains", "if", "minProperties", "maxProperties", "format", "$ref", "definitions", "dependentRequired", "examples", "divisibleBy", "disallow"])
        out.setdefault(w, {"const": rng.choice([1, "a", None, [2]]), "propertyNames": {"pattern": rng.choice(PATTERNS)}, "contains": {"type": "integer"}, "if": {"type": rng.choice(["integer", "object", "string"])},
                           "minProperties": 1, "maxProperties": 1, "format": rng.choice(["ipv4", "email", "date", "regex"]), "$ref": "#/definitions/d", "definitions": {"x": {"type": "null"}},
                           "dependentRequired": {"a": ["b"]}, "examples": [1], "divisibleBy": 2, "disallow": ["string"]}[w])
        if w == "if":
            out.update(then=rand_schema(rng, 0, draft), **{"else": rand_schema(rng, 0, draft)})
    return out


def to_draft3(rng, s):
    if isinstance(s, bool) or not isinstance(s, dict):
        return {}
    out = {}
    for k, v in s.items():
        if k == "properties":
            out[k] = {n: dict(to_draft3(rng, sub), **({"required": True} if n in s.get("required", ()) else {})) for n, sub in v.items()}
        elif k == "patternProperties":
            out[k] = {n: to_draft3(rng, sub) for n, sub in v.items()}
        elif k == "required":
            pass
        elif k == "multipleOf":
            out["divisibleBy"] = v
        elif k in ("anyOf", "oneOf"):
            out["type"] = [to_draft3(rng, i) for i in v] + rng.choice([[], ["null"]])
        elif k == "not":
            out["disallow"] = [to_draft3(rng, v)]
        elif k == "allOf":
            out["extends"] = [to_draft3(rng, i) for i in v]
        elif k == "items":
            out[k] = [to_draft3(rng, i) for i in v] if isinstance(v, list) else to_draft3(rng, v)
        elif k == "additionalProperties":
            out[k] = v if isinstance(v, bool) else to_draft3(rng, v)
        elif k == "type" and "type" in out:
            pass
        else:
            out[k] = v
    return out


def w_versions(rng, mon, i):
    """Plain trees and schemas of any version, with keywords of the others."""
    draft = rng.choice([0, 0, 1, 2, 3, 3])
    schema = {}
    while not schema or not isinstance(schema, dict):
        schema = rand_schema(rng, rng.choice([1, 2, 2, 3]), draft % 3)
    base = schema
    if draft == 3:
        schema = to_draft3(rng, schema)
    schema = foreign(rng, schema, draft % 3)
    schema.pop("$ref", None)
    schema["definitions"] = {"d": {"type": rng.choice(["integer", "object", "string"]), "minimum": 2}}
    schema["$schema"] = (DRAFTS + ["http://json-schema.org/draft-03/schema#"])[draft]
    cls = jsonschema.validators.validator_for(schema)
    try:
        cls.check_schema(schema)
    except jsonschema.SchemaError:
        mon.ev("schema-refused")
        return
    fc = rng.choice([None, None, jsonschema.FormatChecker()])
    stock = cls(schema, format_checker=fc)
    for _ in range(5):
        inst = along(rng, base, 3)
        mon.note("schema", schema, "instance", inst, "formats", fc is not None)
        sch = copy.deepcopy(schema)
        exp = errors(stock, inst)
        kept = copy.deepcopy(inst)
        got = errors(PandelVisitor(sch, format_checker=fc), inst)
        mon.check(got == exp, "plain %r with %r fails %r, expected %r", inst, schema, got, exp)
        mon.check(inst == kept and sch == schema, "instance or schema changed")
        mon.ev("version:%d" % draft)
        mon.ev("version-invalid" if exp else "version-valid")
        if exp:
            mon.key("version", repr(schema), repr(inst))


WORKLOADS = [("valid", w_valid, 2500, 30000), ("versions", w_versions, 1500, 20000)]
