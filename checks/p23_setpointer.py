"""P23: set_jsonpointer() against a reference setter over a shadow document."""
import copy

from jsonschema import RefResolutionError
from pandalone import pandata as pd_

from pvm import docs
from pvm.core import same

RULE = ("random documents of dictionaries and lists with adversarial keys, and histories of sets by existing, extending, appending, scalar-crossing and invalid pointers; after each, the whole "
        "document is compared with one set by a reference setter, and identities of the untouched containers with those before; non-trivial = a changing set")
FLOORS = {"set": 6200, "existing": 2300, "extend": 2200, "append": 360, "over-scalar": 1200, "invalid": 2100, "list-item": 3900, "empty": 1000, "factory": 980, "far-negative": 200}


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def setref(mon, doc, path, value, factory=dict):
    """Copy-free reference: raises Bad before changing anything."""
    if not path:
        mon.ev("empty")
        raise Bad()
    node = doc
    for k, p in enumerate(path):
        last = k == len(path) - 1
        if isinstance(node, list):
            if p == "-":
                i = len(node)
            elif p.isascii() and p.isdigit() and str(int(p)) == p:
                i = int(p)
            else:
                try:
                    i = int(p)
                except ValueError:
                    raise Bad()
                if -len(node) <= i <= len(node):
                    raise Skip()
                mon.ev("far-negative" if i < 0 else "far")
                raise Bad()
            if i > len(node):
                raise Bad()
            mon.ev("list-item")
            if i == len(node):
                mon.ev("append")
                node.append(branch(path[k + 1:], value, factory))
                return
            if last:
                node[i] = value
                mon.ev("existing")
                return
            if not isinstance(node[i], (dict, list)):
                mon.ev("over-scalar")
                node[i] = branch(path[k + 1:], value, factory)
                return
            node = node[i]
        else:
            if last or p not in node:
                mon.ev("existing" if p in node else "extend")
                node[p] = branch(path[k + 1:], value, factory)
                return
            if not isinstance(node[p], (dict, list)):
                mon.ev("over-scalar")
                node[p] = branch(path[k + 1:], value, factory)
                return
            node = node[p]


def branch(path, value, factory):
    for p in reversed(path):
        d = factory()
        d[p] = value
        value = d
    return value


class Dict(dict):
    pass


def scalars(rng):
    return rng.choice([None, True, 0, 1, 2.5, "text", "", "0", "a"])


def w_sets(rng, mon, i):
    doc = docs.doc(rng, 3, pandas=False, containers=("dict", "dict", "list"), scalars=scalars)
    shadow = copy.deepcopy(doc)
    hist = []
    for _ in range(rng.randint(3, 12)):
        path = list(rng.choice(list(docs.nodes(doc)))[0])
        k = rng.random()
        if k < 0.5:
            path += [rng.choice(docs.KEYS + ["-", "-", "0", "2"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        elif k < 0.6 and path:
            path[rng.randrange(len(path))] = rng.choice(docs.KEYS + ["-", "9"])
        for p, n in docs.nodes(doc):
            if list(p) == path[:-1] and isinstance(n, list) and path:
                if rng.random() < 0.5:
                    path[-1] = rng.choice(["-", str(len(n)), str(len(n) + 1), str(len(n) + 7), "zz", "0", "-%d" % (len(n) + rng.choice([1, 1, 2, 9])), "-1"])
        value = rng.choice([scalars(rng), {}, [], {"q": [1]}, [{"r": 2}], object(), None])
        ptr = docs.pointer(path)
        hist.append((ptr, value))
        mon.note("history", hist)
        factory = Dict if rng.random() < 0.15 else None
        ids = {p: n for p, n in docs.nodes(doc) if isinstance(n, (dict, list))}
        try:
            setref(mon, shadow, path, value, factory or dict)
        except Skip:
            hist.pop()
            continue
        except Bad:
            mon.raises(RefResolutionError, pd_.set_jsonpointer, doc, ptr, value)
            mon.check(same(doc, shadow), "rejected set of %r changed the document to %r, from %r", ptr, doc, shadow)
            mon.ev("invalid")
            continue
        if factory:
            pd_.set_jsonpointer(doc, ptr, value, object_factory=factory)
            mon.ev("factory")
        else:
            pd_.set_jsonpointer(doc, ptr, value)
        mon.ev("set")
        mon.check(same(doc, shadow), "after setting %r to %r: %r, expected %r", ptr, value, doc, shadow)
        # identities: containers off the path, or above the point changed, stay the same objects
        real = path[:-1] + ([str(len(docs_get(doc, path[:-1])) - 1)] if path[-1] == "-" and isinstance(docs_get(doc, path[:-1]), list) else [str(int(path[-1])) if isinstance(docs_get(doc, path[:-1]), list) else path[-1]])
        for p, n in docs.nodes(doc):
            if p in ids and list(p) != real[:len(p)] and list(p[:len(real)]) != real:
                mon.check(n is ids[p], "setting %r replaced the container at %r", ptr, p)
        if "-" not in path:
            got = pd_.resolve_jsonpointer(doc, ptr)
            mon.check(got is value or same(got, value), "%r set to %r resolves to %r", ptr, value, got)
            mon.check(got is value, "%r resolves to another object than that set", ptr)
        mon.key(ptr, repr(shadow))
        # keep shadow & document containers apart
        if isinstance(value, (dict, list)):
            shadow = copy.deepcopy(shadow, {id(v): v for v in objs(shadow)})


def objs(x):
    if isinstance(x, dict):
        return [o for v in x.values() for o in objs(v)]
    if isinstance(x, list):
        return [o for v in x for o in objs(v)]
    return [x]


def docs_get(doc, path):
    for p in path:
        doc = doc[int(p)] if isinstance(doc, list) and p != "-" else doc[-1] if isinstance(doc, list) else doc[p]
    return doc


WORKLOADS = [("sets", w_sets, 2500, 60000)]
