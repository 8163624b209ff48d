"""P22: JSON-pointers over every node of random documents."""
from jsonschema import RefResolutionError
from pandalone import pandata as pd_

import pandas as pd

from pvm import docs

RULE = ("random nested documents of dictionaries, lists, tuples, Series and DataFrames with adversarial keys (escapes, slashes, empty, digits, dashes); every node resolved by the pointer "
        "composed for it, mutated pointers classified by an own walker; random texts as pointer parts round-tripped; non-trivial = a document with several nodes")
FLOORS = {"node": 2700, "non-node": 5900, "parts": 6600, "escaped-node": 1000, "pandas-node": 700, "list-node": 340, "digits-label": 45, "relative": 540, "default": 23000, "root": 540}


def walk(doc, path):
    """-> (found, node); None if outside of the statement."""
    node = doc
    for p in path:
        if isinstance(node, (str, bytes)):
            return None, None
        if isinstance(node, (list, tuple)):
            if p.isascii() and p.isdigit() and (p == "0" or p[0] != "0"):
                if int(p) < len(node):
                    node = node[int(p)]
                    continue
                return False, None
            try:
                int(p)
                return None, None
            except ValueError:
                return False, None
        if isinstance(node, pd.Series) and docs.intlike(p) and p not in node.index and (node.index.dtype == object or str(int(p)) != p or int(p) < 0):
            return None, None
        for k, v in docs.children(node):
            if k == p:
                node = v
                break
        else:
            return False, None
    return True, node


def rand_text(rng):
    alphabet = ["~", "/", "0", "1", "a", "", "é", "~0", "~1", " ", "\n", "%", "~~", "//"]
    return "".join(rng.choice(alphabet) for _ in range(rng.randrange(6)))


def w_parts(rng, mon, i):
    for _ in range(20):
        parts = [rand_text(rng) for _ in range(rng.randrange(6))]
        esc = [pd_.escape_jsonpointer_part(p) for p in parts]
        mon.note("parts", parts)
        for p, e in zip(parts, esc):
            mon.check("/" not in e and pd_.unescape_jsonpointer_part(e) == p, "escaping %r as %r", p, e)
            mon.check(e == docs.escape(p), "%r escaped as %r, not as %r", p, e, docs.escape(p))
            mon.ev("parts")
        ptr = "".join("/" + e for e in esc)
        mon.eq(list(pd_.iter_jsonpointer_parts(ptr)), parts, "parts of %r" % ptr)
        mon.eq(list(pd_.iter_jsonpointer_parts_relaxed(ptr)), [""] + parts, "relaxed parts of %r" % ptr)
        if esc:
            mon.eq(list(pd_.iter_jsonpointer_parts_relaxed(ptr[1:])), parts, "relaxed parts of %r" % ptr[1:])
        mon.key("parts", ptr)


def w_docs(rng, mon, i):
    doc = docs.doc(rng, 4, containers=("dict", "dict", "list", "list", "tuple"), intlabels=True)
    if rng.random() < 0.05:
        doc = docs.scalar(rng)
    sentinel = object()
    count = 0
    for path, node in docs.nodes(doc):
        ptr = docs.pointer(path)
        mon.note("doc", doc, "pointer", ptr)
        for kw in ({}, {"default": sentinel}):
            got = pd_.resolve_jsonpointer(doc, ptr, **kw)
            mon.check(docs.is_same_node(got, node), "pointer %r into %r resolved to %r, expected %r", ptr, mon.desc, got, node)
        mon.ev("node" if path else "root")
        if "~" in ptr:
            mon.ev("escaped-node")
        if isinstance(node, (pd.Series, pd.DataFrame)):
            mon.ev("pandas-node")
        if isinstance(node, list):
            mon.ev("list-node")
        if path and docs.intlike(path[-1]) and isinstance(docs.at(doc, path[:-1]), pd.Series) and path[-1] in docs.at(doc, path[:-1]).index:
            mon.ev("digits-label")
        count += 1
    allnodes = list(docs.nodes(doc))
    for _ in range(12):
        path = list(rng.choice(allnodes)[0])
        k = rng.random()
        if k < 0.4 or not path:
            path.append(rng.choice(docs.KEYS + ["9", "3", "zz"]))
        elif k < 0.8:
            path[rng.randrange(len(path))] = rng.choice(docs.KEYS + ["9", "3", "zz"])
        else:
            path.insert(rng.randrange(len(path)), rng.choice(docs.KEYS))
        found, node = walk(doc, path)
        if found is None:
            continue
        ptr = docs.pointer(path)
        mon.note("doc", doc, "pointer", ptr)
        if found:
            got = pd_.resolve_jsonpointer(doc, ptr)
            mon.check(docs.is_same_node(got, node), "pointer %r into %r resolved to %r, expected %r", ptr, mon.desc, got, node)
            mon.ev("node")
            continue
        ex = mon.raises(RefResolutionError, pd_.resolve_jsonpointer, doc, ptr)
        for d in (None, sentinel, 0, RefResolutionError):
            mon.check(pd_.resolve_jsonpointer(doc, ptr, d) is d, "default %r of %r", d, ptr)
            mon.check(pd_.resolve_jsonpointer(doc, ptr, default=d) is d, "default %r of %r", d, ptr)
            mon.ev("default")
        mon.ev("non-node")
    ptr = rng.choice(["a", "foo/a", "0", " /a", "#/a", "~1", "."])
    mon.raises(RefResolutionError, pd_.resolve_jsonpointer, doc, ptr)
    mon.ev("relative")
    if count > 3:
        mon.key("doc", mon.desc)


WORKLOADS = [("parts", w_parts, 300, 5000), ("docs", w_docs, 1200, 25000)]
