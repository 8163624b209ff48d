"""Random documents of containers, pandas objects and scalars, with all their nodes."""
import datetime

import numpy as np
import pandas as pd

KEYS = ["a", "b", "foo", "", "a/b", "~", "~0", "~1", "~01", "/", "~/", "/~", "~~1//", "m~n", "0", "1", "-", "ünï", "a b", " ", "key\n", "%2F", ".", "..", "1.0", "01", "#", "None", "items", "x~10"]
PLAIN = ["a", "b", "foo", "bar", "x1", "0", "1", "k k", "ünï", "-", "a.b"]


def scalar(rng):
    return rng.choice([None, True, False, 0, 1, -3, 2.5, 0.0, "text", "", "0", float("inf"), datetime.date(2020, 1, 2), b"by", np.float64(3.5), np.int64(7)])


def intlike(text):
    try:
        int(text)
        return True
    except ValueError:
        return False


def doc(rng, depth=3, keys=KEYS, pandas=True, containers=("dict", "dict", "list"), scalars=scalar, empty_ok=True, intlabels=False):
    """A random container."""
    kinds = list(containers) + (["series", "frame"] if pandas else [])
    kind = rng.choice(kinds)
    n = rng.randrange(0 if empty_ok else 1, 4) if rng.random() < 0.93 else 7

    def sub():
        return doc(rng, depth - 1, keys, pandas, containers, scalars, intlabels=intlabels) if depth > 0 and rng.random() < 0.55 else scalars(rng)

    if kind == "dict":
        return {k: sub() for k in rng.sample(keys, min(n, len(keys)))}
    if kind == "list":
        return [sub() for _ in range(n)]
    if kind == "tuple":
        return tuple(sub() for _ in range(n))
    labels = rng.sample([k for k in keys if intlabels or not intlike(k)], max(1, n))
    if rng.random() < 0.3:
        labels = rng.choice([list(range(len(labels))), rng.sample(range(20), len(labels))])
    if kind == "series":
        if rng.random() < 0.3 and depth > 0:
            s = pd.Series([None] * len(labels), index=labels, dtype=object)
            for i in range(len(labels)):
                s.iat[i] = sub()
            return s
        return pd.Series([rng.randint(0, 99) * 1.5 for _ in labels], index=labels)
    cols = rng.sample(keys, rng.randint(1, 3))
    return pd.DataFrame([[rng.randint(0, 99) for _ in cols] for _ in labels], index=labels if rng.random() < 0.7 else None, columns=cols)


def children(node):
    """[(key-text, child)] of those addressable by texts."""
    if isinstance(node, dict):
        return [(k, v) for k, v in node.items() if isinstance(k, str)]
    if isinstance(node, (list, tuple)):
        return [(str(i), v) for i, v in enumerate(node)]
    if isinstance(node, pd.DataFrame):
        return [(c, node.iloc[:, i]) for i, c in enumerate(node.columns) if isinstance(c, str)]
    if isinstance(node, pd.Series):
        return [(str(k), node.iloc[i]) for i, k in enumerate(node.index)]
    return []


def nodes(doc, path=()):
    yield path, doc
    for k, v in children(doc):
        yield from nodes(v, path + (k,))


def escape(part):
    return "".join({"~": "~0", "/": "~1"}.get(c, c) for c in part)


def pointer(path):
    return "".join("/" + escape(p) for p in path)


def is_same_node(got, node):
    from .core import same

    if isinstance(node, (dict, list, pd.DataFrame)):
        return got is node
    return got is node or same(got, node)


def at(doc, path):
    """The node listed with that path."""
    for p in path:
        doc = next(v for k, v in children(doc) if k == p)
    return doc
