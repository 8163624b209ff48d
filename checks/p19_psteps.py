"""P19: path-objects against a shadow tree maintained along their history."""
from pandalone.mappings import Pstep, pmods_from_tuples

from pvm import maps

RULE = ("random histories of attribute references, string/invalid assignments and tags over nested path-objects, with random mappings or none; after each operation "
        "the touched steps, and regularly the whole tree and its listings, are compared with a shadow tree; non-trivial = histories with renames or mapped steps")
FLOORS = {"op": 8400, "refer": 10000, "existing": 5700, "rename": 1200, "rename-with-children": 220, "tag": 1200, "invalid": 580, "listing": 3900, "tag-listing": 11000, "mapped-step": 1900, "mapped-listing": 630, "empty-name": 49}
TAGS = ["inp", "out", "t"]


def check_step(mon, p, node):
    mon.check(isinstance(p, Pstep) and isinstance(p, str), "step %r is a %s", p, type(p))
    mon.check(p == node.name and str(p) == node.name and {node.name: 1}.get(p) == 1 and hash(p) == hash(node.name), "step %r should be %r", p, node.name)
    mon.check(len(p) == len(node.name), "length of %r", p)
    if node.obj is not None:
        mon.check(p is node.obj, "referencing %r gave another object", node.key)
    node.obj = p


def check_tree(mon, p, node):
    check_step(mon, p, node)
    mon.check(set(p._tags) == node.tags, "tags of %r: %r, not %r", p, p._tags, node.tags)
    mon.check(p._locked == node.lock, "lock of %r: %r", p, p._locked)
    mon.check(sorted(p._steps(keys=True)) == sorted(node.kids), "children of %r: %r, not %r", p, list(p._steps(keys=True)), list(node.kids))
    for key, k in node.kids.items():
        check_tree(mon, getattr(p, key), k)


def check_listing(mon, root, shadow):
    mon.check(root._paths() == shadow.paths(), "paths %r, expected %r", root._paths(), shadow.paths())
    mon.ev("listing")
    for t in TAGS:
        mon.check(root._paths(tag=t) == shadow.paths(t), "paths tagged %r: %r, expected %r", t, root._paths(tag=t), shadow.paths(t))
        mon.ev("tag-listing")


NAMES = ["a", "b", "ab", "a1", "foo"]


def go(rng, mon, root, shadow, hist):
    """Refer along a random chain."""
    p, n = root, shadow
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        key = rng.choice(NAMES)
        mon.ev("existing" if key in n.kids else "refer")
        hist.append("." + key)
        p, n = getattr(p, key), n.kid(key)
        mon.ev("mapped-step" if n.mapped else "unmapped-step")
        if n.name == "":
            mon.ev("empty-name")
        check_step(mon, p, n)
    return p, n


def w_tree(rng, mon, i):
    rules = [] if rng.random() < 0.3 else maps.rand_rules(rng, rng.randint(2, 9), True, NAMES, True)
    model = maps.Rules(rules)
    k = rng.random()
    rootname = "" if k < 0.7 else rng.choice(NAMES)
    if k >= 0.7:  # relative rules for a named root
        rules = [(f[1:] if f.startswith("/") else f, t) for f, t in rules]
        model = maps.Rules(rules)
    root = Pstep(rootname, maps=pmods_from_tuples(rules) if rng.random() < 0.7 else rules) if rules or rng.random() < 0.5 else Pstep(rootname)
    if rules and rootname == "" and rng.random() < 0.5:
        root = pmods_from_tuples(rules).step()
    shadow = maps.Node(model, [()], rootname)
    hist = [repr(rootname)]
    renamed = False
    for _ in range(rng.randint(6, 25)):
        mon.note("rules", rules, "history", "; ".join(hist))
        hist.append("; root")
        p, n = go(rng, mon, root, shadow, hist)
        op = rng.random()
        mon.ev("op")
        if op < 0.15:
            key, name = rng.choice(list(n.kids) if n.kids and rng.random() < 0.6 else NAMES), rng.choice(["N", "new name", "n/m", "", "ab", "a", "Mass [kg]"])
            hist.append(".%s = %r" % (key, name))
            if key in n.kids:
                mon.ev("rename-existing")
                if n.kids[key].kids:
                    mon.ev("rename-with-children")
            setattr(p, key, name)
            n.rename(key, name)
            check_step(mon, getattr(p, key), n.kids[key])
            mon.ev("rename")
            renamed = True
        elif op < 0.3:
            tags = rng.sample(TAGS, rng.randrange(3))
            hist.append("._tag%r" % (tuple(tags),))
            mon.check(p._tag(*tags) is p, "_tag() should return the step")
            n.tags |= set(tags)
            mon.ev("tag")
        elif op < 0.38:
            t = rng.choice(TAGS)
            hist.append("._tag_remove(%r)" % t)
            mon.check(p._tag_remove(t) is p, "_tag_remove() should return the step")
            n.tags.discard(t)
            mon.ev("untag")
        elif op < 0.45:
            key, bad = rng.choice(NAMES), rng.choice([None, 1, 0, 2.5, [], ["a"], {}, b"x", True, object])
            hist.append(".%s = %r" % (key, bad))
            mon.raises(AssertionError, setattr, p, key, bad)
            mon.ev("invalid")
            check_tree(mon, root, shadow)
        if rng.random() < 0.4:
            check_listing(mon, root, shadow)
    check_tree(mon, root, shadow)
    check_listing(mon, root, shadow)
    if renamed or rules:
        mon.key(tuple(rules), "".join(hist))


def w_mapped(rng, mon, i):
    """Listed paths under mappings are the mapped unmapped ones."""
    rules = maps.rand_rules(rng, rng.randint(1, 7), plain=True)
    pm = pmods_from_tuples(rules)
    plain, root = Pstep(), pm.step()
    for _ in range(rng.randint(1, 8)):
        p, q = plain, root
        for _ in range(rng.randint(1, 5)):
            key = rng.choice(NAMES)
            p, q = getattr(p, key), getattr(q, key)
            if rng.random() < 0.2:
                p._tag("t"), q._tag("t")
    mon.note("rules", rules, "paths", plain._paths())
    for tag in (None, "t"):
        exp = sorted({maps.Rules(rules).map_path(p) for p in plain._paths(tag=tag)})
        got = root._paths(tag=tag)
        mon.check(got == exp, "paths referenced through %r are %r, expected %r", rules, got, exp)
        mon.check(sorted(set(pm.map_paths(plain._paths(tag=tag)))) == got, "paths %r mapped differ from those referenced %r", plain._paths(), got)
        mon.ev("mapped-listing")
    mon.key(tuple(rules), tuple(plain._paths()))


WORKLOADS = [("tree", w_tree, 1200, 25000), ("mapped", w_mapped, 700, 15000)]
