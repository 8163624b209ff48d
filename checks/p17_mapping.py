from pandalone.mappings import pmods_from_tuples

from pvm import maps

RULE = ("random rule lists (exact, regex, nested, overlapping, re-declared, with relative/absolute/dotted destinations and group references) and random "
        "paths over a small alphabet, mapped by the library and by a rule-table interpreter; non-trivial = some rule applied, keyed by rules and path")
FLOORS = {"mapped": 19000, "changed": 8700, "unchanged": 8800, "multi-match": 8100, "rerooted": 850, "dotted": 1500, "all": 1100, "all-dotted": 270}


def check_one(rng, mon, rules, pm, model, path):
    mon.note("rules", rules, "path", path)
    try:
        exp = model.map_path(path)
    except maps.Skip:
        mon.ev("skipped")
        return
    got = pm.map_path(path)
    mon.check(got == exp and type(got) is str, "%r through %r maps to %r, expected %r", path, rules, got, exp)
    mon.ev("mapped")
    norm = maps.normalize(path.split("/"))
    mon.ev("changed" if exp != norm else "unchanged")
    if exp != norm:
        mon.key(tuple(rules), path)
    # what the monitor saw
    active = [()]
    for s in path.split("/"):
        active, dest = model.descend(active, s)
        if len(active) > 1:
            mon.ev("multi-match")
        if dest is not None and (dest == "" or dest.startswith("/")):
            mon.ev("rerooted")
        if dest is not None and dest.startswith("."):
            mon.ev("dotted")
        # descend/alias agree with the interpreter


def w_map(rng, mon, i):
    rules = maps.rand_rules(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 14]))
    model, pm = maps.Rules(rules), pmods_from_tuples(rules)
    paths = [maps.rand_path(rng) for _ in range(10)]
    for path in paths:
        check_one(rng, mon, rules, pm, model, path)
    try:
        exp = [model.map_path(p) for p in paths]
    except maps.Skip:
        return
    mon.eq(pm.map_paths(paths), exp, "paths %r through %r" % (paths, rules))
    mon.ev("all")


def w_regex_order(rng, mon, i):
    """Few steps, many overlapping regexes with nested children, re-declared in various orders."""
    rules = []
    for _ in range(rng.randint(3, 9)):
        f = "/" + "/".join("~" + rng.choice(["a.*", ".*", "(.)(.*)", "a1|b", "a(.?)"]) if rng.random() < 0.8 else rng.choice(["a", "a1"])
                           for _ in range(rng.choice([1, 1, 2, 2, 3])))
        rules.append((f, rng.choice(["U%d", "V%d", "W%d/k"]) % len(rules) if rng.random() < 0.7 else r"\g<0>%d" % len(rules) if maps.groups(f) >= 0 else "Z"))
    model, pm = maps.Rules(rules), pmods_from_tuples(rules)
    for _ in range(8):
        path = "/" + "/".join(rng.choice(["a", "a1", "b", "ab"]) for _ in range(rng.randint(1, 4)))
        check_one(rng, mon, rules, pm, model, path)


def w_steps(rng, mon, i):
    """Descending step by step gives the same destinations as mapping whole paths."""
    rules = maps.rand_rules(rng, rng.choice([1, 2, 3, 4, 5, 6, 7, 14]))
    model, pm = maps.Rules(rules), pmods_from_tuples(rules)
    active = [()]
    path = maps.rand_path(rng, dots=False)
    for s in path.split("/"):
        mon.note("rules", rules, "path", path, "step", s)
        mon.check(pm.alias(s) == model.descend(active, s)[1], "alias(%r) of %r along %r: %r, expected %r", s, rules, path, pm.alias(s), model.descend(active, s)[1])
        active, dest = model.descend(active, s)
        pm, alias = pm.descend(s)
        mon.check(alias == dest, "destination of %r along %r with %r: %r, expected %r", s, path, rules, alias, dest)
        mon.check((pm is None) == (not active), "mappings below %r along %r with %r: %r", s, path, rules, pm)
        mon.ev("mapped")
        if pm is None:
            break
    mon.key("steps", tuple(rules), path)


def w_none(rng, mon, i):
    """No mappings, or none that match: a path is its normalized self; invalid tuples are skipped."""
    rules = maps.rand_rules(rng, rng.randint(0, 4), names=["q", "r"])
    rules = [(f, t) for f, t in rules if f and "~" not in f]
    junk = [rng.choice([("", ""), (None, "x"), ("/a", None), (None, None)]) for _ in range(rng.randrange(3))]
    tuples = rules + junk
    rng.shuffle(tuples)
    pm = pmods_from_tuples(tuples)
    for _ in range(5):
        path = maps.rand_path(rng, names=["a", "b", "c"])
        check_one(rng, mon, tuples, pm, maps.Rules(tuples), path)
        if not any(f.split("/")[0] == "" and f.split("/")[1:2] == [""] for f, _ in rules):
            mon.check(pm.map_path(path) == maps.normalize(path.split("/")), "unmatched %r maps to %r with %r", path, pm.map_path(path), tuples)


def w_dots(rng, mon, i):
    """Everything dotted, and relative from the root on."""
    dots = [".", "..", "../..", "./k", "../U", "../../V", "X/..", "X/../..", "./..", "../.", "../../../W", ".sub", "..", "X"]
    rules = []
    if rng.random() < 0.8:
        rules.append(("", rng.choice(dots + ["R", "r/s"])))
    for _ in range(rng.randint(1, 5)):
        rules.append((rng.choice(["/", "/a/", "/a/b/", "/~.*/", "/a/~.*/"])[:-1] + "/" + rng.choice(["a", "b", "~.*"]), rng.choice(dots)))
    model, pm = maps.Rules(rules), pmods_from_tuples(rules)
    for _ in range(8):
        path = "/" + "/".join(rng.choice(["a", "b", "a", "b", "..", ".", "c"]) for _ in range(rng.randint(1, 5)))
        check_one(rng, mon, rules, pm, model, path)
    mon.ev("all-dotted")


WORKLOADS = [("map", w_map, 2500, 60000), ("regex-order", w_regex_order, 1500, 40000), ("steps", w_steps, 1500, 30000), ("none", w_none, 400, 4000), ("dots", w_dots, 600, 20000)]
