"""P18: no use of a mappings hierarchy changes it."""
from pandalone.components import Assembly, FuncComponent
from pandalone.mappings import Pstep, pmods_from_tuples

from pvm import maps

RULE = ("random rule lists; histories of map_path(s)/descend/alias/path-attribute references, renames, tags and component builds over one shared hierarchy (and over the "
        "hierarchies got by descending it), with the structure of the shared ones and the mapping of probe paths compared after each operation with freshly declared ones; "
        "non-trivial = the hierarchy has overlapping rules and the history descends or references into them")
FLOORS = {"op": 7000, "probe": 14000, "op:descend": 1500, "op:attr": 1500, "op:rename": 700, "op:build": 500, "op:map_paths": 700, "derived": 700}


def snap(pm):
    return repr(pm)


ATTRS = maps.NAMES


def op_map(rng, mon, pms):
    mon.ev("op:map_path")
    rng.choice(pms).map_path(maps.rand_path(rng))


def op_maps(rng, mon, pms):
    paths = [maps.rand_path(rng) for _ in range(rng.randrange(6))]
    pm = rng.choice(pms)
    got = pm.map_paths(paths)
    mon.eq(got, [pm.map_path(p) for p in paths], "map_paths of %r" % paths)
    mon.eq(got, [x for p in paths for x in pm.map_paths([p])], "map_paths alone of %r" % paths)
    mon.ev("op:map_paths")


def op_descend(rng, mon, pms):
    pm = rng.choice(pms)
    for _ in range(rng.randint(1, 4)):
        step = "" if pm is pms[0] and rng.random() < 0.9 else rng.choice(ATTRS)
        before, alias = pm.alias(step), None
        pm2, alias = pm.descend(step)
        mon.check(alias == before, "alias(%r) gives %r, but descend(%r) %r", step, before, step, alias)
        if pm2 is None:
            break
        pm = pm2
        mon.ev("op:descend")
    if pm not in pms and len(pms) < 6:
        pms.append(pm)
        mon.ev("derived")


def op_pstep(rng, mon, pms):
    pm = rng.choice(pms)
    root = pm.step() if pm is pms[0] or rng.random() < 0.3 else Pstep(rng.choice(ATTRS), maps=pm) if rng.random() < 0.8 else pm.step(rng.choice(ATTRS), alias="zz")
    for _ in range(rng.randint(1, 6)):
        p = root
        for _ in range(rng.randint(1, 3)):
            name = rng.choice(ATTRS)
            if rng.random() < 0.25:
                setattr(p, name, rng.choice(["N", "n/m", "", "ab"]))
                mon.ev("op:rename")
            p = getattr(p, name)
            mon.ev("op:attr")
        if rng.random() < 0.2:
            p._tag("t")
        if rng.random() < 0.2:
            setattr(root, rng.choice(ATTRS), p)
            mon.ev("op:graft")
            return  # the same step under two parents
    root._paths()
    root._paths(with_orig=True)


def op_build(rng, mon, pms):
    chains = [[rng.choice(ATTRS) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 4))]

    def cfunc_a(comp, vtree):
        for k, ch in enumerate(chains):
            p = comp.pinp() if k % 2 else comp.pout()
            for n in ch:
                p = getattr(p, n)
            vtree[p]

    comps = [FuncComponent(cfunc_a, rng.choice(ATTRS + [""])) for _ in range(rng.randint(1, 2))]
    comp = Assembly(comps) if rng.random() < 0.3 else comps[0]
    comp._build(rng.choice(pms))
    mon.ev("op:build")


OPS = [op_map, op_maps, op_descend, op_descend, op_pstep, op_pstep, op_build]


def run(rng, mon, rules):
    shared = pmods_from_tuples(rules)
    probes = [maps.rand_path(rng) for _ in range(5)]
    for f, _ in rules[:4]:  # paths that the rules are about
        probes.append("/" + "/".join(rng.choice(ATTRS) for _ in f.split("/")[1:]))
    fresh = [pmods_from_tuples(rules).map_path(p) for p in probes]
    struct = snap(pmods_from_tuples(rules))
    pms, snaps, hist = [shared], [struct], []
    mon.note("rules", rules)
    mon.check(snap(shared) == struct, "declaring %r twice gives different hierarchies", rules)
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(OPS)
        hist.append(op.__name__)
        op(rng, mon, pms)
        mon.ev("op")
        while len(snaps) < len(pms):
            snaps.append(snap(pms[len(snaps)]))
        for k, (pm, s) in enumerate(zip(pms, snaps)):
            mon.check(snap(pm) == s, "hierarchy #%d of %r changed by %s, from %s to %s", k, rules, hist, s, snap(pm))
        k = rng.randrange(len(probes))
        got = shared.map_path(probes[k])
        mon.check(got == fresh[k], "after %s, %r through %r maps to %r instead of %r", hist, probes[k], rules, got, fresh[k])
        mon.ev("probe")
    got = shared.map_paths(probes)
    mon.check(got == fresh, "after %s, %r through %r map to %r instead of %r", hist, probes, rules, got, fresh)
    mon.ev("probe", len(probes))
    mon.check(shared == pmods_from_tuples(rules), "after %s, the hierarchy of %r differs from a fresh one", hist, rules)
    for other in (None, 5, "pmod", [], pmods_from_tuples(rules + [("/never/there", "x")])):
        mon.check(not (shared == other) and shared != other, "the hierarchy of %r equals %r", rules, other)
    if len(pms) > 1:
        mon.key(tuple(rules), tuple(hist))


def w_hist(rng, mon, i):
    run(rng, mon, maps.rand_rules(rng, rng.randint(1, 7)))


def w_overlap(rng, mon, i):
    """Same names at all levels and many regexes: merges share & override sub-hierarchies."""
    names = ["a", "ab", "b"]
    rules = []
    for k in range(rng.randint(3, 10)):
        f = "/" + "/".join(rng.choice(names + ["~a.*", "~.*", "~b|a", "~(.)(.*)"]) for _ in range(rng.choice([1, 2, 2, 3, 3, 4])))
        rules.append((f, "D%d" % k if rng.random() < 0.8 else "D%d/k" % k))
    run(rng, mon, rules)


WORKLOADS = [("history", w_hist, 900, 20000), ("overlap", w_overlap, 900, 20000)]
