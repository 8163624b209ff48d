"""P21: components built and run under mappings."""
import numpy as np
import pandas as pd
from pandalone.components import Assembly, FuncComponent
from pandalone.mappings import pmods_from_tuples
from pandalone.pandata import resolve_jsonpointer, set_jsonpointer

from pvm import maps
from pvm.core import same

RULE = ("random functions (chains of inputs and outputs they refer to, in any order and repeated), random mappings and none, random sequences of rebuilds (alone, and in nested "
        "assemblies sharing components), then runs over access-logging data-trees relocated by an independent mapper; non-trivial = builds where some path is mapped")
FLOORS = {"build": 4200, "rebuild": 1400, "mapped-build": 1600, "assembly": 700, "nested-assembly": 190, "run": 630, "mapped-run": 300, "read": 1000, "write": 1300, "table-run": 130}
NAMES = ["a", "b", "ab", "a1", "foo"]
CNAMES = ["calc", "b", "a1", "cfunc_x", "f", "my_cfunc_x", "CFUNC_a", "cfuncs"]


class Tree:
    """Data-tree logging its accesses."""

    def __init__(self, doc):
        self.doc, self.log = doc, []

    def read(self, steps):
        path = "/".join(steps)
        self.log.append(("r", path))
        return resolve_jsonpointer(self.doc, path if path.startswith("/") else "/" + path)

    def write(self, steps, value):
        path = "/".join(steps)
        self.log.append(("w", path))
        set_jsonpointer(self.doc, path if path.startswith("/") else "/" + path, value)


class Func:
    """A cfunc with known inputs & outputs."""

    def __init__(self, rng):
        self.name = rng.choice(CNAMES) if rng.random() < 0.9 else ""  # the root
        self.inps = [[rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 2, 3]))] for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 8]))]
        self.outs = [[rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 2, 3]))] for _ in range(rng.choice([0, 1, 2, 3, 4, 4, 8]))]
        self.base = {False: None, True: None}
        for k in self.base:
            if rng.random() < 0.2:
                self.base[k] = rng.choice(NAMES)
        self.tags = rng.random() < 0.2
        self.order = [(True, c) for c in self.outs] + [(False, c) for c in self.inps] + [(False, c) for c in self.inps if rng.random() < 0.3]
        rng.shuffle(self.order)
        self.order.sort(key=lambda o: o[0])  # read first
        self.trees = []
        self.inps_args = [self.base[False]]

    def __call__(self, comp, vtree):
        self.trees.append(vtree)
        values = []
        for is_out, chain in self.order:
            base = self.base[is_out]
            p = (comp.pout if is_out else comp.pinp)(*([base] if base else []))
            steps = [p]
            for n in chain:
                p = getattr(p, n)
                steps.append(p)
            if self.tags:
                p._tag("x")
            if is_out:
                vtree.write(steps, ("out", tuple(chain), tuple(values)))
            else:
                values.append(vtree.read(steps))

    def component(self, named):
        fn = lambda comp, vtree: self(comp, vtree)
        fn.__name__ = ("cfunc_" if named == 1 else "") + self.name
        return FuncComponent(fn, self.name if named == 2 or not self.name else None)

    def compname(self, named):
        return self.name if named else self.name[6:] if self.name.startswith("cfunc_") else self.name

    def expected(self, rules, named):
        """-> (inputs, outputs, {chains: mapped path})"""
        model = maps.Rules(rules)
        res, where = [], {}
        for is_out, chains in ((False, self.inps), (True, self.outs)):
            root = maps.Node(model, [()], self.base[is_out] or self.compname(named))
            for c in chains:
                n, steps = root, [root.name]
                for k in c:
                    n = n.kid(k)
                    steps.append(n.name)
                where[is_out, tuple(c)] = "/".join(steps)
            res.append(root.paths() if chains else [])
        return res[0], res[1], where


def rand_rules(rng, func=None):
    if rng.random() < 0.15:
        return []
    rules = []
    for _ in range(rng.randint(1, 7)):
        first = rng.choice([func.name if func else rng.choice(CNAMES), "~.*", rng.choice(NAMES)])
        chains = func and func.inps + func.outs
        f = "/".join([first] + (rng.choice(chains)[:rng.randint(0, 3)] if chains and rng.random() < 0.6 else [rng.choice(NAMES + ["~a.*", "~(.)(.*)"]) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]))
        t = rng.choice(["/A", "/A/B", "C", "/"]) if "/" not in f and rng.random() < 0.6 else maps.rand_dest(rng, f, plain=True)
        if t == "/":
            t = "/Z"
        rules.append((f, t))
    return rules


def check_build(mon, comp, func, rules, named):
    inp, out, _ = func.expected(rules, named)
    mon.check(sorted(comp._inp) == inp, "inputs of %r built with %r: %r, expected %r", func.order, rules, comp._inp, inp)
    mon.check(sorted(comp._out) == out, "outputs of %r built with %r: %r, expected %r", func.order, rules, comp._out, out)
    mon.ev("build" if func.name else "root-build")
    base = func.expected([], named)
    if (inp, out) != base[:2]:
        mon.ev("mapped-build")
        mon.key(tuple(rules), repr(func.order), func.name)


def w_build(rng, mon, i):
    """Rebuilds of a component, and of assemblies sharing it."""
    funcs = [(Func(rng), rng.randrange(3)) for _ in range(rng.randint(1, 4))]
    comps = [f.component(n) for f, n in funcs]
    allrules = [rand_rules(rng, rng.choice(funcs)[0]) for _ in range(rng.randint(1, 3))] + [None]
    pms = [None if r is None else pmods_from_tuples(r) for r in allrules]
    anames = []
    asss = []
    for k in range(rng.randrange(4)):
        pick = rng.sample(range(len(comps)), rng.randint(1, len(comps)))
        subs = [a for a in asss if rng.random() < 0.5]
        asss.append((Assembly(rng.choice([list, tuple, iter])([comps[j] for j in pick] + [a[0] for a in subs])), set(pick).union(*[a[1] for a in subs]), bool(subs)))
    hist, built = [], set()
    for _ in range(rng.randint(3, 12)):
        r = rng.randrange(len(pms))
        rules = allrules[r] or []
        if asss and rng.random() < 0.4:
            ass, members, nested = rng.choice(asss)
            hist.append(("assembly", sorted(members), rules))
            mon.note("funcs", [(f.name, f.order) for f, _ in funcs], "history", hist)
            if pms[r] is None and rng.random() < 0.5:
                ass._build()
            else:
                ass._build(pms[r])
            exps = [funcs[j][0].expected(rules, funcs[j][1]) for j in members]
            inp, out = (sorted(set(sum((e[k] for e in exps), []))) for k in (0, 1))
            mon.check(ass._inp == inp and ass._out == out, "assembly over %r: %r, %r, expected %r, %r", hist[-1], ass._inp, ass._out, inp, out)
            for j in members:
                check_build(mon, comps[j], funcs[j][0], rules, funcs[j][1])
            built |= members
            mon.ev("nested-assembly" if nested else "assembly")
        else:
            j = rng.randrange(len(comps))
            hist.append((j, rules))
            mon.note("funcs", [(f.name, f.order) for f, _ in funcs], "history", hist)
            func, named = funcs[j]
            n = len(func.trees)
            if pms[r] is None and rng.random() < 0.5:
                comps[j]._build()
            else:
                comps[j]._build(pms[r])
            mon.check(len(func.trees) == n + 1, "building ran the function %d times", len(func.trees) - n)
            mon.check(not isinstance(func.trees[-1], Tree), "building over a real tree")
            check_build(mon, comps[j], func, rules, named)
            if j in built:
                mon.ev("rebuild")
            built.add(j)
            mon.check(comps[j]._name == func.compname(named), "name of component %r", comps[j]._name)
            mon.check(list(comps[j]._iter_validations()) == [], "validations")


def leaves(doc, prefix=""):
    for k, v in doc.items():
        if isinstance(v, dict):
            yield from leaves(v, prefix + "/" + k)
        else:
            yield prefix + "/" + k, v


def rooted(path):
    return path if path.startswith("/") else "/" + path


def clash(where):
    ps = [rooted(p) for p in where.values()]
    return len(set(ps)) != len(ps) or any(a != b and b.startswith(a + "/") for a in ps for b in ps)


def w_run(rng, mon, i):
    """Mapped component over a relocated tree does as the unmapped over the original one."""
    for _ in range(30):
        func = Func(rng)
        named = rng.randrange(3)
        rules = rand_rules(rng, func)
        plain, mapped = func.expected([], named)[2], func.expected(rules, named)[2]
        if func.outs and not clash(plain) and not clash(mapped) and (plain != mapped or rng.random() < 0.1):
            break
        mon.ev("clash")
    else:
        return
    comp = func.component(named)
    mon.note("func", func.name, func.order, func.base, "rules", rules)
    noise = {"noise 1": {"a": 1, "b": [1, 2]}, "noise 2": "v"}
    res = []
    builds = [[], rules]
    rng.shuffle(builds)
    for rl in builds:
        where = func.expected(rl, named)[2]
        comp._build(pmods_from_tuples(rl) if rl or rng.random() < 0.5 else None)
        doc = {k: dict(v) if isinstance(v, dict) else v for k, v in noise.items()}
        exp = dict(leaves(doc))
        for (o, c), p in where.items():
            if not o:
                set_ref(doc, rooted(p), ("in", c))
                exp[rooted(p)] = ("in", c)
        tree = Tree(doc)
        comp(tree)
        mon.check(func.trees[-1] is tree, "ran over another tree")
        values = tuple(("in", tuple(c)) for o, c in func.order if not o)
        for o, c in func.order:
            if o:
                exp[rooted(where[o, tuple(c)])] = ("out", tuple(c), values)
        got = dict(leaves(doc))
        mon.check(got == exp, "tree after running %r with %r: %r, expected %r", func.order, rl, got, exp)
        log = [("w" if o else "r", where[o, tuple(c)]) for o, c in func.order]
        mon.check(tree.log == log, "accesses of %r with %r: %r, expected %r", func.order, rl, tree.log, log)
        mon.check({p for a, p in tree.log if a == "r"} >= set(comp._inp), "inputs %r not among the reads %r", comp._inp, tree.log)
        check_build(mon, comp, func, rl, named)
        mon.ev("run")
        mon.ev("read", sum(a == "r" for a, _ in tree.log))
        mon.ev("write", sum(a == "w" for a, _ in tree.log))
        res.append(sorted(where.values()))
    if res[0] != res[1]:
        mon.ev("mapped-run")


def set_ref(doc, path, value):
    steps = path.split("/")[1:]
    for s in steps[:-1]:
        doc = doc.setdefault(s, {})
    doc[steps[-1]] = value


def w_table(rng, mon, i):
    """The documented style: columns of a table named by path-steps."""
    cols = rng.sample(["V", "T", "Acc", "W", "a1"], 3)
    v, t, acc = cols

    def cfunc_calc_rate(comp, vtree):
        pi, po = comp.pinp(), comp.pout()
        df = vtree.get(pi)
        df[getattr(po, acc)] = df[getattr(pi, v)] / df[getattr(pi, t)]

    comp = FuncComponent(cfunc_calc_rate)
    renames = {c: rng.choice([c, "X" + c, c.lower() + "_", "p q" + c]) for c in cols}
    table = rng.choice(["calc_rate", "tbl", "/deep"])
    rules = [("calc_rate/" + c, n) for c, n in renames.items() if n != c]
    rng.shuffle(rules)
    if table != "calc_rate":
        rules.append((rng.choice(["calc_rate", "~calc.*", "~.*"]), table))
    if rng.random() < 0.4:  # something irrelevant, or overridden
        rules.insert(0, rng.choice([("calc_rate/~.*", "none"), ("other/" + v, "bad")]) if len(rules) > 3 else ("other/" + v, "bad"))
        if rules[0][1] == "none":
            rules = rules[1:]
    mon.note("rules", rules, "cols", cols)
    comp._build(pmods_from_tuples(rules) if rules else None)
    n = rng.randint(1, 4)
    df = pd.DataFrame({renames[v]: [rng.randint(1, 9) * 1.0 for _ in range(n)], renames[t]: [rng.randint(1, 9) * 1.0 for _ in range(n)], "keep": list(range(n))})
    exp = df.copy()
    exp[renames[acc]] = np.array([a / b for a, b in zip(df[renames[v]].tolist(), df[renames[t]].tolist())])
    tree = {table: df, "z": 1}
    comp(tree)
    mon.check(set(tree) == {table, "z"} and tree[table] is df and same(df, exp), "table after run: %r, expected %r", df, exp)
    mon.check(sorted(comp._inp) == sorted("%s/%s" % (table, renames[c]) for c in (v, t)), "inputs %r", comp._inp)
    mon.check(comp._out == ["%s/%s" % (table, renames[acc])], "outputs %r", comp._out)
    mon.ev("table-run")


WORKLOADS = [("build", w_build, 900, 15000), ("run", w_run, 700, 12000), ("table", w_table, 300, 3000)]
