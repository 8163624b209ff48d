"""P20: lock-states of path-steps against an automaton."""
from pandalone.mappings import Pstep, pmods_from_tuples

from pvm import maps

RULE = ("random mappings (or renames by assignment) of steps, and random sequences of locking, fixing and setting any lock-state over their trees; exceptions, states of all "
        "steps and returned objects are compared with an automaton; non-trivial = a tree with accepted and rejected requests")
FLOORS = {"lock": 2700, "fix": 2800, "set": 2700, "rejected": 1400, "accepted": 6900, "fixed-renamed": 630, "rejected-fix": 390, "after-lock": 3000}
NAMES = ["a", "b", "ab", "a1", "foo"]


def tree(rng):
    rules = maps.rand_rules(rng, rng.randint(0, 8), plain=rng.random() < 0.7, names=NAMES, rooted=True)
    root = pmods_from_tuples(rules).step() if rules or rng.random() < 0.5 else Pstep()
    steps = []  # (parent, attr)
    for _ in range(rng.randint(2, 6)):
        p = root
        for _ in range(rng.randint(1, 3)):
            key = rng.choice(NAMES)
            if rng.random() < 0.15:
                setattr(p, key, rng.choice(["N", "n/m", "", "a", "/abs", "x y"]))
            p = getattr(p, key)
    return rules, root


def steps_of(root):
    out, todo = [], [((), root)]
    while todo:
        path, p = todo.pop()
        out.append((path, p))
        for k in sorted(p._steps(keys=True)):
            todo.append((path + (k,), getattr(p, k)))
    return out


def w_locks(rng, mon, i):
    rules, root = tree(rng)
    steps = steps_of(root)
    state = {path: 3 for path, _ in steps}
    hist, ok, bad = [], 0, 0
    for _ in range(rng.randint(5, 20)):
        path, p = rng.choice(steps)
        orig = path[-1] if path else ""
        kind = rng.choice(["lock", "fix", "set"])
        want = {"lock": Pstep.LOCKED, "fix": Pstep.CAN_RENAME, "set": rng.choice([Pstep.LOCKED, Pstep.CAN_RENAME, Pstep.CAN_RELOCATE])}[kind]
        hist.append((path, str(p), kind, want))
        mon.note("rules", rules, "history", hist)
        mon.ev(kind)
        reject = str(p) != orig and (want == Pstep.LOCKED or want == Pstep.CAN_RENAME and "/" in p)
        fn = {"lock": lambda: p._lock, "fix": lambda: p._fix, "set": lambda: setattr(p, "_locked", want)}[kind]
        if reject:
            mon.raises(ValueError, fn)
            mon.ev("rejected")
            if want == Pstep.CAN_RENAME:
                mon.ev("rejected-fix")
            bad += 1
        else:
            if state[path] != 3:
                mon.ev("after-lock")
            res = fn()
            if kind != "set":
                mon.check(res is p, "%s of %r returned another object: %r", kind, path, res)
            if want == Pstep.CAN_RENAME and str(p) != orig:
                mon.ev("fixed-renamed")
            state[path] = want
            mon.ev("accepted")
            ok += 1
        for q, s in steps:
            mon.check(s._locked == state[q], "lock state of %r is %r, expected %r after %r", q, s._locked, state[q], hist)
    for q, s in steps:
        t = root
        for k in q:
            t = getattr(t, k)
        mon.check(t is s, "locking %r replaced it", q)
    if ok and bad:
        mon.key(tuple(rules), tuple(hist))


WORKLOADS = [("locks", w_locks, 1500, 40000)]
