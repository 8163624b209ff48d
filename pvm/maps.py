"""Reference interpreter of path-mappings: an explicit rule-table, with no merged hierarchies."""
import re

NAMES = ["a", "b", "ab", "a1", "b12", "foo", "Acc", "c"]
REGEXS = ["a.*", ".*", "(.)(.*)", r"a(\d*)", r"\w+", "b|a", "a", "[ab]", "(a)(b)?", r"(\w)\w*", "(?:f)(o+)", r"[^a]+", r"(.*)\d+", "A.*", "b.*|foo", r"\w\w"]


class Skip(Exception):
    """Outside of the claim (trailing slashes)."""


class Rules:
    def __init__(self, tuples):
        self.alias, self.exact, self.regxs = {}, {}, {}
        for f, t in tuples:
            if f is None or t is None or (f, t) == ("", ""):
                continue
            node = ()
            for s in f.split("/"):
                if s.startswith("~"):
                    lst = self.regxs.setdefault(node, [])
                    if s[1:] in lst:
                        lst.remove(s[1:])
                    lst.append(s[1:])
                else:
                    self.exact.setdefault(node, set()).add(s)
                node = node + (s,)
            self.alias[node] = t

    def descend(self, active, step):
        """active: nodes in increasing priority -> (next active nodes, destination or None)"""
        order = []
        for n in active:
            mine = self.regxs.get(n, [])
            order = [r for r in order if r not in mine] + mine
        dest, nxt = None, []
        for r in order:
            m = re.compile(r).fullmatch(step)
            if not m:
                continue
            nxt += [n + ("~" + r,) for n in active if r in self.regxs.get(n, [])]
            aliases = [self.alias.get(n + ("~" + r,)) for n in active if r in self.regxs.get(n, [])]
            aliases = [a for a in aliases if a is not None]
            if aliases:
                dest = m.expand(aliases[-1])
        for n in active:
            if step in self.exact.get(n, ()):
                k = n + (step,)
                nxt.append(k)
                if self.alias.get(k) is not None:
                    dest = self.alias[k]
        return nxt, dest

    def map_steps(self, path):
        active, out = [()], []
        for step in path.split("/"):
            active, dest = self.descend(active, step)
            if dest is None:
                out.append(step)
                continue
            if len(dest) > 1 and dest.endswith("/"):
                raise Skip()
            if dest.startswith("."):
                out.append(step)
            out += dest.split("/")
        return out

    def map_path(self, path):
        return normalize(self.map_steps(path))


def normalize(steps):
    """Joins steps: '' restarts from root, '.' is dropped, '..' pops."""
    rooted, out = False, []
    for s in steps:
        if s == "":
            rooted, out = True, []
        elif s == ".":
            pass
        elif s == ".." and (out and out[-1] != ".."):
            out.pop()
        elif s == ".." and rooted:
            pass
        else:
            out.append(s)
    if rooted:
        return "/".join([""] + out)
    return "/".join(out) or "."


def rand_from(rng, names=NAMES, rooted=None):
    rooted = rng.random() < 0.9 if rooted is None else rooted
    n = rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4]) if rooted else rng.randint(1, 3)
    steps = []
    for _ in range(n):
        k = rng.random()
        steps.append("~" + rng.choice(REGEXS) if k < 0.4 else "" if k > 0.98 else rng.choice(names))
    return ("/" if rooted and steps else "") + "/".join(steps)


def groups(f):
    last = f.split("/")[-1]
    return re.compile(last[1:]).groups if last.startswith("~") else -1


def rand_dest(rng, f, plain=False):
    """A destination fitting the origin path."""
    g = groups(f)
    forms = ["X", "Y", "Foo", "a", "b", "X/Y", "P/Q/R", "a/b"]
    if g >= 0:
        forms += [r"\g<0>", r"n\g<0>", r"\g<0>/k"] * 2
        for n in range(1, g + 1):
            forms += [r"G\%d" % n, r"H\g<%d>/z" % n]
    if not plain:
        forms += ["/", "/R", "/R/S", "../U", ".", "..", "./k", ".sub", "", "../..", "a/../c", "x/./y", "a//b", "../../../V"]
        if g >= 0:
            forms += [r"../\g<0>", r"/\g<0>", r"./\g<0>"]
        if g >= 1:
            forms += [r"\1", r"/\1/z", r".\1"]
    return rng.choice(forms)


def rand_rules(rng, n, plain=False, names=NAMES, rooted=None):
    rules = []
    for _ in range(n):
        if rules and rng.random() < 0.2:
            f = rng.choice(rules)[0] or ""  # re-declare
            if rng.random() < 0.4 and f:
                f += "/" + rng.choice(names)
        else:
            f = rand_from(rng, names, rooted)
        if plain and f == "" and rng.random() < 0.5:
            f = "/a"
        rules.append((f, rand_dest(rng, f, plain)))
    return rules


def rand_path(rng, names=NAMES, dots=True):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    steps = [rng.choice(names) for _ in range(n)]
    if dots and steps and rng.random() < 0.15:
        steps[rng.randrange(n)] = rng.choice([".", "..", ""]) if n > 1 else rng.choice([".", ".."])
        if steps[-1] == "":
            steps[-1] = "z"
    return "/".join([""] + steps)


class Node:
    """Shadow of a path-step: its own and mapped names, children and tags."""

    def __init__(self, model, active, key, name=None):
        nxt, dest = model.descend(active, key)
        self.model, self.active, self.key = model, nxt, key
        self.name = name if name is not None else dest or key
        self.mapped = bool(dest)
        self.kids, self.tags, self.obj, self.lock = {}, set(), None, 3

    def kid(self, key):
        if key not in self.kids:
            self.kids[key] = Node(self.model, self.active, key)
        return self.kids[key]

    def rename(self, key, name):
        if key in self.kids:
            self.kids[key].name = name
            self.kids[key].obj = None
        else:
            self.kids[key] = Node(self.model, self.active, key, name)

    def walk(self, prefix=()):
        prefix += (self,)
        yield prefix
        for k in self.kids.values():
            yield from k.walk(prefix)

    def paths(self, tag=None):
        return sorted({normalize([n.name for n in p]) for p in self.walk() if (tag in p[-1].tags if tag else not p[-1].kids)})
