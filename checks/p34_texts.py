"""P34: booleans out of texts, executables search, logger streams."""
import contextlib
import io
import itertools
import logging
import os
import os.path as osp
import shutil

import numpy as np
from pandalone import utils

RULE = ("all casings of the recognized words with random blanks around, near-misses and random texts, objects of known truthiness; random folders of (non-)executable files, folders and links under random search paths; "
        "random sequences of writes to several loggers & levels (directly, by print() and redirections) against the log-records captured; non-trivial = distinct texts/layouts")
FLOORS = {"bool": 6900, "true": 750, "false": 1200, "near": 3800, "non-text": 370, "object": 890, "where": 390, "which": 50, "which-none": 5, "open": 10, "found": 550, "env-path": 130, "write": 2200, "print": 520, "redirect": 340, "many-endings": 170, "empty": 130, "records": 2200}
YES, NO = ("yes", "true", "on"), ("no", "false", "off", "0")
BLANKS = ["", "", " ", "\t", "\n", "\r\n", "  ", "\u00a0", "\u3000", "\f\v"]


def casings(w):
    return ["".join(t) for t in itertools.product(*[sorted({c.lower(), c.upper()}) for c in w])]


class Sub(str):
    def __bool__(self):
        raise AssertionError("truthiness of texts is not asked")


class Truth:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v


class Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class Liar:
    """Its text is not to matter."""
    def __str__(self):
        return "false"


class Boom:
    def __bool__(self):
        raise KeyError("boom")


def w_bool(rng, mon, i):
    def ask(t, exp):
        mon.note("text", t)
        for fn in (utils.str2bool, utils.obj2bool):
            for x in (t, Sub(t), np.str_(t)) if type(t) is str and rng.random() < 0.1 else (t,):
                got = fn(x)
                mon.check(got is exp, "%s(%r) gave %r", fn.__name__, t, got)
        mon.ev("bool")
        mon.key(t)

    for words, exp in ((YES, True), (NO, False)):
        for w in words:
            for c in casings(w):
                t = rng.choice(BLANKS) + c + rng.choice(BLANKS)
                ask(t, exp)
                mon.ev("true" if exp else "false")
                # near misses, all true
                for _ in range(2):
                    k = rng.randrange(len(c) + 1)
                    near = c[:k] + rng.choice("xnofy0 1.-'") + c[k:]
                    if near.strip().lower() not in NO and near.strip():
                        ask(near, True)
                        mon.ev("near")
    ask("".join(rng.choice(BLANKS) for _ in range(3)), False)
    for t in ["y", "n", "t", "f", "1", "00", "0.0", "none", "null", "disabled", "-0", "nope", "offf", "f alse", "no no", "０", "False?", "NaN", "[]"]:
        ask(t, True)
    for _ in range(20):
        t = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x3000)])) for _ in range(rng.randint(1, 6)))
        ask(t, t.strip() != "" and t.strip().lower() not in NO)
    for bad in (None, 0, 1, 2.5, True, False, [], ["yes"], {}, ("no",), Liar(), Truth(True), object(), np.nan):
        mon.note("non-text", bad)
        mon.raises(ValueError, utils.str2bool, bad)
        mon.ev("non-text")
    objs = [(None, False), (0, False), (1, True), (-1, True), (0.0, False), (2.5, True), (float("nan"), True), (True, True), (False, False), ([], False), ([0], True), (["no"], True), ({}, False), ({"no": 0}, True),
            ((), False), ((None,), True), (set(), False), (Truth(True), True), (Truth(False), False), (Sized(0), False), (Sized(3), True), (Liar(), True), (object(), True), (np.bool_(False), False), (np.bool_(True), True),
            (np.int64(0), False), (np.float64(1.5), True), (range(0), False), (b"", False), (b"no", True), (len, True), (Exception("no"), True), (0j, False)]
    for o, exp in objs:
        mon.note("object", o)
        got = utils.obj2bool(o)
        mon.check(got is exp, "obj2bool(%r) gave %r", o, got)
        mon.ev("object")


@contextlib.contextmanager
def scratch(mon):
    d = osp.join(mon.tmp, "p34")
    os.makedirs(d)
    env, old = dict(os.environ), os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(d)


def w_where(rng, mon, i):
    with scratch(mon) as d:
        names = ["prog", "p r", "é", "prog.sh", "PROG"]
        decoys = ["", ".bat", ".com", ".exe", "com", ".EXE", ".sh", "1", "bat", ".exe.bat"]
        cwd = osp.join(d, "cwd")
        folders = [osp.join(d, f) for f in ["cwd", "a", "b c", "d.d", "ü", "e/f", " lead", "trail "]]
        kinds = {}
        for f in folders:
            os.makedirs(f)
            for n in names:
                for dec in decoys:
                    if rng.random() < (0.5 if not dec else 0.3):
                        p = osp.join(f, n + dec)
                        if osp.lexists(p):
                            continue
                        kind = rng.choice(["exe", "exe", "file", "dir", "link", "dead", "noread", "linkdir"])
                        if kind == "dir":
                            os.makedirs(p)
                        elif kind in ("dead", "linkdir"):
                            os.symlink(osp.join(d, "nowhere") if kind == "dead" else d, p)
                        else:
                            real = p if kind != "link" else osp.join(d, "real")
                            open(real, "w").close()
                            os.chmod(real, {"file": 0o644, "noread": 0o311}.get(kind, rng.choice([0o755, 0o700, 0o555])))
                            if kind == "link":
                                os.symlink(real, p)
                        kinds[p] = kind
        os.chdir(cwd)  # Not searched, unless named.
        for _ in range(12):
            n = rng.choice(names)
            search = [rng.choice(folders + [osp.join(d, "missing"), ""]) for _ in range(rng.randrange(6))]
            given = [('"%s"' % f if f and rng.random() < 0.2 else f) + ("/" if f and rng.random() < 0.1 else "") for f in search]
            given = [g if '"/' not in g else g[:-1] for g in given]
            path = os.pathsep.join(given)
            exp = []
            for f, g in zip(search, given):
                for e in ("", ".bat", ".com", ".exe"):
                    if f and kinds.get(osp.join(f, n + e)) in ("exe", "link", "noread"):
                        exp.append(g.strip('"').rstrip("/") + "/" + n + e)
            mon.note("program", n, "path", path, "files", kinds)
            os.environ["PATH"] = osp.join(d, "a") if path and rng.random() < 0.5 else path
            if os.environ["PATH"] == path and rng.random() < 0.5:
                got = utils.py_where(n) if rng.random() < 0.5 else utils.py_where(n, None)
                mon.ev("env-path")
            elif path:
                got = utils.py_where(n, path)
            else:
                continue
            def clean(got):
                mon.check(type(got) is list and all(type(g) is str for g in got), "executables found: %r", got)
                return [g.replace("//" + n, "/" + n) for g in got]
            got = clean(got)
            if os.environ["PATH"] == path and not os.path.lexists(osp.join(d, "where")):
                # no `where` program here, so python does it
                mon.eq(clean(utils.where(n)), exp, "where()")
                w = utils.which(n)
                mon.check(w is None if not exp else clean([w]) == exp[:1], "which() gave %r of %r", w, exp)
                mon.ev("which" if exp else "which-none")
            mon.eq(got, exp, "executables")
            mon.ev("where")
            mon.ev("found", len(exp))
            mon.key(n, path)


def w_open(rng, mon, i):
    """Opening with the program of the system, a stand-in recording its arguments."""
    with scratch(mon) as d:
        out, b = osp.join(d, "out"), osp.join(d, "bin")
        os.makedirs(b)
        with open(osp.join(b, "xdg-open"), "w") as fd:
            fd.write('#!/bin/sh\nfor a in "$@"; do printf "%s\\0" "$a"; done >> "$OUT"\n')
        os.chmod(osp.join(b, "xdg-open"), 0o755)
        os.environ.update(PATH=b, OUT=out)
        exp = []
        for _ in range(3):
            f = rng.choice(["a.txt", "a b.txt", "http://h/x?y&z", "$HOME", "é'\"", "-x", "*"])
            mon.note("open", f)
            mon.check(utils.open_file_with_os(f) is None, "result")
            exp.append(f)
            mon.ev("open")
        got = open(out, encoding="utf8").read().split("\0")[:-1]
        mon.eq(got, exp, "arguments given to the opener")


class Capture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.recs = []

    def emit(self, rec):
        self.recs.append((rec.name, rec.levelno, rec.getMessage()))


BODIES = ["a", " ", "  x", "%s %d %%", "{}", "two\nlines", "\n lead", "a\rb", "é\u2028", "x" * 5000, "tab\t", "0", "None", "\\n", "%(x)s", "a\r\nb"]
ENDS = ["", "\n", "\r\n", "\n\r"]


def w_logger(rng, mon, i):
    cap = Capture()
    loggers, streams = [], []
    for k in range(3):
        lg = logging.Logger("p34.%s" % k, rng.choice([1, logging.INFO, logging.ERROR]))
        lg.addHandler(cap)
        level = rng.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, 5, 35])
        loggers.append(lg)
        streams.append((lg, level, utils.LoggerWriter(lg, level)))
    exp, hist = [], []

    def wrote(lg, level, body):
        if body and level >= lg.level:
            exp.append((lg.name, level, body))
    for _ in range(40):
        lg, level, st = rng.choice(streams)
        x = rng.random()
        if x < 0.6:
            body, end = rng.choice(BODIES + [""]), rng.choice(ENDS)
            hist.append((lg.name, body + end))
            st.write(body + end)
            wrote(lg, level, body)
            mon.ev("write")
            mon.ev("ending:%r" % end if body else "empty")
        elif x < 0.75:
            words = [rng.choice([b for b in BODIES if not b.endswith("\n")] + [""]) for _ in range(rng.randrange(4))]
            sep = rng.choice([" ", "", ", "])
            hist.append((lg.name, "print", words, sep))
            print(*words, sep=sep, file=st, flush=rng.random() < 0.3)
            for j, w in enumerate(words):
                if j:
                    wrote(lg, level, sep)
                wrote(lg, level, w)
            mon.ev("print")
        elif x < 0.85:
            hist.append((lg.name, "redirected"))
            with contextlib.redirect_stdout(st):
                print("out %s")
            wrote(lg, level, "out %s")
            mon.ev("redirect")
        elif x < 0.95:
            st.flush()
        else:
            # several endings: at least one goes, and nothing but endings
            body, ends = rng.choice(BODIES[:5]), "".join(rng.choice(ENDS) for _ in range(3)) if rng.random() < 0.6 else "\n" * rng.randint(2, 3)
            n = len(cap.recs)
            st.write(body + ends)
            if level >= lg.level:
                mon.note("written", hist + [(lg.name, body + ends)])
                mon.check(len(cap.recs) == n + 1, "%s records for a text", len(cap.recs) - n)
                got = cap.recs.pop()
                if ends and not ends.strip("\n"):
                    mon.check(got[2] == body + ends[1:], "not just the line-ending of %r has gone: %r", body + ends, got[2])
                mon.check(got[:2] == (lg.name, level) and got[2].rstrip("\r\n") == body and (body + ends).startswith(got[2]) and (not ends or len(got[2]) < len(body + ends)), "%r logged as %r", body + ends, got)
            else:
                mon.check(len(cap.recs) == n, "logged below the logger's level")
            mon.ev("many-endings")
    mon.note("written", hist)
    mon.eq(cap.recs, exp, "log records")
    mon.ev("records", len(exp))
    mon.key(tuple(map(repr, hist)))


WORKLOADS = [("bool", w_bool, 60, 2000), ("where", w_where, 80, 3000), ("logger", w_logger, 200, 8000), ("open", w_open, 8, 100)]
