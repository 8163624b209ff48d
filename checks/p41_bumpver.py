"""P41: bumping the version of a release, on scratch projects."""
import datetime
import os
import re
import shutil
import subprocess
import sys

from pvm import core

RULE = ("scratch projects holding the release script, version-file and README with random texts and versions, doc-tests failing or not, and a recording stand-in of git failing or not; all combinations of options; "
        "files compared before and after each run, and the log of git commands and doc-tests; non-trivial = distinct project and options")
FLOORS = {"c-locale": 80, "broken": 23, "bumped": 150, "crlf": 70, "dry": 46, "git-add": 100, "git-commit": 94, "git-failed": 33, "git-tag": 52, "printed": 35, "refused": 19, "replaced": 980, "tests-failed": 38, "told": 940}
WORDS = ["*pandalone*", "Release:", ":Date:", "x", "“q”", "é", "\t", "===", "version", "0.5", "`a`", '__version__ = "x', "..", "\\1", "%s", "$"]
TESTS = '''
import os, unittest
class T(unittest.TestCase):
    def test(self):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        with open(os.path.join(here, "log"), "a", encoding="utf-8") as fd, open(os.path.join(here, "pandalone", "_version.py"), encoding="utf-8", newline="") as vfd:
            fd.write("tests " + ascii(vfd.read()) + "\\n")
        self.assertFalse(os.path.exists(os.path.join(here, "tests-fail")))
'''
GIT = '''#!%s
import os, sys
with open(os.environ["PVM_LOG"], "a", encoding="utf-8") as fd:
    fd.write("git %%s\\n" %% ascii(sys.argv[1:]))
sys.exit(int(os.environ["PVM_GITRC"]) if sys.argv[1] == os.environ.get("PVM_GITFAIL") else 0)
''' % sys.executable


def rand_version(rng):
    v = ".".join(str(rng.choice([0, 1, 2, 5, 10, 17])) for _ in range(rng.choice([2, 3, 3, 4])))
    return v + rng.choice(["", "", "", "a0", "b12", "rc1", ".dev3", ".post0", "+x1"])


def rand_text(rng, ver, date, new):
    lines = []
    for _ in range(rng.randint(0, 12)):
        parts = [rng.choice(WORDS + [ver, date, ver, "v" + ver, ver.split(".")[0], new]) for _ in range(rng.randint(0, 5))]
        lines.append(rng.choice(["", " ", "    "]).join(parts))
    return rng.choice(["\n", "\n", "\n", "\r\n"]).join(lines) + rng.choice(["", "\n", "\n\n", "\r\n"])


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", newline="") as fd:
        fd.write(text)


def read(path):
    with open(path, encoding="utf-8", newline="") as fd:
        return fd.read()


def tree(d):
    return {os.path.relpath(os.path.join(p, f), d): read(os.path.join(p, f)) for p, _, fs in os.walk(d) for f in fs if "__pycache__" not in p and f != "log"}


def w_bump(rng, mon, i):
    d = os.path.join(mon.tmp, "prj%d_%d" % (os.getpid(), i))
    shutil.copytree(os.path.join(core.REPO, "bin"), os.path.join(d, "bin"), ignore=shutil.ignore_patterns("__pycache__"))
    old = rand_version(rng)
    date = rng.choice(["2020-05-14 23:59", "2019-12-31 00:00:01", "2021-02-03 04:05:06+0200", "31 Dec 1999"])
    head, mid, tail = rng.choice(["", '"""Doc é."""\n', "#! python\n# %s\n" % old]), rng.choice(["", "  # Also README.", "\nother = 1"]), rng.choice(["\n", "", "\nversion = __version__\n"])
    ver_line, date_line = '__version__ = "%s"' % old, '__updated__ = "%s"' % date
    broken = rng.random() < 0.08
    if broken:
        ver_line, date_line = rng.choice([("__version__ = 1", date_line), (ver_line, ""), ("", "")])
    vtext = head + (ver_line + mid + "\n" + date_line if rng.random() < 0.8 else date_line + "\n" + ver_line + mid) + tail
    new = rng.choice([None, old] + [rand_version(rng)] * 6 + [old + ".1", old + "b1", old[:-1] + "7"])
    rtext = rand_text(rng, old, date, (rng.random() < 0.4 and new) or old)
    vfile, rfile, log = os.path.join(d, "pandalone", "_version.py"), os.path.join(d, "README.rst"), os.path.join(d, "log")
    write(vfile, vtext)
    write(rfile, rtext)
    write(os.path.join(d, "tests", "__init__.py"), "")
    write(os.path.join(d, "tests", "test_docs.py"), TESTS)
    write(os.path.join(d, "path", "git"), GIT)
    os.chmod(os.path.join(d, "path", "git"), 0o755)
    write(log, "")
    tests_fail = rng.random() < 0.2
    if tests_fail:
        write(os.path.join(d, "tests-fail"), "")
    gitfail = rng.choice([None] * 5 + ["add", "commit", "tag"])

    dry, force, commit = rng.random() < 0.2, rng.random() < 0.3, rng.random() < 0.4
    tag = rng.choice([None, None, None, "message", "the %s message" % old, "ünï"])
    args = (rng.choice([["-n"], ["--dry-run"]]) if dry else []) + (rng.choice([["-f"], ["--force"]]) if force else []) + (rng.choice([["-c"], ["--commit"]]) if commit else [])
    args += [] if tag is None else rng.choice([["-t", tag], ["--tag=" + tag]])
    args += [new] if new else []
    mon.note("version", vtext, "readme", rtext, "args", args, "tests", "failing" if tests_fail else "fine", "git", "failing at %s" % gitfail if gitfail else "fine")

    env = dict(os.environ, PATH=os.path.join(d, "path") + ":" + os.environ.get("PATH", ""), PVM_LOG=log, PYTHONIOENCODING="utf8", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    env.pop("PYTHONPATH", None)
    if rng.random() < 0.3 and (tag is None or tag.isascii()):
        env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C")  # texts are in UTF-8, whatever the locale
        mon.ev("c-locale")
    if gitfail:
        env.update(PVM_GITFAIL=gitfail, PVM_GITRC=str(rng.choice([1, 1, 2, 128, 255])))
    cwd = rng.choice([d, os.path.join(d, "bin"), os.path.join(d, "tests"), mon.tmp])
    script = os.path.join(d, "bin", "bumpver.py")
    if rng.random() < 0.5:
        script = os.path.relpath(script, cwd)
    before = tree(d)
    t0 = datetime.datetime.now().replace(microsecond=0)
    p = subprocess.run([sys.executable, script] + args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    t1 = datetime.datetime.now()
    out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    after = tree(d)
    events = read(log).splitlines()
    v, r = os.path.join("pandalone", "_version.py"), "README.rst"
    mon.check({k: x for k, x in after.items() if k not in (v, r)} == {k: x for k, x in before.items() if k not in (v, r)}, "other files changed: %s", sorted(set(after) ^ set(before)))
    mon.check("Traceback" not in err.split("\n")[0], "crashed: %s", err[-600:])
    mon.key(sorted(args), vtext, rtext)

    def unchanged(why):
        mon.check(after == before, "%s, but files changed: %s", why, [k for k in after if after[k] != before.get(k)])
        mon.check(not [e for e in events if e.startswith("git")], "%s, but %s ran", why, events)

    if broken:
        unchanged("the version-file is broken")
        mon.check(p.returncode != 0, "no failure for a broken version-file")
        mon.ev("broken")
        return
    if not new:
        unchanged("no version was given")
        mon.check(p.returncode == 0 and out.split("\n")[:2] == [old, date], "printed %r, rc %s", out, p.returncode)
        mon.ev("printed")
        return
    if new == old and not force:
        unchanged("already bumped")
        mon.check(p.returncode != 0 and old in err, "same version accepted: rc %s, %r", p.returncode, err)
        mon.ev("refused")
        return
    # The files.
    if dry:
        mon.check(after == before, "files changed in a dry-run")
        mon.ev("dry")
    else:
        m = re.search('__updated__ = "(.*?)"', after[v])
        mon.check(m, "no date in %r", after[v])
        try:
            when = datetime.datetime.strptime(m.group(1)[:19], "%Y-%m-%d %H:%M:%S")
        except ValueError:
            mon.fail("bad date %r" % m.group(1))
        mon.check(t0 <= when <= t1, "date is %s, not within %s and %s", when, t0, t1)
        if "\r" in rtext:
            mon.ev("crlf")
        for k, text in ((v, vtext), (r, rtext)):
            exp = text.replace(old, new).replace(date, m.group(1))
            mon.check(after[k] == exp, "%s became %r, expected %r", k, after[k], exp)
            mon.ev("replaced", text.count(old) + text.count(date))
    told = re.findall(r"(\d+) x \(\s*(.*?)\s*-->", out)
    exp = [x for text in (vtext, rtext) for x in ((str(text.count(old)), old), (str(text.replace(old, new).count(date)), date))]
    mon.eq(told, exp, "told replacements")
    mon.ev("told", len(told))
    # Tests, and git.
    mon.check([e for e in events if e.startswith("tests")] == ["tests " + ascii(after[v])] and events[:1] == ["tests " + ascii(after[v])], "doc-tests not first and once, on the new files: %s", events)
    exp = []
    if (commit or tag) and not tests_fail:
        exp += ["add", "commit"]
        if tag:
            exp.append("tag")
    cmds = [eval(e[4:]) for e in events if e.startswith("git ")]
    if dry:
        mon.check(not cmds, "git ran in a dry-run: %s", cmds)
        mon.check([m.group(1) for m in re.finditer("git (add|commit|tag)", out)] == exp, "dry-run told %r, expected %s", out, exp)
        mon.check(bool(p.returncode) == tests_fail, "rc %s in a dry-run", p.returncode)
        return
    failed = tests_fail
    if gitfail in exp:
        exp = exp[:exp.index(gitfail) + 1]
        failed = True
        mon.ev("git-failed")
    mon.check([c[0] for c in cmds] == exp, "git commands %s, expected %s", cmds, exp)
    for c in cmds:
        mon.ev("git-" + c[0])
        if c[0] == "add":
            mon.eq(sorted(os.path.realpath(os.path.join(cwd, f)) for f in c[1:]), sorted(map(os.path.realpath, (vfile, rfile))), "files added")
        elif c[0] == "commit":
            m = re.search(re.escape(old) + "-->(.*)", " ".join(c))
            mon.check("-m" in c and m and (m.group(1) == new or new.endswith("." + m.group(1)) and old.startswith(new[:-len(m.group(1))])), "commit of %s --> %s as %s", old, new, c)
        else:
            mon.check("v" + new in c and tag in c and "-s" in c, "tag %r of %s as %s", tag, new, c)
    mon.check(bool(p.returncode) == failed, "rc %s, expected a %s; %s", p.returncode, "failure" if failed else "success", err[-300:])
    mon.ev("tests-failed" if tests_fail else "bumped")


WORKLOADS = [("bump", w_bump, 700, 9000)]
