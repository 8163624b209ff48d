"""P32: unique file names, file extensions and folder creation in scratch folders."""
import contextlib
import itertools
import os
import os.path as osp
import re
import shutil
import stat
import threading

from pandalone import utils

RULE = ("random folders of existing files (plain, folders, links; contiguous and gapped numbering) and names with none, one or many dots, in dotted folders, absolute or relative, with the default or custom name sequences, against a listing-based reference; "
        "extension lists with/without dots, multi-dot, any case, or regexes; folder creation with files, folders, links in the way, and others creating the same meanwhile (injected and by threads); "
        "non-trivial = distinct names/extensions/layouts")
FLOORS = {"unique": 400, "taken": 310, "free": 86, "many": 95, "sequence": 600, "custom": 400, "had": 1700, "appended": 2700, "regex": 910, "dir-existed": 150, "dir-made": 180, "dir-failed": 190, "race": 270, "threads": 210}


@contextlib.contextmanager
def scratch(mon):
    d = osp.join(mon.tmp, "p32")
    os.makedirs(d)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def listing(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = osp.join(root, f)
            st = os.lstat(p)
            out[osp.relpath(p, d)] = (stat.S_IFMT(st.st_mode), st.st_ino, st.st_mtime_ns, None if osp.isdir(p) else open(p).read())
    return out


STEMS = ["foo", "a b", "x1", "", "é中", "foo.bar", "9", "f-10", ".hid", "..", "%s", "f%d", "A" * 60]
EXTS = ["", ".txt", ".TXT", ".", ".t.gz", ".1", ".é", ". x"]
DIRS = ["", "", "sub", "s.ub", "s.ub/d.d", "./", "../p32"]


def put(rng, p):
    x = rng.random()
    if x < 0.75:
        with open(p, "w") as fd:
            fd.write(p)
    elif x < 0.9:
        os.makedirs(p)
    else:
        os.symlink(os.getcwd(), p)


def ref_split(name):
    """Position of the extension: at last dot, unless only dots precede it in the file name."""
    base = name[name.rfind("/") + 1:]
    dot = base.rfind(".")
    if dot <= 0 or not base[:dot].strip("."):
        return name, ""
    return name[:len(name) - len(base) + dot], base[dot:]


def w_unique(rng, mon, i):
    with scratch(mon) as d:
        for sub in DIRS:
            if sub:
                os.makedirs(sub, exist_ok=True)
        for _ in range(6):
            stem, ext = rng.choice(STEMS), rng.choice(EXTS)
            base = stem + ext
            if base in ("", ".", "..", "..."):
                base = "foo"
            sub = rng.choice(DIRS)
            name = osp.join(sub, base)
            if rng.random() < 0.3:
                name = osp.join(d, name)
            head, tail = ref_split(name)
            n = rng.choice([0, 1, 2, 3, 9, 10, 11, 30])
            taken = {k for k in range(n)} if rng.random() < 0.6 else {k for k in range(n) if rng.random() < 0.7}
            for k in taken:
                p = name if k == 0 else head + str(k) + tail
                if not osp.lexists(p):
                    put(rng, p)
            # decoys
            for p in (name + "1", head + "01" + tail, head + "-1" + tail, head + " 1" + tail):
                if rng.random() < 0.3 and not osp.lexists(p):
                    put(rng, p)
            before = listing(d)
            k = 0
            while osp.exists(name if k == 0 else head + str(k) + tail):
                k += 1
            exp = name if k == 0 else head + str(k) + tail
            mon.note("name", name, "existing", sorted(before))
            got = utils.make_unique_filename(name)
            mon.eq(got, exp, "unique name")
            mon.check(not osp.lexists(got), "%r exists", got)
            mon.check(listing(d) == before, "files changed")
            mon.eq(utils.make_unique_filename(name), exp, "unique name, asked again")
            mon.eq(list(itertools.islice(utils.generate_filenames(name), 4)), [name] + [head + str(j) + tail for j in (1, 2, 3)], "generated names")
            mon.ev("unique")
            mon.ev("taken" if k else "free")
            if k > 9:
                mon.ev("many")
            mon.key(name, tuple(taken))
            # one after another, all created
            made = []
            for _ in range(rng.randrange(4)):
                f = utils.make_unique_filename(name)
                mon.check(f not in made and not osp.lexists(f), "%r was given before", f)
                made.append(f)
                put(rng, f)
                mon.ev("sequence")
            # custom sequence
            cands = [osp.join(sub, "c%s" % j) for j in rng.sample(range(100), 8)] + [osp.join(sub, "fresh")]
            for c in cands[:rng.randrange(8)]:
                if not osp.lexists(c):
                    put(rng, c)
            calls = []

            def gen(f):
                calls.append(f)
                yield from cands
            before = listing(d)
            got = utils.make_unique_filename(name, gen)
            exp = [c for c in cands if not osp.exists(c)][0]
            mon.eq(got, exp, "unique name out of %r" % cands)
            got = utils.make_unique_filename(name, filegen=lambda f: iter([f, f + "~", f + "~~", f + "@@@@"]))
            exp = [c for c in (name, name + "~", name + "~~", name + "@@@@") if not osp.exists(c)][0]
            mon.eq(got, exp, "unique name by backup-suffixes")
            mon.check(calls == [name] and listing(d) == before, "custom sequence called with %r", calls)
            mon.ev("custom")


def rcase(rng, s):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in s)


EX = ["txt", "xls", "xlsx", "x", "gz", "tar.gz", "7z", "c++", "a_b", "bar", "js", "json"]
REGEXES = [(r"\.xl\w{1,2}", lambda e: re.fullmatch(r"\.xl[a-z0-9_]{1,2}", e)), (r"\.json|\.js", lambda e: e in (".json", ".js")), (r"\.t[xz]t", lambda e: e in (".txt", ".tzt")), (r"\.\d+", lambda e: e[1:].isdigit() and e[:1] == ".")]


def w_ext(rng, mon, i):
    for _ in range(25):
        exts = rng.sample(EX, rng.choice([1, 1, 2, 3, 3, 6]))
        given = [(rng.choice(["", "."]) + rcase(rng, e)) for e in exts]
        stem = rng.choice(["foo", "a b", "é", "foo.old", "x.y.z", ".hid", "9", "xls", "gz", "f.tar"])
        stem = osp.join(rng.choice(["", "", "d", "d.xls", "/abs/d.txt/"]), stem)
        x = rng.random()
        if x < 0.35:
            suffix = "." + rcase(rng, rng.choice(exts))
        elif x < 0.6:
            suffix = "." + rcase(rng, rng.choice(EX))
        elif x < 0.75:
            suffix = rng.choice([".a", ".b.", "", "."]) + rng.choice(exts)
        elif x < 0.85:
            suffix = "."
        else:
            suffix = ""
        name = stem + suffix
        regexes = []
        if rng.random() < 0.3:
            given, exts = given[:1], exts[:1]
            regexes = rng.sample(REGEXES, rng.randrange(3))
            if rng.random() < 0.5:
                name = stem + rcase(rng, rng.choice([".xlsx", ".xls", ".xl", ".xlsxx", ".js", ".json", ".jsonx", ".xjs", ".txt", ".12", ".1a", ".12.old"]))
        base = name[name.rfind("/") + 1:].lower()
        ext = ref_split(name)[1].lower()

        def has(f):
            b = f[f.rfind("/") + 1:].lower().lstrip(".")
            e = ref_split(f)[1].lower()
            return any(b.endswith("." + x) for x in exts) or any(fn(e) for _, fn in regexes)

        mon.note("name", name, "exts", given, "regexes", [r for r, _ in regexes])
        kw = {"is_regex": True} if regexes or rng.random() < 0.1 and len(given) == 1 else {}
        ask = lambda f: utils.ensure_file_ext(f, *(given + [r for r, _ in regexes]), **kw)
        got = ask(name)
        if has(name):
            mon.eq(got, name, "name having the extension already")
            mon.ev("had")
        else:
            exp = (name[:-1] if name[-1] == "." else name) + "." + given[0].lstrip(".")
            mon.eq(got, exp, "name with extension")
            mon.ev("appended")
        mon.check(has(got), "%r has none of the extensions", got)
        mon.eq(ask(got), got, "name ensured twice")
        if regexes:
            mon.ev("regex")
        mon.key(name, tuple(given), len(regexes))


def w_dirs(rng, mon, i):
    with scratch(mon) as d:
        old = os.umask(rng.choice([0, 0o022, 0o027]))
        um = os.umask(0o022)
        os.umask(um)
        try:
            for _ in range(6):
                parts = [rng.choice("abc") for _ in range(rng.randint(1, 4))]
                path = osp.join(*parts) + rng.choice(["", "", "/"])
                if rng.random() < 0.4:
                    path = osp.join(d, path)
                # clutter
                x = rng.random()
                k = rng.randint(1, len(parts))
                p = osp.join(*parts[:k])
                if not osp.lexists(p) and x < 0.8:
                    os.makedirs(osp.dirname(p) or ".", exist_ok=True) if not blocked(d, parts[:k - 1]) else None
                    if not blocked(d, parts[:k - 1]):
                        if x < 0.3:
                            open(p, "w").close()
                        elif x < 0.5:
                            os.makedirs(p)
                        elif x < 0.6:
                            os.symlink(d, p)
                        elif x < 0.7:
                            os.symlink(osp.join(d, "nowhere"), p)
                before = listing_(d)
                mon.note("folder", path, "existing", sorted(before))
                fails = blocked(d, parts)
                existed = osp.isdir(path)
                mode = rng.choice([None, 0o700, 0o750])
                try:
                    res = utils.ensure_dir_exists(path) if mode is None else utils.ensure_dir_exists(path, mode)
                    mon.check(not fails, "no failure though %r is in the way", fails)
                    mon.check(osp.isdir(path), "folder not there")
                    if existed:
                        mon.check(listing_(d) == before, "something changed for an existing folder")
                        mon.ev("dir-existed")
                    else:
                        mon.eq(stat.S_IMODE(os.stat(path).st_mode), (mode or 0o755) & ~um, "mode")
                        mon.check(os.listdir(path) == [], "folder not empty")
                        mon.ev("dir-made")
                    mon.check(all(item in listing_(d).items() for item in before.items()), "other files changed")
                except OSError as ex:
                    mon.check(fails, "failed with %r though nothing is in the way", ex)
                    mon.check({k: v for k, v in listing_(d).items() if k in before} == before, "other files changed")
                    mon.ev("dir-failed")
                mon.key(tuple(parts), fails, existed)
            # someone else making it (or a file) meanwhile
            for what in ("dir", "file", "denied"):
                p = osp.join("race", what)
                real = os.makedirs
                calls = []

                def makedirs(name, *a, **k):
                    calls.append(name)
                    if len(calls) == 1:
                        if what == "denied":
                            raise PermissionError(13, "denied", name)
                        real("race", exist_ok=True)
                        real(name) if what == "dir" else open(name, "w").close()
                    return real(name, *a, **k)
                os.makedirs = makedirs
                try:
                    mon.note("meanwhile appeared", what)
                    try:
                        utils.ensure_dir_exists(p)
                        ok = True
                    except OSError:
                        ok = False
                finally:
                    os.makedirs = real
                if what == "dir":
                    mon.check(ok and osp.isdir(p), "failed as another made the same folder")
                elif what == "file":
                    mon.check(not ok, "silent as a file appeared in the way")
                elif calls:
                    mon.check(not ok or osp.isdir(p), "silent though it could not be made")
                mon.ev("race")
        finally:
            os.umask(old)


def listing_(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = osp.join(root, f)
            st = os.lstat(p)
            out[osp.relpath(p, d)] = (st.st_mode, st.st_ino)
    return out


def blocked(d, parts):
    """-> the 1st ancestor-or-self existing but not a folder."""
    p = d
    for x in parts:
        p = osp.join(p, x)
        if osp.lexists(p) and not osp.isdir(p):
            return osp.relpath(p, d)
    return None


def w_threads(rng, mon, i):
    """Many making the same nested folders all succeed."""
    with scratch(mon) as d:
        for r in range(3):
            p = osp.join(d, *["t%s" % r] + ["x"] * rng.randint(1, 6))
            n, errs, gate = 8, [], threading.Barrier(8)

            def work():
                gate.wait()
                try:
                    utils.ensure_dir_exists(p)
                    if not osp.isdir(p):
                        errs.append("not there")
                except Exception as ex:
                    errs.append(ex)
            ts = [threading.Thread(target=work) for _ in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            mon.note("folder made by many", p)
            mon.check(not errs, "%s of %s threads failed: %r", len(errs), n, errs[:1])
            mon.ev("threads", n)


WORKLOADS = [("unique", w_unique, 150, 5000), ("ext", w_ext, 400, 15000), ("dirs", w_dirs, 200, 6000), ("threads", w_threads, 20, 400)]
