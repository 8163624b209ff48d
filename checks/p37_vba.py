"""P37: importing VBA modules, on a stand-in of the object-model of Excel."""
import contextlib
import os
import os.path as osp
import shutil
import sys
import types

import pandalone
from pandalone import winutils, xlsutils

RULE = ("random folders of VBA-files and workbooks with modules, sheets, classes and forms, protected or not, saved or not, driven through an object-model stand-in that enforces Excel's rules "
        "(case-insensitive unique names, macro-enabled formats) and logs every event; the final modules and the event log are checked; non-trivial = distinct workbook/file-set/arguments")
FLOORS = {"denied": 240, "excel": 740, "import": 640, "no-active": 71, "no-files": 680, "not-excel": 1000, "own": 45, "removal": 800, "remove": 200, "remove-all": 220, "remove-named": 440, "replaced": 200, "run": 1300, "save-inplace": 61, "save-macro": 100, "save-new": 180, "shortcut": 610, "shortcut-failed": 62, "usage": 180}


class ComError(Exception):
    def __init__(self, hresult, text):
        Exception.__init__(self, hresult, text)
        self.hresult, self.excepinfo = hresult, (0, "Excel", text, None, 0, hresult)


class Code:
    def __init__(self, text):
        self.text = text
        self.CountOfLines = len(text.splitlines())


class Mod:
    def __init__(self, coll, name, kind, text):
        object.__setattr__(self, "_d", dict(Name=name, Type=kind, CodeModule=Code(text)))
        object.__setattr__(self, "coll", coll)

    def __getattr__(self, k):
        try:
            return self._d[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        assert k == "Name", k
        if any(m is not self and m.Name.lower() == v.lower() for m in self.coll.mods):
            raise ComError(-2146828256, "Name conflicts with existing module %s" % v)
        self.coll.log.append(("rename", self.Name, v))
        self._d["Name"] = v


class Components:
    def __init__(self, log):
        self.mods, self.log = [], log

    def add(self, name, kind, text):
        self.mods.append(Mod(self, name, kind, text))
        return self.mods[-1]

    def Item(self, name):
        for m in self.mods:
            if m.Name.lower() == name.lower():
                return m
        raise ComError(-2147352567 if len(name) % 2 else -2147352565, "Subscript out of range")

    def Remove(self, m):
        if m.Type == 100 or m not in self.mods:
            raise ComError(-2147024809, "Cannot remove %s" % m.Name)
        self.mods.remove(m)
        self.log.append(("remove", m.Name))

    def Import(self, path):
        if not osp.isabs(path) or not osp.isfile(path):
            raise ComError(-2146828235, "File not found: %s" % path)
        text = open(path, encoding="utf8").read()
        first = text.split("\n")[0]
        name = first.split('"')[1] if first.startswith("Attribute VB_Name") else "Module1"
        n, base = 0, name
        while any(m.Name.lower() == name.lower() for m in self.mods):
            n += 1
            name = base + str(n)
        self.log.append(("import", osp.realpath(path)))
        return self.add(name, 1, text)

    def __iter__(self):
        for m in self.mods:  # live, as of COM
            yield m

    def __len__(self):
        return len(self.mods)


class App:
    DisplayAlerts = True


class Project:
    def __init__(self, log, protection, denied):
        self.VBComponents, self._prot, self._denied = Components(log), protection, denied

    @property
    def Protection(self):
        if self._denied == "late":
            raise ComError(-2147352567, "not trusted")
        return self._prot


class Api:
    def __init__(self, log, full, saved, protection, denied):
        self.log, self.FullName = log, full
        self.Name, self.Path = osp.basename(full), osp.dirname(full) if saved else ""
        self.Application = App()
        self._vbp, self._denied = Project(log, protection, denied), denied

    @property
    def VBProject(self):
        if self._denied == "early":
            raise ComError(-2147352567, "not trusted")
        if self._denied == "other":
            raise ComError(-12345, "weird")
        return self._vbp

    def Save(self):
        assert self.Path
        self.log.append(("save",))

    def SaveAs(self, path, FileFormat=None):
        if self.Application.DisplayAlerts:
            self.log.append(("alert",))
        self.log.append(("saveas", path, FileFormat))


class Book:
    def __init__(self, api):
        self.api = api


@contextlib.contextmanager
def excel(mon, api, active):
    """Installs the stand-ins."""
    boxes, books = [], []

    def book(fname):
        books.append(fname)
        return Book(api)

    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        return m

    mods = dict(win32com=module("win32com"), xlwings=module("xlwings", Book=book, books=types.SimpleNamespace(active=Book(api) if active else None)),
                easygui=module("easygui", textbox=lambda msg=None, title=None, text=None: boxes.append((title, msg, text))))
    mods["win32com.universal"] = mods["win32com"].universal = module("win32com.universal", com_error=ComError)
    old = {k: sys.modules.get(k) for k in mods}
    d, cwd = osp.join(mon.tmp, "p37"), os.getcwd()
    os.makedirs(d)
    sys.modules.update(mods)
    try:
        os.chdir(d)
        yield d, boxes, books
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


NAMES = ["Foo", "bar", "Module1", "my.mod", "xlw", "FooBar", "b", "Utils 2", "Sheet9", "Ünit"]
EXTS = [".xls", ".xlsx", ".xlsm", ".XLSM", ".xlt", ".xltm", ".xlam", ".Xltx", ""]


def w_import(rng, mon, i):
    log = []
    saved = rng.random() < 0.85
    full = ("/some/dir.d/" if saved else "") + "Book" + (rng.choice(EXTS) if saved else "1")
    protection = 1 if rng.random() < 0.08 else rng.choice([0, 0, 2])
    denied = rng.choice(["early", "late", "other"]) if rng.random() < 0.12 else None
    api = Api(log, full, saved, protection, denied)
    comps = api._vbp.VBComponents
    used = set()
    for n in rng.sample(NAMES, rng.randint(0, 6)):
        n = rng.choice([n, n, n.lower(), n.upper()])
        if n.lower() not in used:
            used.add(n.lower())
            comps.add(n, rng.choice([1, 1, 1, 2, 3]), "old of " + n)
    comps.add("ThisWorkbook", 100, "")
    others = list(comps.mods)
    active = rng.random() < 0.85
    with excel(mon, api, active) as (d, boxes, books):
        folder = rng.choice(["", "sub", "a b/c"])
        os.makedirs(osp.join(d, folder), exist_ok=True)
        files = {}
        nest = rng.random() < 0.4  # having sub-folders, which a bare star would match
        for n in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 5])):
            n = rng.choice([n, n, n.lower(), n.upper()])
            ext = rng.choice([".vba", ".vba", ".vba", ".bas", ".VBA", ".txt", ""])
            depth = rng.choice([0, 0, 1, 1, 2]) if nest else 0
            p = osp.join(folder, *["one", "two"][:depth], n + (ext or "." * ("." in n)))
            os.makedirs(osp.join(d, osp.dirname(p)), exist_ok=True)
            vb = rng.choice(["", 'Attribute VB_Name = "%s"\n' % rng.choice(NAMES + [n])])
            with open(osp.join(d, p), "w", encoding="utf8") as fd:
                fd.write(vb + "new of %s\nSub S()\n" % p)
            files[n] = p
        pat, ok = rng.choice([("*.vba", lambda n: n.endswith(".vba")), ("*", lambda n: True), ("[Fb]*.vba", lambda n: n[0] in "Fb" and n.endswith(".vba")), ("*.ba?", lambda n: n.endswith(".bas")),
                              ("nope*", lambda n: False), ("?oo.vba", lambda n: n[1:] == "oo.vba")])
        if nest and pat == "*":
            pat, ok = "*.*", lambda n: "." in n
        deep = rng.choice([0, 1, 1, 2]) if nest else 0
        exp = {n: p for n, p in files.items() if ok(osp.basename(p)) and osp.dirname(osp.relpath(p, folder or ".")).count("/") + bool(osp.dirname(osp.relpath(p, folder or "."))) == deep}
        wild = osp.join(folder, *[rng.choice(["*", "one*", "**"] if j == 0 else ["*", "t*"]) for j in range(deep)], pat)
        rel = rng.random() < 0.5
        if not rel:
            wild = osp.join(d, wild)
        wb_arg = rng.choice([None, full, "in.xlsx"])
        new = rng.choice([None, None, None, "out.xlsm", "/else/where/o.xlsm", "bar"])
        mon.note("workbook", full, "saved", saved, "modules", [(m.Name, m.Type) for m in others], "files", files, "args", (wild, wb_arg, new), "protection", protection, denied, "active", active)
        mon.key(full, tuple((m.Name, m.Type) for m in others), tuple(sorted(files.items())), pat, rel, wb_arg, new, protection, denied, active)
        mon.ev("run")
        how = rng.choice(["call", "call", "kw", "main"])

        def run():
            if how == "main":
                args = [wild] + ([wb_arg] if wb_arg or new else []) + ([new] if new else [])
                return xlsutils.main("/usr/bin/xlvba.py", *args)
            if how == "kw":
                return xlsutils.import_vba_into_excel_workbook(wild, wrkb_fname=wb_arg, new_fname=new)
            return xlsutils.import_vba_into_excel_workbook(wild, wb_arg, new)

        def untouched():
            mon.check(comps.mods == others and not log and api.Application.DisplayAlerts is True, "the workbook has been touched: %r %r", [m.Name for m in comps.mods], log)

        if wb_arg is None and not active:
            mon.raises(ValueError, run)
            untouched()
            mon.ev("no-active")
            return
        if denied or protection == 1:
            try:
                run()
            except Exception as ex:
                mon.check(isinstance(ex, ComError) == (denied == "other"), "failure is %r", ex)
                if denied != "other":
                    mon.check(len(boxes) == 1 and boxes[0][1] == str(ex) and "Trust access" in boxes[0][2] and ("not trusted" in str(ex) if denied else "protected" in str(ex)), "message %r, dialogs %r", ex, boxes)
            else:
                mon.fail("no error for the protected project")
            untouched()
            mon.ev("denied")
            return
        got = run()
        mon.check(how == "main" or (isinstance(got, Book) and got.api is api), "returned %r", got)
        mon.check(books == ([wb_arg] if wb_arg else []), "opened books %r", books)
        mon.check(not boxes and api.Application.DisplayAlerts is True, "dialogs %r, alerts %r", boxes, api.Application.DisplayAlerts)
        if not exp:
            untouched()
            mon.ev("no-files")
            return
        # modules: the rest untouched and in order, then one for each file
        lower = {n.lower() for n in exp}
        keep = [m for m in others if m.Name.lower() not in lower]
        mon.check(comps.mods[:len(keep)] == keep, "modules not imported %r, should be %r", [m.Name for m in comps.mods], [m.Name for m in keep])
        got = {m.Name: m.CodeModule.text for m in comps.mods[len(keep):]}
        want = {n: open(osp.join(d, p), encoding="utf8").read() for n, p in exp.items()}
        mon.check(got == want and len(comps.mods) == len(keep) + len(exp), "modules imported %r, should be %r", got, want)
        imports = [e[1] for e in log if e[0] == "import"]
        mon.check(sorted(imports) == sorted(osp.realpath(osp.join(d, p)) for p in exp.values()), "imported %r", imports)
        mon.ev("import", len(imports))
        mon.ev("replaced", len(others) - len(keep))
        mon.ev("remove", sum(e[0] == "remove" for e in log))
        # saving
        saves = [e for e in log if e[0] in ("save", "saveas", "alert")]
        macro = osp.splitext(full)[1].lower().endswith("m")
        if new:
            want = [("saveas", new, 52)]
            mon.ev("save-new")
        elif not macro:
            want = [("saveas", full + ".xlsm", 52)]
            mon.ev("save-macro")
        else:
            want = [("save",)]
            mon.ev("save-inplace")
        mon.check(saves == want, "saves %r, expected %r", saves, want)
        mon.check(log[-1] in want, "saved before the last change: %r", log)


def w_remove(rng, mon, i):
    """Removing modules: those named, or all."""
    log = []
    comps = Components(log)
    names = []
    for n in rng.sample(NAMES, rng.randint(0, 8)):
        n = rng.choice([n, n.lower(), n.upper()])
        comps.add(n, rng.choice([1, 1, 1, 1, 2, 3, 100]), "")
        names.append(n)
    before = list(comps.mods)
    asked = [rng.choice([n, n.lower(), n.upper()]) for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3, 6]))]
    mon.note("modules", [(m.Name, m.Type) for m in before], "remove", asked)
    xlsutils._remove_vba_modules(comps, *asked)
    low = {n.lower() for n in asked}
    keep = [m for m in before if m.Type != 1 or (asked and m.Name.lower() not in low)]
    mon.check(comps.mods == keep, "modules left %r, should be %r", [m.Name for m in comps.mods], [m.Name for m in keep])
    mon.ev("removal", len(before) - len(keep))
    mon.ev("remove-all" if not asked else "remove-named")
    mon.key(tuple((m.Name, m.Type) for m in before), tuple(asked))


def w_misc(rng, mon, i):
    # own macros, usage errors
    log = []
    api = Api(log, "/d/own.xls", True, 0, None)
    with excel(mon, api, True) as (d, boxes, books):
        mon.note("--pandalone")
        xlsutils.main("cmd", "--pandalone", "/d/own.xls", *(["o.xlsm"] if rng.random() < 0.5 else []))
        src = osp.join(osp.dirname(pandalone.__file__), "excel")
        want = {osp.splitext(f)[0] for f in os.listdir(src) if f.endswith(".vba")}
        mon.check({m.Name for m in api._vbp.VBComponents.mods} == want and log[-1][0] == "saveas", "imported %r, saved %r", [m.Name for m in api._vbp.VBComponents.mods], log)
        mon.ev("own")
        for argv in (["cmd"], ["cmd", "--help"], ["cmd", "--pandalon", "x"], ["cmd", "--", "a.xls"]):
            mon.note("argv", argv)
            del log[:]
            mon.raises(SystemExit, xlsutils.main, *argv)
            mon.check(not log, "usage error did %r", log)
            mon.ev("usage")
    for _ in range(40):
        base = rng.choice(["a", "a.xls", "dir.xls/b", "", "http://h/x", "é b"])
        ext = rng.choice([".xls", ".xlsx", ".xlsm", ".xlt", ".xltx", ".xltm", ".xlw", ".xlm", ".xl", ".xlsb", ".xlsxx", ".csv", "", ".xla", ".xlst", "xls", ".xls ", ".xls.gz", ".xlsx#", ".xmls"])
        ext = rng.choice([ext, ext.upper(), ext.title()])
        p = base + ext
        exp = p.lower().split("/")[-1].rpartition(".")[2] in ("xls", "xlsx", "xlsm", "xlt", "xltx", "xltm", "xlw", "xlm") and "." in p.split("/")[-1]
        mon.note("path", p)
        mon.check(bool(xlsutils.is_excel_file(p)) == exp, "is_excel_file(%r) gave %r", p, xlsutils.is_excel_file(p))
        mon.ev("excel" if exp else "not-excel")
        mon.key(p)


class Shortcut:
    def __init__(self, log, path, bad):
        object.__setattr__(self, "d", {})
        object.__setattr__(self, "p", (log, path, bad))

    def __setattr__(self, k, v):
        if k == self.p[2]:
            raise ComError(-1, "cannot set " + k)
        self.d[k] = v

    def save(self):
        self.p[0].append((self.p[1], dict(self.d)))

    Save = save


def w_shortcut(rng, mon, i):
    """Shortcuts hold just what was given, and are saved once."""
    attrs = [("Targetpath", "target_path"), ("WorkingDirectory", "wdir"), ("Arguments", "target_args"), ("IconLocation", "icon_path"), ("Description", "desc")]
    for _ in range(10):
        log = []
        bad = rng.choice(attrs)[0] if rng.random() < 0.2 else None
        shell = types.SimpleNamespace(CreateShortCut=lambda path: Shortcut(log, path, bad), SpecialFolders=lambda n: "C:\\" + n)
        path = rng.choice(["C:\\a.lnk", "b.URL", "é.lnk"])
        kw = {k: rng.choice(["x", "y z", None, "", "-a 'b'"]) for _, k in attrs[1:] if rng.random() < 0.6}
        target = rng.choice(["C:\\prog.exe", "http://h"])
        mon.note("shortcut", path, target, kw, "failing", bad)
        exp = {"Targetpath": target}
        exp.update({a: kw[k] for a, k in attrs[1:] if kw.get(k)})
        order = rng.random() < 0.5

        def run():
            if order:
                names = ["wdir", "target_args", "icon_path", "desc"]
                return winutils.win_create_shortcut(shell, path, target, *[kw.get(k) for k in names])
            return winutils.win_create_shortcut(shell, path, target, **kw)

        if bad in exp:
            mon.raises(ComError, run)
            mon.check(len(log) == 1 and log[0][0] == path and set(log[0][1].items()) <= set(exp.items()), "saved %r", log)
            mon.ev("shortcut-failed")
        else:
            run()
            mon.check(log == [(path, exp)], "saved %r, expected %r", log, exp)
            mon.ev("shortcut")
        mon.check(winutils.win_folder(shell, "StartMenu") == "C:\\StartMenu", "folder")
        mon.key(path, target, tuple(kw.items()), bad)


WORKLOADS = [("import", w_import, 3000, 30000), ("remove", w_remove, 1500, 15000), ("misc", w_misc, 100, 1000), ("shortcut", w_shortcut, 150, 1500)]
