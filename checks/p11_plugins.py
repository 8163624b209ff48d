import os
import sys
import types

from pandalone import xleash

from pvm import core  # noqa: F401

RULE = ("1-6 plugins declared in a real dist-info folder on the working-set, each healthy or faulty while loading (import/syntax/missing/attr errors) "
        "or installing (assorted exceptions, non-callable, none); load/install events are checked against the two-phase trace spec; "
        "non-trivial = at least one fault and one healthy plugin, keyed by the fault vector")
FLOORS = {"loaded": 630, "installed": 310, "load-fault": 300, "install-fault": 100, "no-plugins": 9, "reinit": 9, "same-name": 47, "same-installer": 40}

LOAD = {"raise-import": "raise ImportError('no lib')", "raise-value": "raise ValueError('%s {} bad')", "raise-own": "class E(Exception): pass\nraise E()",
        "syntax": "def (:\n", "raise-key": "raise KeyError(None)", "raise-attr": "raise AttributeError('x')", "raise-unicode": "raise UnicodeError('é')"}
INST = {"value": "raise ValueError('%d bad')", "key": "raise KeyError()", "type": "return 1 + 'a'", "stop": "raise StopIteration()",
        "assert": "assert False", "mem": "raise MemoryError()"}


def w_faults(rng, mon, i):
    import pkg_resources

    events = sys.modules.setdefault("pvm_events", types.ModuleType("pvm_events"))
    events.log = log = []
    tag = "pvm_%d_%d" % (os.getpid(), i)
    group = "pvm.group.%s" % tag
    d = os.path.join(mon.tmp, tag)
    os.makedirs(d)
    plugins, decls = [], {}
    dists = [tag, tag + "_b", tag + "_c"][:rng.choice([1, 1, 2, 3])]
    names = rng.sample([(x, dist) for x in ("a", "b", "zz", "m1", "Plugin", "x.y", "k-2", "0th") for dist in dists], rng.randint(1, 6))
    if len({x for x, _ in names}) < len(names):
        mon.ev("same-name")
    for n, (name, dist) in enumerate(names):
        loadable = [p for p in plugins if p[1] in ("ok", "nofunc", "noncallable", "install")
                    and name + "=" + p[0].split("=")[1] not in [q[0] for q in plugins]]
        if loadable and rng.random() < 0.15:  # the same installer declared again
            first, kind, _, attr, origin = rng.choice(loadable)
            modname = first.split("=")[1]
            decls.setdefault(dist, []).append("%s = %s%s" % (name, modname, ":" + attr if attr else ""))
            plugins.append((name + "=" + modname, kind, None, attr, origin))
            mon.ev("same-installer")
            continue
        kind = rng.choice(["ok", "ok", "ok", "nofunc", "noncallable", "missing-module", "missing-attr", "load", "install"])
        modname = "%s_m%d" % (tag, n)
        body = "import pvm_events\npvm_events.log.append(('load', %r))\n" % (name + "=" + modname)
        attr = "inst"
        fault = None
        if kind == "load":
            fault = rng.choice(sorted(LOAD))
            body = (body if fault != "syntax" else "") + LOAD[fault] + "\n"
        fail = INST[rng.choice(sorted(INST))] if kind == "install" else "pass"
        body += "def inst():\n    pvm_events.log.append(('install', %r))\n    %s\n" % (name + "=" + modname, fail)
        body += "noncall = 5\n"
        if kind == "noncallable":
            attr = "noncall"
        elif kind == "missing-attr":
            attr = "nope"
        elif kind == "nofunc":
            attr = None
        if kind != "missing-module":
            with open(os.path.join(d, modname + ".py"), "w", encoding="utf8") as fd:
                fd.write(body)
        decls.setdefault(dist, []).append("%s = %s%s" % (name, modname, ":" + attr if attr else ""))
        plugins.append((name + "=" + modname, kind, fault, attr, name + "=" + modname))
    for dist, decl in decls.items():
        info = os.path.join(d, "%s-1.0.dist-info" % dist)
        os.makedirs(info)
        with open(os.path.join(info, "METADATA"), "w") as fd:
            fd.write("Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n" % dist)
        with open(os.path.join(info, "entry_points.txt"), "w") as fd:
            fd.write("[%s]\n%s\n" % (group, "\n".join(decl)))
    mon.note("plugins", plugins)
    sys.path.insert(0, d)
    import importlib

    importlib.invalidate_caches()
    before = set(xleash._plugins_installed)
    try:
        pkg_resources.working_set.add_entry(d)
        xleash._init_plugins(group)
    finally:
        sys.path.remove(d)
        ws = pkg_resources.working_set
        if d in ws.entries:
            ws.entries.remove(d)
        for k in ws.entry_keys.pop(d, []):
            ws.by_key.pop(k, None)
    stages = {}
    for k in set(xleash._plugins_installed) - before:
        for name, *_ in plugins:
            if "parse('%s" % name.replace("=", " = ") in k:
                stages[name] = xleash._plugins_installed[k]
    for k in set(xleash._plugins_installed) - before:
        del xleash._plugins_installed[k]
    loads = [e[1] for e in log if e[0] == "load"]
    installs = [e[1] for e in log if e[0] == "install"]
    exp_stage = {"ok": 2, "nofunc": 1, "noncallable": 1, "missing-module": 0, "missing-attr": 0, "load": 0, "install": 1}
    mon.eq({n: stages.get(n) for n, *_ in plugins}, {n: exp_stage[k] for n, k, *_ in plugins}, "stages")
    mon.eq(sorted(loads), sorted(n for n, k, f, _, o in plugins if k != "missing-module" and f != "syntax" and n == o), "modules loaded")
    mon.eq(sorted(installs), sorted(o for n, k, _, _, o in plugins if k in ("ok", "install")), "installers run")
    if installs and loads:
        first_install = min(j for j, e in enumerate(log) if e[0] == "install")
        mon.check(not any(e[0] == "load" for e in log[first_install:]), "a plugin loaded after an installer ran: %r", log)
    for n, k, *_ in plugins:
        mon.ev("load-fault" if exp_stage[k] == 0 else "loaded")
        if k == "install":
            mon.ev("install-fault")
        if k == "ok":
            mon.ev("installed")
    if {exp_stage[k] for _, k, *_ in plugins} > {2}:
        mon.key(sorted(map(repr, plugins)))
    import shutil

    shutil.rmtree(d)


def w_none(rng, mon, i):
    group = "pvm.none.%s" % i
    mon.note("no plugins in", group)
    mon.raises(ValueError, xleash._init_plugins, group)
    mon.ev("no-plugins")


def w_reinit(rng, mon, i):
    mon.note("re-initializing built-ins")
    filters = dict(xleash.installed_filters)
    before = list(xleash.io_backends)
    mon.check([type(b).__name__ for b in before].count("XlrdBackend") == 1, "one xlrd backend after import: %r", before)
    for _ in range(rng.randint(1, 3)):
        xleash._init_plugins()
        mon.check([type(b).__name__ for b in xleash.io_backends].count("XlrdBackend") == 1, "backends after re-init: %r", xleash.io_backends)
        mon.check(len(xleash.io_backends) == len(before), "backends after re-init: %r", xleash.io_backends)
    mon.eq(sorted(xleash.installed_filters), sorted(filters), "filters after re-init")
    st = [v for k, v in xleash._plugins_installed.items() if "xlrd" in k]
    mon.check(st and all(v == 2 for v in st), "stage of the xlrd plugin: %r", xleash._plugins_installed)
    mon.ev("reinit")


WORKLOADS = [("faults", w_faults, 600, 12000), ("none", w_none, 20, 50), ("reinit", w_reinit, 20, 60)]
