"""Runner of the runtime monitors.

A check module (checks/pNN_*.py) defines

    WORKLOADS = [(name, fn, n_quick, n_thorough), ...]   # fn(rng, mon, i) runs one case
    FLOORS    = {event: minimum count in a quick run}    # below => inconclusive (exit 2)
    RULE      = "how cases are made, what makes one non-trivial"

A case drives the real code in /repo under a `Mon`, that records what the monitors
observed and raises `Violation` when an oracle disagrees.  An exception escaping a case
is a violation if it passed through the code under test, or if it tells that the oracle got
something it cannot make out; else an error of the harness.
"""
import collections
import hashlib
import importlib
import json
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_TIMEOUT = 30
WALL_CAP = {"quick": 500, "thorough": 760}
WORKERS = min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.sig = sig


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def setup_imports():
    """Import pandalone from /repo's working tree, never from stale bytecode."""
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = tempfile.mkdtemp(prefix="pvm-pyc-")
    shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    import warnings

    warnings.simplefilter("ignore")
    root = logging.getLogger()
    root.addHandler(logging.NullHandler())
    logging.lastResort = None
    root.setLevel(logging.WARNING)
    import pandalone

    if not os.path.realpath(pandalone.__file__).startswith(REPO + "/"):
        raise HarnessError("pandalone imported from %s" % pandalone.__file__)
    warnings.simplefilter("ignore")


class LineMonitor:
    """Which lines of the code under test ran (sys.monitoring, one event per line)."""

    TOOL = 4

    def __init__(self):
        self.lines = collections.defaultdict(set)

    def start(self):
        m = getattr(sys, "monitoring", None)
        if not m:
            return
        prefix = REPO + "/pandalone/"

        def on_line(code, line):
            f = code.co_filename
            if f.startswith(prefix):
                self.lines[f[len(REPO) + 1:]].add(line)
            return m.DISABLE

        m.use_tool_id(self.TOOL, "pvm")
        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)


class Mon:
    """The recorder handed to cases: events, distinct states, samples, violations."""

    def __init__(self, prop, tier, seed, verbose=False):
        self.prop, self.tier, self.seed, self.verbose = prop, tier, seed, verbose
        self.events = collections.Counter()
        self.keys = set()
        self.samples = []
        self.cases = 0
        self._tmp = None
        self.desc = None

    thorough = property(lambda self: self.tier == "thorough")

    def ev(self, name, n=1):
        self.events[name] += n

    def key(self, *k):
        """Mark a distinct non-trivial case/state."""
        self.keys.add(hashlib.md5(repr(k).encode("utf8", "replace")).digest()[:8])

    def note(self, *what):
        """Describe the running case (for samples and replays)."""
        self.desc = " ".join(w if isinstance(w, str) else safe_repr(w) for w in what)
        if self.verbose:
            print("NOTE", self.desc)

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, *args, sig=None):
        if not cond:
            try:
                msg = msg % args if args else msg
            except Exception:
                msg = "%s %s" % (msg, [safe_repr(a) for a in args])
            self.fail(msg, sig)

    def eq(self, got, exp, what, sig=None):
        if not same(got, exp):
            self.fail("%s: got %r, expected %r" % (what, got, exp), sig)

    def raises(self, excs, fn, *a, **k):
        """Run fn, which must raise exactly one of those exception types (or a subclass)."""
        try:
            res = fn(*a, **k)
        except excs as ex:
            return ex
        except Exception as ex:
            self.fail("raised %s(%s), expected %s" % (type(ex).__name__, ex, names(excs)))
        self.fail("returned %r, expected %s" % (res, names(excs)))

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="pvm-%s-" % self.prop)
        return self._tmp

    def close(self):
        if self._tmp and self._tmp.startswith(tempfile.gettempdir() + "/pvm-"):
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def safe_repr(x):
    try:
        return repr(x)
    except Exception as ex:  # pandas fails on some nested containers
        return "<%s with a failing repr: %s>" % (type(x).__name__, ex)


def names(excs):
    return "/".join(e.__name__ for e in (excs if isinstance(excs, tuple) else (excs,)))


def same(a, b):
    """Deep equality with exact types for scalars and containers; NaN equals NaN; numpy/pandas aware."""
    import numpy as np
    import pandas as pd

    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (
            isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
            and a.dtype == b.dtype and a.shape == b.shape and same(a.tolist(), b.tolist())
        )
    if isinstance(a, (pd.Series, pd.DataFrame)) or isinstance(b, (pd.Series, pd.DataFrame)):
        return type(a) is type(b) and a.equals(b) and (
            list(a.columns) == list(b.columns) and list(map(str, a.dtypes)) == list(map(str, b.dtypes))
            if isinstance(a, pd.DataFrame) else str(a.dtype) == str(b.dtype)
        ) and list(a.index) == list(b.index)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        if a != a and b != b:
            return True
    except Exception:
        pass
    return bool(a == b)


def in_sut(tb):
    return any(f.filename.startswith(REPO + "/pandalone/") for f in traceback.extract_tb(tb))


def _alarm(*_):
    raise CaseTimeout()


OUTCOME_ERRORS = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, AssertionError)


def run_case(mod, prop, mon, wname, fn, i):
    """-> None or a violation-dict; HarnessError if the harness failed."""
    rng = random.Random("%s/%s/%s/%s" % (mon.seed, prop, wname, i))
    mon.desc = None
    mon.cases += 1
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)  # CPU-time: immune to a loaded machine
    try:
        fn(rng, mon, i)
        return None
    except Violation as ex:
        msg, sig, tb = str(ex), ex.sig, ""
    except CaseTimeout:
        tb = traceback.format_exc()
        if not in_sut(sys.exc_info()[2]):
            raise HarnessError("timeout in harness: %s\n%s" % (mon.desc, tb))
        msg, sig = "did not terminate within %s CPU-seconds" % CASE_TIMEOUT, None
    except Exception as ex:
        tb = traceback.format_exc()
        if not in_sut(sys.exc_info()[2]):
            if not isinstance(ex, OUTCOME_ERRORS) or "module 'pandalone" in str(ex):
                raise HarnessError("case %s/%s: %s\n%s" % (wname, i, mon.desc, tb))
            # The oracle choked on something of another shape than any it may get.
            msg, sig = "cannot make out the outcome, %s: %s" % (type(ex).__name__, ex), None
        else:
            msg, sig = "unexpected %s: %s" % (type(ex).__name__, ex), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if len(msg) > 3000:
        msg = msg[:3000] + "..."
    return dict(property=prop, workload=wname, index=i, seed=mon.seed, tier=mon.tier,
                message=msg, case=mon.desc, signature=sig, traceback=tb)


def load_known(prop):
    known = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as fd:
        for line in fd:
            if line.startswith("finding: property=%s " % prop):
                sig, _, what = line.split(" ", 2)[2].strip().partition(" ")
                known[sig] = what
    return known


def _worker(mod, prop, tier, seed, w, nworkers, deadline, linemon):
    mon = Mon(prop, tier, seed)
    viols, planned, err = [], 0, None
    known = load_known(prop)
    kseen = set()
    try:
        for wname, fn, nq, nt in mod.WORKLOADS:
            n = nq if tier == "quick" else nt
            for i in range(w, n, nworkers):
                planned += 1
                if time.time() > deadline:
                    mon.ev("skipped_by_wall_cap")
                    continue
                v = run_case(mod, prop, mon, wname, fn, i)
                if v and v["signature"] in known:
                    kseen.add(v["signature"])
                    v = None
                if v:
                    viols.append(v)
                    if len(viols) >= 3:
                        raise StopIteration
                if mon.desc and len(mon.samples) < 3 and i >= 2 * nworkers:
                    if not any(s["workload"] == wname for s in mon.samples):
                        mon.samples.append(dict(workload=wname, index=i, case=mon.desc[:600]))
                mon.ev("cases:" + wname)
    except StopIteration:
        pass
    except HarnessError as ex:
        err = str(ex)
    except BaseException:
        err = traceback.format_exc()
    finally:
        mon.close()
    return dict(viols=viols, err=err, cases=mon.cases, events=dict(mon.events), kseen=sorted(kseen),
                keys=[k.hex() for k in mon.keys], samples=mon.samples,
                lines={k: sorted(v) for k, v in linemon.lines.items()})


def find_module(prop):
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.startswith(prop.lower() + "_") and f.endswith(".py"):
            return "checks." + f[:-3]
    raise HarnessError("no check module for %s" % prop)


def prop_meta(prop):
    with open(os.path.join(VERIF, "MANIFEST.json")) as fd:
        for c in json.load(fd)["checks"]:
            if c["property"] == prop:
                return c
    return dict(level="exploration")


def run_parallel(mod, prop, tier, seed, deadline, linemon, nworkers):
    d = tempfile.mkdtemp(prefix="pvm-res-")
    pids = []
    sys.stdout.flush()
    for w in range(nworkers):
        pid = os.fork()
        if not pid:
            code = 1
            try:
                # The code under test chats on stderr (asteval, tracebacks); errors of
                # the harness travel in the results.
                nul = os.open(os.devnull, os.O_WRONLY)
                os.dup2(nul, 2)
                res = _worker(mod, prop, tier, seed, w, nworkers, deadline, linemon)
                with open(os.path.join(d, "%d.json" % w), "w") as fd:
                    json.dump(res, fd)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    results = []
    for w, pid in enumerate(pids):
        os.waitpid(pid, 0)
        try:
            with open(os.path.join(d, "%d.json" % w)) as fd:
                results.append(json.load(fd))
        except Exception as ex:
            results.append(dict(viols=[], err="worker %d died: %s" % (w, ex), cases=0, events={},
                                kseen=[], keys=[], samples=[], lines={}))
    shutil.rmtree(d, ignore_errors=True)
    return results


def run_check(prop, tier, seed):
    t0 = time.time()
    setup_imports()
    linemon = LineMonitor()
    linemon.start()
    mod = importlib.import_module(find_module(prop))
    nworkers = getattr(mod, "WORKERS", WORKERS)
    results = run_parallel(mod, prop, tier, seed, t0 + WALL_CAP[tier], linemon, nworkers)

    viols = [v for r in results for v in r["viols"]]
    errs = [r["err"] for r in results if r["err"]]
    events = collections.Counter()
    lines = collections.defaultdict(set)
    keys, samples, cases, kseen = set(), [], 0, set()
    for r in results:
        events.update(r["events"])
        keys.update(r["keys"])
        samples += r["samples"]
        cases += r["cases"]
        kseen.update(r["kseen"])
        for k, v in r["lines"].items():
            lines[k].update(v)
    if os.environ.get("PVM_LINES"):  # for `tools/uncovered.py`
        with open(os.path.join(os.environ["PVM_LINES"], prop + ".json"), "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    meta = prop_meta(prop)
    cov = dict(evaluations=cases, distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples[:6],
               monitor_events={k: v for k, v in sorted(events.items())},
               repo_lines_executed={k: len(v) for k, v in sorted(lines.items())}, workers=nworkers)
    evd = dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov,
               assumptions=[meta.get("level_note", "")], wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fd:
        json.dump(evd, fd, indent=1)

    known = load_known(prop)
    for sig, what in known.items():
        print("KNOWN-FINDING: property=%s %s%s" % (prop, what, "" if sig in kseen else " (not reached in this run)"))
    if viols:
        for n, v in enumerate(viols[:3]):
            rp = os.path.join(VERIF, "evidence", "%s.replay%d.json" % (prop, n))
            with open(rp, "w") as fd:
                json.dump(v, fd, indent=1)
            print("case: %s" % v["case"])
            print("what: %s" % v["message"])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errs:
        print("HARNESS ERROR in %s:\n%s" % (prop, errs[0]))
        return 2
    low = {k: (events.get(k, 0), n) for k, n in mod.FLOORS.items() if events.get(k, 0) < n}
    if low:
        print("INCONCLUSIVE %s: monitors observed too little (seen, floor): %s" % (prop, low))
        return 3
    print("OK %s tier=%s seed=%s cases=%d distinct=%d wall=%.1fs" % (prop, tier, seed, cases, len(keys), time.time() - t0))
    return 0


def replay(path):
    with open(path) as fd:
        v = json.load(fd)
    setup_imports()
    mod = importlib.import_module(find_module(v["property"]))
    mon = Mon(v["property"], v["tier"], v["seed"], verbose=True)
    fn = [w[1] for w in mod.WORKLOADS if w[0] == v["workload"]][0]
    try:
        res = run_case(mod, v["property"], mon, v["workload"], fn, v["index"])
    finally:
        mon.close()
    print(json.dumps(res, indent=1) if res else "case passes")
    return 1 if res else 0


def selftest():
    setup_imports()
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f[0] == "p" and f.endswith(".py"):
            mod = importlib.import_module("checks." + f[:-3])
            assert mod.WORKLOADS and mod.RULE and mod.FLOORS, f
    assert same([1, float("nan"), {"a": None}], [1, float("nan"), {"a": None}])
    assert not same(1, 1.0) and not same(True, 1) and not same([1], (1,))
    print("self-test ok")
    return 0
