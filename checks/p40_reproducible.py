"""P40: the outcome of a call depends on nothing but its inputs."""
import json
import os
import subprocess
import sys
import tempfile

from pvm import core

RULE = ("the same calls (model merges and their errors, validations, path-mappings and steps, components, lassoes, parsing, schema paths, codec, helpers) in four processes "
        "of other hash seeds: in order, backwards, shuffled and repeated, and from six threads at once; all outcomes compared as text keeping every order; non-trivial = distinct outcomes")
FLOORS = {"back": 1600, "c_codec": 180, "c_component": 180, "c_lasso": 180, "c_mapping": 180, "c_merge": 180, "c_parse": 180, "c_paths": 180, "c_utils": 180, "c_validate": 180, "failure": 120, "mix": 3300, "process": 43, "threads": 3300}
ORDERS = ["back", "mix", "threads"]
CALLS = 153
CHILD = os.path.join(core.VERIF, "pvm", "hashchild.py")


def run_child(seed, i, order, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    with tempfile.TemporaryFile() as err:
        p = subprocess.run([sys.executable, CHILD, str(seed), str(i * CALLS), str(CALLS), order], env=env,
                           stdout=subprocess.PIPE, stderr=err, timeout=240, cwd="/")
        if p.returncode:
            err.seek(0, 2)
            err.seek(max(0, err.tell() - 2000))
            raise core.HarnessError("child %s of batch %s: rc %s: %s" % (order, i, p.returncode, err.read().decode("utf8", "replace")))
    return json.loads(p.stdout)


def differ(a, b):
    """The surroundings of the first difference."""
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r, the other time %r" % (a[max(0, k - 120):k + 200], b[max(0, k - 120):k + 200])


def w_batch(rng, mon, i):
    mon.note("calls from", i * CALLS)
    base = run_child(mon.seed, i, "fwd", 0)
    mon.ev("process")
    for order in ORDERS:
        seed = rng.randrange(1, 2 ** 32)
        outs = run_child(mon.seed, i, order, seed)
        mon.ev("process")
        mon.check(len(outs) == len(base), "fewer outcomes")
        for n, (exp, gots) in enumerate(zip(base, outs)):
            for k, got in enumerate(gots):
                mon.ev(order)
                if got != exp[0]:
                    mon.note("call", i * CALLS + n, exp[0][0], "with hash seed", seed, "and order", order)
                    mon.fail("another outcome in another process: " + differ(exp[0][1], got[1]))
    for (name, out), in base:
        mon.ev(name)
        mon.key(name, out)
        if out.startswith(("ValueError", "SyntaxError")):
            mon.ev("failure")


WORKLOADS = [("batch", w_batch, 24, 400)]
