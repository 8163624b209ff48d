"""Lists the lines of functions in /repo that no check ran: PVM_LINES=DIR on all checks, then `uncovered.py DIR`."""
import collections
import dis
import glob
import json
import sys

seen = collections.defaultdict(set)
for f in glob.glob(sys.argv[1] + "/*.json"):
    for k, v in json.load(open(f)).items():
        seen[k].update(v)


def lines(code, inner=False):
    if inner:
        for _, n in dis.findlinestarts(code):
            if n and n != code.co_firstlineno:
                yield n
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from lines(c, True)


for f in sorted(glob.glob("/repo/pandalone/**/*.py", recursive=True)):
    name = f[len("/repo/"):]
    src = open(f).read()
    miss = sorted(set(lines(compile(src, f, "exec"))) - seen[name])
    if miss:
        print("==", name, len(miss))
        text = src.splitlines()
        for n in miss:
            print("%5d %s" % (n, text[n - 1][:110]))
