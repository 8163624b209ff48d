#!/opt/venv/bin/python
"""run.py P05 | run.py --replay FILE | run.py --selftest     (env: VERIF_SEED, VERIF_TIER)"""
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
from pvm import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    if sys.argv[1] == "--selftest":
        sys.exit(core.selftest())
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    try:
        rc = core.run_check(sys.argv[1], "thorough" if tier == "thorough" else "quick", seed)
    except core.HarnessError as ex:
        print("HARNESS ERROR:", ex)
        rc = 2
    sys.exit(rc)
