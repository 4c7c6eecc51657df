#!/usr/bin/env python3
"""check.py <property-id>: decides one property on /repo's current sources."""
import importlib, os, sys
if os.environ.get("PYTHONHASHSEED") != "0":     # same set order on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(8000)
from pmlsa import load, report

CHECKS = {}
for fn in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pmlsa", "checks"))):
    if fn[0] == "c" and fn.endswith(".py"):
        CHECKS[fn[:-3].split("_")[0].upper()] = "pmlsa.checks." + fn[:-3]


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if ids == ["all"]:
        ids = sorted(CHECKS)
    rc = 0
    try:
        prog = load.load()
        for p in ids:
            mod = importlib.import_module(CHECKS[p])
            res = mod.run(prog, tier)
            rc = max(rc, report.finish(res, tier, getattr(mod, "LEVEL", "other")))
    except load.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
