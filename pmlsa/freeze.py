"""Writes frozen.json: run once by hand on the confirmed tree (never by a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pmlsa import load, api
from pmlsa.load import walk


def main():
    p = load.load()
    hdr = {m for m, d in p.decls.items() if d.get("file", "").endswith(".h")}
    A = [f for f in p.funcs.values() if f.m in hdr or f.file.endswith(".h")]
    d = {"api": sorted(f.m for f in A)}
    d["const_sigs"] = sorted([fn.cls, fn.n, [q["t"] for q in fn.ps]] for fn in p.fns.values() if fn.repo and fn.cm and fn.cls)
    from pmlsa.effects import users
    d["effects"] = {}
    for k in ("random", "clock", "io"):
        r, _ = api.reach_back(p, users(p, k))
        d["effects"][k] = sorted(f.m for f in A if f.m in r)
        print(k, len(d["effects"][k]))
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "frozen.json"), "w") as f:
        json.dump(d, f, indent=0)
    print(len(p.funcs), len(A), len(d["const_sigs"]))


main()
