"""Derives the results that the typestate does not establish as normalised on the reviewed tree
(run by hand; each entry was checked by reading the code and is reported as undecided)."""
import json, os, sys
sys.setrecursionlimit(8000)
from . import load, norm
from .api import public

D = os.path.dirname(os.path.abspath(__file__))


def main():
    prog = load.load()
    with open(D + "/fresh.json") as g:
        fresh = {tuple(x) for x in json.load(g)}
    fs = public(prog)
    N, out, bad = norm.findings(prog, fresh, fs)
    for f in prog.funcs.values():
        N.summary(f.m)
    rows = sorted([m, str(s), sorted({x[0] for x in v})] for (m, s), v in out.items() if v)
    uses = sorted([a, b] for a, b in N.uses)
    with open(D + "/norm.json", "w") as g:
        json.dump({"results": rows, "operands": uses, "funcs": sorted(prog.funcs), "n": len(out)}, g, indent=0)
    print(len(out), "results", len(rows), "raw", len(uses), "operands", len(N.sites), "sites")


main()
