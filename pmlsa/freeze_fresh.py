"""Derives the (function, output parameter) pairs whose previous content must not matter
(run by hand, reviewed)."""
import json, os, sys
sys.setrecursionlimit(8000)
from . import load
from .absint import *
from .report import pmap
from . import fresh as F

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.json")


def job(prog, f, i, table):
    try:
        return F.analyse(prog, f, i, table)
    except Limit:
        return "unknown", "budget"


def main():
    prog = load.load()
    cand = [(f, i) for f in prog.funcs.values() for i in F.outputs(f)]
    cand.sort(key=lambda c: (c[0].file, c[0].line, c[1]))
    table = {(f.m, i) for f, i in cand}
    res = {}
    todo = cand
    for rnd in range(8):
        for (f, i), r in zip(todo, pmap(lambda c: job(prog, c[0], c[1], table), todo, cost=lambda c: len(str(c[0].body)))):
            res[(f.m, i)] = r if len(r) == 2 else ("unknown", "failed: " + r[1])
        gone = {k for k, r in res.items() if r[0] == "stale"} & table
        if not gone:
            break
        table -= gone
        todo = [(f, i) for f, i in cand if res[(f.m, i)][0] != "stale"]
    n = {}
    for f, i in cand:
        v, info = res[(f.m, i)]
        n[v] = n.get(v, 0) + 1
        print(v, f.sig(), f.ps[i]["n"], f.where(), "|", info or "")
    print(n)
    # parameters updated in place although the analysis cannot tell, and operations without a body
    table = {(f.m, i) for f, i in cand if (f.m, i) in table and not (f.n in ("SetCoeff", "clear") or f.ps[i]["n"] in ("shift", "seq", "evals"))
             or f.n in ("mul_right", "mul_left", "mul_right_sigma_UL", "generate_right_seq") and res[(f.m, i)][0] == "stale"}
    json.dump(sorted([f.m, i] for f, i in cand if (f.m, i) in table), open(OUT, "w"), indent=0)


if __name__ == "__main__":
    main()
