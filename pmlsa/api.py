"""The public functions confirmed on the tree this framework was written for (frozen.json),
and small shared queries over the program."""
import json, os
from .load import Broken, walk

_F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "frozen.json")


def frozen():
    with open(_F) as f:
        return json.load(f)


def public(prog):
    """Frozen public functions that still have a body, as Func objects."""
    names = frozen()["api"]
    out = [prog.funcs[m] for m in names if m in prog.funcs]
    if len(out) < 0.8 * len(names):
        raise Broken("only %d of %d public functions found" % (len(out), len(names)))
    return out


def callees(prog, func):
    """Mangled names possibly called by func (virtual calls: every overrider; lambdas included)."""
    s = set()
    for n in walk([func.body, func.inits]):
        m = n.get("fn")
        if m:
            s.add(m)
            s |= prog.overriders(m)
    return s


def call_graph(prog):
    if not hasattr(prog, "_cg"):
        prog._cg = {f.m: callees(prog, f) for f in prog.funcs.values()}
    return prog._cg


def reach_back(prog, seeds):
    """Functions from which some seed is reachable -> next hop towards it."""
    cg = call_graph(prog)
    rev = {}
    for m, s in cg.items():
        for x in s:
            rev.setdefault(x, set()).add(m)
    nxt, todo = {}, list(seeds)
    seen = set(seeds)
    while todo:
        x = todo.pop(0)
        for c in sorted(rev.get(x, ())):
            if c not in seen:
                seen.add(c)
                nxt[c] = x
                todo.append(c)
    return seen, nxt


def path_to(prog, m, nxt):
    out = [m]
    while m in nxt:
        m = nxt[m]
        out.append(m)
    return " -> ".join(prog.funcs[x].sig() if x in prog.funcs else prog.fns[x].q if x in prog.fns else x for x in out)
