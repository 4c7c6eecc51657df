"""Element accesses stay inside their container."""
import json, os
from ..bounds import *
from ..bounds import RANK
from ..absint import Limit
from ..load import Broken
from ..report import Result, pmap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def job(prog, f, T):
    try:
        return analyse(prog, f, T)
    except Limit:
        return None


def run(prog, tier):
    res = Result("C10", "every subscript and every call of a library function met on a path is inside the container's current size (for calls: meets the callee's size requirement); the sizes are those of the symbolic state at that point; a failure is reported when the path condition, with all values under the caller's control, has an integer point where the index is outside")
    with open(HERE + "/bounds.json") as g:
        table = json.load(g)
    with open(HERE + "/shapes.json") as g:
        T = Tables(json.load(g), table["inv"], table["pre"])
    fs = [prog.funcs[m] for m in sorted(table["funcs"]) if m in prog.funcs and prog.funcs[m].body is not None]
    if len(fs) < 0.8 * len([m for m in table["funcs"] if m in prog.funcs or m not in prog.decls]):
        raise Broken("only %d of %d functions found" % (len(fs), len(table["funcs"])))
    n = 0
    for f, r in zip(fs, pmap(lambda f: job(prog, f, T), fs, cost=lambda f: len(str(f.body)))):
        if r is None or isinstance(r, tuple):
            res.unk(f.sig(), "analysis gave up" if r is None else r[1])
            continue
        skip = set(table["funcs"][f.m])
        worst = {}
        for w, tag, v, info, line, fn in r:
            if w not in skip:
                n += 1
                o = worst.setdefault(w, [v, info, line, fn, 0])
                o[4] += 1
                if RANK[v] > RANK[o[0]]:
                    o[:4] = [v, info, line, fn]
        for w, (v, info, line, fn, k) in sorted(worst.items()):
            nm = w
            if w.startswith("call "):
                g = prog.fns.get(w[5:])
                nm = "calls of " + (g.q if g is not None else w[5:])
            what = "%s: %s (%d accesses)" % (f.sig(), nm, k)
            if v == "proved":
                res.ok(what)
            elif v == "unknown":
                res.unk(what, info)
            else:
                res.bad("%s|%s" % (f.m, w), f.where(line), "%s%s: %s" % (f.sig(), "" if fn == f.n else " (in %s)" % fn, info))
    res.floor(1500)
    res.info["functions"] = len(fs)
    res.info["accesses"] = n
    return res
