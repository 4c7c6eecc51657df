"""Ill-formed arguments are rejected, well-formed ones are not."""
import json, os
from .. import api
from ..guards import *
from ..load import Broken
from ..report import Result, pmap

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "guards.json")


def job(prog, f, spec):
    out = []
    for c in spec["reject"]:
        v, info = rejects(prog, f, c)
        txt = " and ".join(show(f, t) + " >= 0" for t in c)
        out.append((v, c, txt, info if isinstance(info, str) else None))
    u = None
    if spec["exact"]:
        r = unexplained(prog, f, spec["reject"], spec["other"] > 0)
        u = None if r is None else [(" and ".join(show(f, x) + " >= 0" for x in c) or "(always)", getattr(t, "line", None)) for c, t in r]
    return out, u


def run(prog, tier):
    res = Result("C06", "with each frozen ill-formedness condition assumed at entry, no path of the function (helpers interpreted in place) reaches a normal exit; and every error exit whose path condition is about the arguments alone is covered by one of those conditions")
    with open(TABLE) as g:
        table = json.load(g)
    raisers(prog)
    fs = [prog.funcs[m] for m in sorted(table) if m in prog.funcs]
    if len(fs) < 0.8 * len(table):
        raise Broken("only %d of %d guarded functions found" % (len(fs), len(table)))
    for f, r in zip(fs, pmap(lambda f: job(prog, f, table[f.m]), fs, cost=lambda f: len(str(f.body)))):
        name = f.sig()
        if len(r) == 3:
            res.unk(name, "analysis failed: " + r[1])
            continue
        out, u = r
        for v, c, txt, info in out:
            what = "%s rejects %s" % (name, txt)
            if v == "proved":
                res.ok(what)
            elif v == "unknown":
                res.unk(what, info)
            else:
                res.bad("%s|%s" % (f.m, json.dumps(c)), f.where(), "%s can return normally although %s" % (name, txt))
        if table[f.m]["exact"]:
            what = "%s accepts every other combination" % name
            if u is None:
                res.unk(what, "error exits could not be enumerated")
            elif not u:
                res.ok(what)
            else:
                for txt, line in u:
                    res.bad("%s|extra|%s" % (f.m, txt), f.where(), "%s raises an error for well-formed arguments: %s" % (name, txt))
    res.floor(900)
    res.info["functions"] = len(fs)
    return res
