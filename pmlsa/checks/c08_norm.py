"""Polynomials are handed back, and handed on, normalised."""
import json, os
from .. import norm
from ..api import public
from ..load import Broken
from ..report import Result

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prog, tier):
    res = Result("C08", "typestate over polynomial places: resizing a polynomial or storing into its coefficients makes it raw; normalize(), assignment of a whole polynomial and being the result of another operation make it normal; on every normal exit no result parameter, value or object is raw, and no raw polynomial is an operand of an operation that looks at degrees")
    with open(D + "/norm.json") as g:
        tab = json.load(g)
    with open(D + "/fresh.json") as g:
        fresh = {tuple(x) for x in json.load(g)}
    fs = public(prog)
    known = {f.m for f in fs}
    allow = {(m, s): set(r) for m, s, r in tab["results"]}
    uses = {tuple(x) for x in tab["operands"]}
    roots = {r for v in allow.values() for r in v}
    N, out, failed = norm.findings(prog, fresh, fs)
    for f in prog.funcs.values():
        if f.m not in failed:
            try:
                N.summary(f.m)
            except RecursionError:
                pass
    old = set(tab["funcs"])
    for m, why in failed.items():
        res.unk(prog.funcs[m].sig(), why)
    for (m, s), sites in sorted(out.items(), key=str):
        f = prog.funcs[m]
        name = "its value" if s == "ret" else "the object" if s == "this" else f.ps[s]["n"]
        what = "%s: %s" % (f.sig(), name)
        if not sites:
            res.ok(what)
            continue
        new = {x for x in sites if x[0] not in roots}
        own = {x for x in new if x[0] == m or x[0] not in known}
        if own:
            x = sorted(own)[0]
            g = prog.funcs[x[0]]
            res.bad("%s|%s" % (m, s), "%s:%d" % (g.file, x[1]), "%s is handed back without being normalised: its coefficients are set here%s and no normalize() follows on some path" % (what, "" if x[0] == m else " (in %s)" % g.n))
        else:
            res.unk(what, "not established as normalised (set in %s)" % ", ".join(sorted({prog.funcs[x[0]].n for x in sites})))
    for (m, c), sites in sorted(N.uses.items()):
        f = prog.funcs[m]
        what = "%s: operand of %s" % (f.sig(), prog.fns[c].n)
        new = sorted(x for x in sites if x[0] not in roots and (x[0] == m or x[0] not in known))
        if (m, c) in uses or not new or m not in old:
            res.unk(what, "operand not established as normalised")
            continue
        g = prog.funcs[new[0][0]]
        res.bad("%s|use %s" % (m, c), "%s:%d" % (g.file, new[0][1]), "%s: the polynomial whose coefficients are set here reaches %s without being normalised" % (f.sig(), prog.fns[c].n))
    res.info["polynomial places touched directly"] = len(N.sites)
    if len(out) < 0.8 * tab["n"]:
        raise Broken("only %d of %d results found" % (len(out), tab["n"]))
    res.floor(400)
    return res
