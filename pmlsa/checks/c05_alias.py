"""Outputs may be the same object as an input."""
import json, os
from .. import alias
from ..absint import Limit
from ..load import Broken
from ..report import Result, pmap

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "alias.json")


def run(prog, tier):
    res = Result("C05", "with the output and the input parameter bound to one object, no read through the input (helpers interpreted in place, symbolic regions of the object tracked through loops) meets storage already overwritten through the output")
    with open(TABLE) as g:
        rows = json.load(g)
    table = {(m, i, j) for m, i, j, _, _ in rows}
    todo = [((m, i, j), why) for m, i, j, why, _ in rows if m in prog.funcs and (i, j) in alias.pairs(prog.funcs[m])]
    if len(todo) < 0.8 * len(rows):
        raise Broken("only %d of %d aliasing pairs found" % (len(todo), len(rows)))
    for k, sites in sorted(alias.inplace_calls(prog).items()):
        if k not in table:
            todo.append((k, "used in place at " + sites[0]))

    def one(t):
        (m, i, j), why = t
        try:
            return alias.verdict(prog, prog.funcs[m], i, j, table)
        except Limit:
            return "unknown", "analysis budget exhausted"
    for ((m, i, j), why), r in zip(todo, pmap(one, todo, cost=lambda t: len(str(prog.funcs[t[0][0]].body)))):
        f = prog.funcs[m]
        what = "%s: %s may be %s (%s)" % (f.sig(), f.ps[i]["n"], f.ps[j]["n"], why)
        if r[0] == "safe":
            res.ok(what)
        elif r[0] == "violated":
            res.bad("%s|%d|%d" % (m, i, j), f.where(), "%s: called with %s and %s the same object (%s): %s" % (f.sig(), f.ps[i]["n"], f.ps[j]["n"], why, r[1]))
        else:
            res.unk(what, r[1])
    res.floor(200)
    return res
