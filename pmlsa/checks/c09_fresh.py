"""Results do not depend on the previous content of the result object."""
import json, os
from .. import fresh
from ..absint import Limit
from ..load import Broken
from ..report import Result, pmap

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fresh.json")


def run(prog, tier):
    res = Result("C09", "with the result object in an unknown initial state, no path reads a part of it that the path cannot have stored (other than its dimensions) and no normal exit leaves an element of it unstored; helpers interpreted in place, other library functions through their own entry of the table, written regions tracked symbolically through loops")
    with open(TABLE) as g:
        rows = [tuple(x) for x in json.load(g)]
    table = set(rows)
    todo = [(m, i) for m, i in rows if m in prog.funcs and i in fresh.outputs(prog.funcs[m])]
    if len(todo) < 0.8 * len(rows):
        raise Broken("only %d of %d result parameters found" % (len(todo), len(rows)))

    def one(t):
        try:
            return fresh.analyse(prog, prog.funcs[t[0]], t[1], table)
        except Limit:
            return "unknown", "analysis budget exhausted"
    for (m, i), r in zip(todo, pmap(one, todo, cost=lambda t: len(str(prog.funcs[t[0]].body)))):
        f = prog.funcs[m]
        what = "%s: result %s" % (f.sig(), f.ps[i]["n"])
        if r[0] == "fresh":
            res.ok(what)
        elif r[0] == "stale":
            res.bad("%s|%d" % (m, i), f.where(), "%s: %s" % (what, r[1]))
        else:
            res.unk(what, r[1])
    res.floor(440)
    return res
