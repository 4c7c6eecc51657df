"""Results have the announced dimensions."""
import json, os
from ..shapes import *
from ..load import Broken
from ..report import Result, pmap

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shapes.json")


def job(prog, f, table):
    try:
        ex, enc, outs = execute(prog, f, table, PRE(f))
    except Limit:
        return None
    res = []
    for w, terms in table[f.m]:
        ds = [dims_at(ex, o, f, w) for o in outs]
        for k, t in enumerate(terms):
            if t is None:
                continue
            want = enc.dec(t)
            v, info = "proved", None
            if want is None or not outs:
                v, info = "unknown", "no exit" if not outs else "term not available"
            else:
                for o, d in zip(outs, ds):
                    if d is None or d[k] is None:
                        v, info = ("unknown", "size not tracked") if v != "violated" else (v, info)
                        continue
                    if same(o.facts, d[k] - want):
                        continue
                    e = enc.enc(d[k])
                    if e is None or "opq" in json.dumps(e):
                        v, info = ("unknown", "size is %s" % d[k]) if v != "violated" else (v, info)
                    else:
                        v, info = "violated", show(f, e)
                        break
            res.append((w, k, t, v, info))
    return res


def run(prog, tier):
    res = Result("C07", "at every normal exit of the function, on every path (helpers interpreted in place, other library functions through their own entry of the table), each dimension of each container result equals the frozen term over the arguments")
    with open(TABLE) as g:
        table = json.load(g)
    fs = [prog.funcs[m] for m in sorted(table) if m in prog.funcs]
    if len(fs) < 0.8 * len([m for m in table if m in prog.funcs or m not in prog.decls]):
        raise Broken("only %d of %d functions found" % (len(fs), len(table)))
    for f, r in zip(fs, pmap(lambda f: job(prog, f, table), fs, cost=lambda f: len(str(f.body)))):
        if r is None or isinstance(r, tuple):
            res.unk(f.sig(), "analysis gave up" if r is None else r[1])
            continue
        for w, k, t, v, info in r:
            nm = f.ps[w[1]]["n"] if w[0] == "p" else "result" if w[0] == "ret" else w[1] + "()"
            dim = "" if w[0] == "q" else (" rows" if k == 0 else " columns") if is_mat(f.ps[w[1]]["t"] if w[0] == "p" else f.rt) else " length"
            what = "%s: %s%s = %s" % (f.sig(), nm, dim, show(f, t))
            if v == "proved":
                res.ok(what)
            elif v == "unknown":
                res.unk(what, info)
            else:
                res.bad("%s|%s|%d|%s" % (f.m, json.dumps(w), k, info.replace(" ", "")), f.where(), "%s: on some path the%s of %s is %s instead of %s" % (f.sig(), dim or " value", nm, info, show(f, t)))
    res.floor(800)
    res.info["functions"] = len(fs)
    return res
