"""All forms of an operation deliver the same thing on the same arguments."""
import json, os
from .. import forms
from ..load import Broken
from ..report import Result
from ..terms import CTX, Terms, Unsup, diff, show, thaw

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "forms.json")


def fields_of(prog):
    out = set()
    for c in prog.classes.values():
        for x in c.get("fields", []):
            out.add(x["n"])
    return out


def run(prog, tier):
    res = Result("C11", "the value every normal path of a loop-free form delivers is computed as a term over its arguments (single-path library functions expanded, op(c,a,b), c = op(a,b) and c op= b identified); a functional form, operator or compound assignment must equal the procedural form on the same arguments, and any other form or selector must deliver one of the terms of the reviewed table; certainly different operands, order, constants, members or operations are violations")
    with open(TABLE) as g:
        tab = json.load(g)
    T, by, fields = Terms(prog), forms.candidates(prog), fields_of(prog)
    found = 0
    for m, gm in tab["pairs"]:
        if m not in prog.funcs or gm not in prog.fns:
            continue
        found += 1
        f = prog.funcs[m]
        g = prog.funcs[gm] if gm in prog.funcs else forms.Decl(gm, prog.fns[gm])
        CTX[0] = f.ps
        what = "%s ~ %s(out, ...)" % (f.sig(), g.n)
        try:
            want = forms.expected(T, g, f)
            ps = T.paths(m)
        except (Unsup, RecursionError):
            ps = None
        if not ps:
            res.unk(what, "not a straight form")
            continue
        verdicts = []
        for conds, ret, outs in ps:
            got = outs.get(0, ("p", 0)) if f.rt.endswith("&") else ret
            verdicts.append((diff(want, got, fields), got))
        settle(res, f, what, "%s|pair" % m, verdicts, [want])
    for m, row in tab["table"].items():
        if m not in prog.funcs:
            continue
        found += 1
        f = prog.funcs[m]
        CTX[0] = f.ps
        try:
            cur = forms.results(T, m)
        except RecursionError:
            cur = None
        for slot, ts in row.items():
            want = [thaw(t) for t in ts]
            name = "its value" if slot == "ret" else "this" if slot == "this" else f.ps[int(slot)]["n"]
            what = "%s: %s" % (f.sig(), name)
            if cur is None or slot not in cur:
                res.unk(what, "not a straight form")
                continue
            verdicts = []
            for got in cur[slot]:
                ds = [diff(w, got, fields) for w in want]
                # no counterpart: certain only if every reviewed value of the same operation certainly differs
                v = None if None in ds else "?" if "?" in [d for d, w in zip(ds, want) if head(w) == head(got)] else next((d for d, w in zip(ds, want) if d != "?"), "?")
                verdicts.append((v, got))
            settle(res, f, what, "%s|%s" % (m, slot), verdicts, want)
    if found < 0.8 * (len(tab["pairs"]) + len(tab["table"])):
        raise Broken("only %d of %d forms found" % (found, len(tab["pairs"]) + len(tab["table"])))
    res.floor(350)
    return res


def head(t):
    return t[:2] if t[0] == "f" else t[0]


def settle(res, f, what, key, verdicts, want):
    bad = [v for v in verdicts if v[0] not in (None, "?")]
    if bad:
        res.bad(key, f.where(), "%s delivers %s: %s (expected %s)" % (what, show(bad[0][1], f.ps)[:200], bad[0][0], show(want[0], f.ps)[:200]))
    elif any(v[0] == "?" for v in verdicts):
        res.unk(what, "delivers %s, not compared with %s" % (show([v for v in verdicts if v[0]][0][1], f.ps)[:120], show(want[0], f.ps)[:120]))
    else:
        res.ok(what)
