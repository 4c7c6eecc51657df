"""Products computed by Fourier transforms use enough points."""
import json, os
from ..absint import Limit
from ..bounds import *
from ..bounds import RANK
from ..fft import analyse, members
from ..load import Broken, walk
from ..report import Result, pmap
from ..fft import all_fields

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
USES = ("NTL::TofftRep", "NTL::TofftRep_trunc", "NTL::FromfftRep")
TEXT = {"same": "operands of a pointwise product are transforms on the same points",
        "out": "coefficients taken out exist", "points": "points of the truncated transform",
        "wrap": "product does not wrap around"}


def job(prog, f, T, mem):
    try:
        return analyse(prog, f, T, mem)
    except Limit:
        return None


def uses(prog, f):
    return any(n.get("k") == "call" and n.get("fn") in prog.fns and prog.fns[n["fn"]].q in USES for n in walk(f.body))


def run(prog, tier):
    res = Result("C12", "number of points of every transform, and length of the polynomial behind it, as terms over the arguments; at every pointwise product the operands have the same number of points, and where coefficients lo..hi of a product are recovered, the points are at least hi+1 and what wraps around stays below lo; a failure is reported when the path condition, with all values under the caller's control and polynomials of full length, has an integer point with too few points")
    with open(HERE + "/bounds.json") as g:
        table = json.load(g)
    with open(HERE + "/shapes.json") as g:
        T = Tables(json.load(g), table["inv"], table["pre"])
    mem = {}
    for c in sorted(prog.classes):
        if c.startswith("PML::") and any("fftRep" in t or "Mat<NTL::zz_p>" in t for _, t in all_fields(prog, c)):
            try:
                mem[c] = members(prog, c, T)
            except Exception as e:
                res.unk("members of " + c, repr(e)[:80])
    fs = [f for _, f in sorted(prog.funcs.items()) if f.body is not None and uses(prog, f)]
    if len(fs) < 20:
        raise Broken("only %d functions use transforms" % len(fs))
    for f, r in zip(fs, pmap(lambda f: job(prog, f, T, mem), fs, cost=lambda f: len(str(f.body)))):
        if r is None or isinstance(r, tuple):
            res.unk(f.sig(), "analysis gave up" if r is None else r[1])
            continue
        seen = {}
        for tag, v, info, line, fn in r:
            i = seen[tag, line] = seen.get((tag, line), 0) + 1
            what = "%s: %s (%s:%s%s)" % (f.sig(), TEXT[tag], fn, line, "" if i == 1 else " #%d" % i)
            if v == "proved":
                res.ok(what)
            elif v == "unknown":
                res.unk(what, info)
            else:
                res.bad("%s|%s|%s" % (f.m, tag, fn), f.where(line), "%s%s: %s" % (f.sig(), "" if fn == f.n else " (in %s)" % fn, info))
    res.floor(90)
    res.info["functions"] = len(fs)
    res.info["classes"] = sorted(c for c in mem if mem[c])
    return res
