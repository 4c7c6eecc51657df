"""Derives the (function, OUT, IN) triples whose aliasing is supported (run by hand, reviewed)."""
import json, os, sys, re
sys.setrecursionlimit(8000)
from . import load, api, alias
from .absint import *
from .load import walk
from .alias import pairs, inplace_calls
from .report import pmap

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "alias.json")
# headers (and the functions in them) whose documentation says the output may alias an input
DOC = [("lzz_pX_extra.h", "InvTruncMul|shift|add_LeftShift"), ("lzz_pX_middle_product.h", "middle_FFT|middle_product"),
       ("mat_lzz_pX_arith.h", "add|sub|mul|negate|add_LeftShift|operator.*"), ("mat_lzz_pX_inverse.h", ".*inv_trunc.*|high_order_lift_inverse_odd"),
       ("mat_lzz_pX_linsolve.h", "solve_series.*|linsolve_via_series|linsolve_via_kernel"),
       ("mat_lzz_pX_multiply.h", ".*multiply.*|middle_product.*|mul_trunc"),
       ("mat_lzz_pX_utils.h", "transpose|mirror|trunc.*|.*Shift.*|.*reverse.*"), ("vec_lzz_p_extra.h", "inv|inv_naive"),
       ("lzz_pX_CRT.h", "mul_right|mul_left|inv_mul_right|inv_mul_left")]


def identity_test(f):
    for n in walk(f.body):
        if n.get("k") == "bin" and n.get("op") in ("==", "!="):
            if all(isinstance(n.get(x), dict) and n[x].get("k") == "un" and n[x].get("op") == "&" for x in ("x", "y")):
                return True
    return False


def main():
    prog = load.load()
    pub = {f.m for f in api.public(prog)}
    used = inplace_calls(prog)
    cand = []
    names = {}
    hdr = os.path.join(load.REPO, "ntl-extras")
    decl = {}
    for d, _, fs in os.walk(hdr):
        for x in fs:
            for h, pat in DOC:
                if x == h:
                    decl[h] = open(os.path.join(d, x)).read()
    for f in prog.funcs.values():
        if f.m not in pub:
            continue
        for i, j in pairs(f):
            why = None
            for h, pat in DOC:
                if re.fullmatch(pat, f.n) and re.search(r"\b%s\s*\(" % re.escape(f.n), decl[h]) and os.path.basename(h)[:8] in f.file:
                    why = "documented in " + h
            if identity_test(f):
                why = why or "explicit identity test"
            if (f.m, i, j) in used:
                why = why or "used in place inside the library"
            if (f.n, f.ps[i]["n"], f.ps[j]["n"]) == ("add_LeftShift", "c", "b") and f.ps[0]["t"] != "NTL::zz_pX":
                continue    # documented: c may alias a but not b
            if f.n in ("multiply_direct", "multiply_direct_ll_type"):
                continue    # documented: c cannot alias b
            if why:
                cand.append((f, i, j, why))
    cand.sort(key=lambda c: (c[0].file, c[0].line, c[1], c[2]))
    table = {(f.m, i, j) for f, i, j, _ in cand}

    def one(c):
        f, i, j, why = c
        try:
            return alias.verdict(prog, f, i, j, table)
        except Limit:
            return "unknown", "budget"
    res = pmap(one, cand, cost=lambda c: len(str(c[0].body)))
    out = []
    for (f, i, j, why), r in zip(cand, res):
        print(r[0], f.where(), f.sig()[:100], f.ps[i]["n"], "<-", f.ps[j]["n"], "|", why, "|", str(r[1:])[:300] if r[0] != "safe" else "")
        out.append([f.m, i, j, why, r[0]])
    with open(OUT, "w") as g:
        json.dump(out, g, indent=0)
    print(len(out), {k: sum(1 for o in out if o[4] == k) for k in {o[4] for o in out}})


if __name__ == "__main__":
    main()
