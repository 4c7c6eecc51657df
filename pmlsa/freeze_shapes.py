"""Derives the dimensions of the outputs of the public functions on the current tree and
writes shapes.json (run by hand, then reviewed; the check only reads the file)."""
import json, os, re, sys, time
sys.setrecursionlimit(8000)
from . import load, api
from .shapes import *
from .freeze_guards import atoms
from .report import pmap

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shapes.json")


def mentions(t, where):
    return json.dumps(where) in json.dumps(t)


def derive(prog, f, table):
    try:
        ex, enc, outs = execute(prog, f, table, PRE(f))
    except Limit:
        return "limit"
    if not outs:
        return None
    res = []
    for w in outs_of(prog, f):
        ds = [dims_at(ex, o, f, w) for o in outs]
        got = [d for d in ds if d is not None]
        if not got:
            continue
        n = len(got[0])
        terms = []
        for k in range(n):
            cands = {}
            for d in got:
                if d[k] is None:
                    continue
                t = enc.enc(d[k])
                if t is not None:
                    cands.setdefault(json.dumps(t), t)
            # plain terms over the inputs first, the output's own entry size last
            for kk, a in atoms(prog, f):
                if a[0] in ("v", "dim"):
                    cands.setdefault(json.dumps([[1, a], 0]), [[1, a], 0])
            order = sorted(cands.values(), key=lambda t: (w[0] == "p" and mentions(t, w), "opq" in json.dumps(t), len(t), json.dumps(t)))
            best = None
            for t in order:
                l = enc.dec(t)
                if l is None:
                    continue
                if all(d is None or d[k] is None or enc.enc(d[k]) is None or same(o.facts, d[k] - l) for o, d in zip(outs, ds)):
                    if any(d is not None and d[k] is not None and enc.enc(d[k]) is not None and same(o.facts, d[k] - l) for o, d in zip(outs, ds)):
                        best = t
                        break
            terms.append(best)
        if any(t is not None for t in terms):
            res.append([w, terms])
    return res


def confirm(prog, f, table, cand):
    """Keep the terms that hold at every exit when f's own recursive calls obey them."""
    t2 = dict(table)
    t2[f.m] = [x for x in cand]
    try:
        ex, enc, outs = execute(prog, f, t2, PRE(f))
    except Limit:
        return None
    keep = []
    for w, terms in cand:
        ds = [dims_at(ex, o, f, w) for o in outs]
        new = []
        for k, t in enumerate(terms):
            l = enc.dec(t) if t is not None else None
            ok = l is not None and all(d is not None and d[k] is not None and same(o.facts, d[k] - l) for o, d in zip(outs, ds))
            new.append(t if ok else None)
        if any(t is not None for t in new):
            keep.append([w, new])
    return keep or None


def job(prog, f, table):
    c = derive(prog, f, table)
    if c == "limit":
        return None
    while c:
        k = confirm(prog, f, table, c)
        if k == c:
            return c
        c = k
    return None


# Contracts the derivation cannot find by itself, or that the code contradicts (marked "!").
# name pattern, output, dimensions; the first line whose parameters exist applies.
MANUAL = [
    (r"(multiply|multiply_transform|multiply_transform_naive|multiply_evaluate_geometric|mul_trunc)", "c", ["rows(a)", "cols(b)"]),
    (r"(operator\*|mul_trunc)", "ret", ["rows(a)", "cols(b)"]),
    (r"multiply", "c", ["rows(a)"]),            # matrix * vector
    (r"multiply", "c", ["cols(b)"]),            # vector * matrix
    (r"mat_lzz_pX_lmultiplier.*::multiply", "c", ["this.NumRows()", "cols(b)"]),
    (r"mat_lzz_pX_lmultiplier.*::multiply", "ret", ["this.NumRows()", "cols(b)"]),
    (r".*lmultiplier.*::(mat_lzz_pX_lmultiplier.*)", "NumRows", ["rows(a)"]),
    (r".*lmultiplier.*::(mat_lzz_pX_lmultiplier.*)", "NumCols", ["cols(a)"]),
    (r"(plain_|newton_)?inv_trunc.*", "x", ["rows(a)", "rows(a)"]),
    (r"inv_trunc", "ret", ["rows(a)", "rows(a)"]),
    (r"solve_series.*", "u", ["rows(A)", "cols(b)"]),
    (r"solve_series.*", "ret", ["rows(A)", "cols(b)"]),
    (r"pmbasis_generic_2n_n_top_rows", "appbas", ["cols(pmat)", "rows(pmat)"]),
    (r"(approximant_basis|appbas_iterative|popov_appbas_iterative|mbasis.*|popov_mbasis.*|pmbasis.*|popov_pmbasis.*)", "appbas", ["rows(pmat)", "rows(pmat)"]),
    (r"(mbasis|pmbasis).*|popov_pmbasis|approximant_basis|popov_mbasis", "shift", ["len(shift)"]),
    (r"(mirror)", "mvec", ["len(svec)"]),
    (r"(mirror)", "ret", ["len(svec)"]),
    (r".*_lzz_pX?::mul_right(_trunc|_direct)?", "*0", ["this.NumRows()"]),
    (r".*_lzz_pX?::mul_left(_trunc|_direct)?", "*0", ["this.NumCols()"]),
    (r".*_lzz_pX?::mul_right(_trunc|_direct)?", "*0", ["this.NumRows()", "cols(1)"]),
    (r".*_lzz_pX?::mul_left(_trunc|_direct)?", "*0", ["rows(1)", "this.NumCols()"]),
    (r".*_lzz_pX?::mul_right(_trunc|_direct)?", "ret", ["this.NumRows()"]),
    (r".*_lzz_pX?::mul_left(_trunc|_direct)?", "ret", ["this.NumCols()"]),
    (r".*_lzz_pX?::mul_right(_trunc|_direct)?", "ret", ["this.NumRows()", "cols(0)"]),
    (r".*_lzz_pX?::mul_left(_trunc|_direct)?", "ret", ["rows(0)", "this.NumCols()"]),
    (r".*_lzz_pX?::to_dense", "*0", ["this.NumRows()", "this.NumCols()"]),
    (r".*_lzz_pX?::to_dense", "ret", ["this.NumRows()", "this.NumCols()"]),
    (r"(hankel|toeplitz)_like_minus_lzz_pX?::.*", "NumRows", ["rows(U)"]),
    (r"(hankel|toeplitz)_like_minus_lzz_pX?::.*", "NumCols", ["rows(V)"]),
    (r"(hankel|toeplitz)_lzz_pX?_phi_(plus|minus)", "res", ["rows(A)", "cols(A)"]),
    (r"(hankel|toeplitz)_lzz_pX?_phi_(plus|minus)", "ret", ["rows(A)", "cols(A)"]),
    (r"zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric", "!length", ["d"]),
    (r"(mul|mulTrunc)", "!ret", ["max(0,len(S) - len(f.rep) + 1)"]),
    (r"matrix_pade_generic", "den", ["rows(pmat)", "rows(pmat)"]),
    (r"matrix_pade_generic_recursion", "den", ["2*rows(pmat)", "rows(pmat)"]),
    (r"quo_rem", "Q", ["rows(A)", "cols(A)"]),
]


def term(prog, f, s):
    """A term of the mini language, or None if a name is not a parameter of f."""
    s = s.strip()
    m = re.fullmatch(r"(max|min|div)\((.*)\)", s)
    if m:
        d = 0
        for i, ch in enumerate(m[2]):
            d += (ch == "(") - (ch == ")")
            if ch == "," and d == 0:
                a, b = term(prog, f, m[2][:i]), term(prog, f, m[2][i + 1:])
                return None if a is None or b is None else [[1, [m[1], a, b]], 0]
    acc, c = [], 0
    for sg, mu, w in re.findall(r"([+-]?)\s*(?:(\d+)\*)?((?:[\w.]+(?:\([\w.]*\))?))", s):
        k = (-1 if sg == "-" else 1) * int(mu or 1)
        if re.fullmatch(r"\d+", w):
            c += k * int(w)
            continue
        m = re.fullmatch(r"(rows|cols|len)\((\w+)(\.rep)?\)", w)
        if m:
            if m[2].isdigit():
                i = int(m[2])
                i = i if i < len(f.ps) else None
            else:
                i = next((j for j, p in enumerate(f.ps) if p["n"] == m[2]), None)
            if i is None:
                return None
            t = f.ps[i]["t"]
            if m[3] is None and (is_mat(t) != (m[1] != "len") or not is_box(t)):
                return None
            if m[3] and not t.endswith("zz_pXY"):
                return None
            acc.append([k, ["dim", ["p", i] + (["rep"] if m[3] else []), 1 if m[1] == "cols" else 0]])
            continue
        m = re.fullmatch(r"this\.(\w+)\(\)", w)
        if m:
            if not f.cls or method(prog, f.cls, m[1]) is None and declared(prog, f.cls, m[1]) is None:
                return None
            acc.append([k, ["m", m[1]]])
            continue
        i = next((j for j, p in enumerate(f.ps) if p["n"] == w and is_int(p["t"])), None)
        if i is None:
            return None
        acc.append([k, ["v", i]])
    return acc + [c]


def manual(prog, f, w):
    """(dims, forced) prescribed by hand for output w of f."""
    nm = f.ps[w[1]]["n"] if w[0] == "p" else "ret" if w[0] == "ret" else w[1]
    q = f.q.replace("PML::", "").replace("NTL::", "")
    for pat, out, dims in MANUAL:
        force = out.startswith("!")
        o = out.lstrip("!")
        if dims is None or not re.fullmatch(pat, q):
            continue
        if o == nm or o == "*0" and w == ["p", 0]:
            ts = [term(prog, f, d) for d in dims]
            if all(t is not None for t in ts) and (w[0] == "q" or len(ts) == ndims(f.ps[w[1]]["t"] if w[0] == "p" else f.rt)):
                return ts, force
    return None, False


def virtuals(prog):
    """Pure virtual methods with a container output, as functions without body."""
    out = []
    for m, d in sorted(prog.decls.items()):
        if d.get("pure") and m not in prog.funcs:
            f = load.Func(dict(d, body=None, file=d["file"], line=d["line"]), prog.fns[m])
            if outs_of(prog, f):
                out.append(f)
    return out


def complete(prog, f, c):
    """Adds the contracts written by hand; drops outputs the function just passes through."""
    res = []
    for w in outs_of(prog, f):
        ts = next((t for x, t in c or [] if x == w), None)
        n = 1 if w[0] == "q" else ndims(f.ps[w[1]]["t"] if w[0] == "p" else f.rt)
        ts = list(ts) if ts else [None] * n
        m, force = manual(prog, f, w)
        if m:
            ts = [b if a is None or force else a for a, b in zip(ts, m)]
        if w[0] == "p" and f.q.split("::")[-1] in ("mul_right", "mul_left", "mul_right_sigma_UL") and all(t is not None and mentions(t, w) for t in ts):
            continue
        if w[0] == "q" and ts[0] is not None and '"m"' in json.dumps(ts[0]):
            continue
        if any(t is not None for t in ts):
            res.append([w, ts])
    return res or None


def main():
    prog = load.load()
    fs = sorted(api.public(prog), key=lambda f: (f.file, f.line))
    fs = [f for f in fs if outs_of(prog, f)]
    table = {}
    for f in fs:
        c = complete(prog, f, None)
        if c:
            table[f.m] = c
    virt = [f for f in virtuals(prog)]
    for f in virt:
        c = complete(prog, f, None)
        if c:
            table[f.m] = c
    print("by hand", len(table), "functions")
    for rnd in range(6):
        todo = [f for f in fs if not rnd or f.m not in table or any(t is None for w, ts in table[f.m] for t in ts) or len(table[f.m]) < len(outs_of(prog, f))]
        t0 = time.time()
        res = pmap(lambda f: job(prog, f, table), todo, cost=lambda f: len(str(f.body)))
        n = 0
        for f, r in zip(todo, res):
            if isinstance(r, tuple):
                print("ENGINE", f.where(), f.sig(), r[1:])
                continue
            r = complete(prog, f, r)
            if not r:
                table.pop(f.m, None)
            elif table.get(f.m) != r:
                table[f.m] = r
                n += 1
        print("round", rnd, len(todo), "new", n, "%.0fs" % (time.time() - t0), flush=True)
        if not n:
            break
    cnt = 0
    for f in fs + virt:
        c = table.get(f.m)
        print(f.where(), f.sig()[:120])
        for w in outs_of(prog, f):
            ts = next((t for x, t in c or [] if x == w), None)
            nm = f.ps[w[1]]["n"] if w[0] == "p" else w[0] if w[0] == "ret" else w[1]
            print("       ", nm, [show(f, t) if t is not None else "-" for t in ts] if ts else "-")
            cnt += sum(t is not None for t in ts or [])
    with open(OUT, "w") as g:
        json.dump(table, g, indent=0, sort_keys=True)
    print(len(table), "functions", cnt, "dimensions")


if __name__ == "__main__":
    main()
