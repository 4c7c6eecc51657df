"""Derives the rejection conditions of the public functions on the current tree and writes
guards.json (run by hand, then reviewed; the check only reads the file)."""
import json, os, sys, time
sys.setrecursionlimit(8000)
from . import load, api
from .guards import *
from .report import pmap

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "guards.json")


def atoms(prog, f):
    """Portable atoms describing the arguments of f."""
    out = []

    def obj(t, key, where):
        if is_mat(t):
            out.append(("dim", ["dim", where, 0]))
            out.append(("dim", ["dim", where, 1]))
        elif is_vec(t):
            out.append(("dim", ["dim", where, 0]))
        elif t == "NTL::zz_pX":
            out.append(("dim", ["dim", where + ["rep"], 0]))
        elif t in prog.classes:
            for n in ("NumRows", "NumCols", "length"):
                out.append(("dim", key + [n]))
    if f.cls and not f.ref.sm and not f.ctor:
        obj(f.cls, ["m"], ["this"])
    for i, p in enumerate(f.ps):
        if p.get("ref") and not p.get("c"):
            continue
        if is_int(p["t"]) and p["t"] != "bool" and not p.get("ref"):
            out.append(("v", ["v", i]))
        else:
            obj(p["t"], ["mp", i], ["p", i])
    return out


def derive(prog, f):
    t0 = time.time()
    try:
        ex, enc, outs = execute(prog, f)
    except Limit:
        return None
    if not any(o.flow in (None, "ret") for o in outs):
        return None
    cands = {}

    def add(c):
        c = [c] if c and not isinstance(c[0][0], list) else c
        cands.setdefault(json.dumps(c), c)
    ats = [(k, a) for k, a in atoms(prog, f) if enc.dec([[1, a], 0]) is not None]
    for i, (k, a) in enumerate(ats):
        if k == "v":
            add([[[-1, a], -1]])
        for k2, b in ats[:i]:
            for x, y in ((a, b), (b, a)):
                t = [[1, x], [-1, y]]
                t.sort(key=str)
                add([t + [-1]])
    res, other = error_conditions(enc, ex, outs)
    for conj, t in res:
        for c in conj:
            if len(c) > 1:
                add([c])
        if 1 < len(conj) <= 3:
            add(sorted(conj, key=str))
    ok = []
    for k, c in sorted(cands.items(), key=lambda x: (len(x[1]), x[0])):
        if time.time() - t0 > 100:
            break
        ls = [enc.dec(t) for t in c]
        if any(l is None for l in ls):
            continue
        F = Facts()
        for l in ls:
            F = F.add_ge(l)
        if F.unsat():
            continue
        # implied by a condition already kept?
        skip = False
        for o in ok:
            if all(F.implies_ge(enc.dec(t)) for t in o):
                skip = True
        if skip or all(flags_only(f, t) for t in c):
            continue
        if rejects(prog, f, c)[0] == "proved":
            ok.append(c)
    # minimal set
    def implied(c, o):
        F = Facts()
        for t in c:
            F = F.add_ge(enc.dec(t))
        return all(F.implies_ge(enc.dec(t)) for t in o)
    keep = []
    for i, c in enumerate(ok):
        if not any(j != i and implied(c, o) and (j < i or not implied(o, c)) for j, o in enumerate(ok)):
            keep.append(c)
    exact = unexplained(prog, f, keep) == []
    return {"reject": keep, "exact": exact, "other": other}


def main():
    prog = load.load()
    raisers(prog)
    fs = sorted(api.public(prog), key=lambda f: (f.file, f.line))
    res = pmap(lambda f: derive(prog, f), fs, cost=lambda f: len(str(f.body)))
    out, n = {}, 0
    for f, r in zip(fs, res):
        if isinstance(r, tuple):
            print("ENGINE", f.where(), f.sig(), r)
            continue
        if r and (r["reject"] or r["exact"]):
            out[f.m] = r
            n += len(r["reject"])
            if r["reject"] or "-v" in sys.argv:
                print(f.where(), f.sig()[:110], "exact" if r["exact"] else "", "other=%d" % r["other"])
            for c in r["reject"]:
                print("       ", " and ".join(show(f, t) + " >= 0" for t in c))
    with open(OUT, "w") as g:
        json.dump(out, g, indent=0, sort_keys=True)
    print(len(out), "functions", n, "conditions")


if __name__ == "__main__":
    main()
