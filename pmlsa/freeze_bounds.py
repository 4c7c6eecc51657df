"""Derives class invariants, size requirements and the containers whose accesses are judged
(run by hand, reviewed)."""
import json, os, sys
sys.setrecursionlimit(8000)
from . import load, bounds as B
from .absint import *
from .shapes import is_box, ndims
from .report import pmap

HERE = os.path.dirname(os.path.abspath(__file__))


def consistent(prog, f, T, terms):
    """Can the requirements hold for arguments that are not tiny?"""
    T2 = B.Tables(T.shapes, T.inv, {f.m: terms})

    class Stop(Exception):
        pass

    old = B.BoundsDom

    class D(old):
        def event(self, ex, st, kind, node, **kw):
            old.event(self, ex, st, kind, node, **kw)
            if kind == "entry":
                big = []
                for p in f.ps:
                    l = st.env.get(p["id"])
                    if isinstance(l, Loc) and is_box(l.t):
                        big += [ex.dim(st, l, k) - 4 for k in range(ndims(l.t))]
                raise Stop(not st.facts.unsat(big) and not st.facts.unsat())
    B.BoundsDom = D
    try:
        B.start(prog, f, T2, B.PRE(f), B.Sink(), 2, 1000)
    except Stop as s:
        return s.args[0]
    finally:
        B.BoundsDom = old
    return False


def bad(rows):
    return {(w, t) for w, t, v, *_ in rows if v == "violated"}


def weight(c):
    """Relations between two sizes first, then requirements on one."""
    n = len(c) - 1
    return (0 if n == 2 else 1 if n > 2 else 2, json.dumps(c).count("div"), len(json.dumps(c)))


def infer(prog, f, T):
    pre = []
    run = lambda p: B.analyse(prog, f, B.Tables(T.shapes, T.inv, {**T.pre, f.m: p}), want=True)
    try:
        rows, cand, ex = run(pre)
        for rnd in range(25):
            cand = sorted((c for c in cand if c not in pre), key=weight)
            got = None
            for c in cand:
                if consistent(prog, f, T, pre + [c]):
                    got = c
                    break
                # the requirement cannot be met: try the next one
            if got is None:
                break
            pre = pre + [got]
            rows, cand, ex = run(pre)
        # drop what is not needed
        want = bad(rows)
        for c in list(pre):
            p = [x for x in pre if x != c]
            r = run(p)[0]
            if bad(r) <= want:
                pre, rows = p, r
    except Limit:
        return None
    return pre, [(w, t, v, i) for w, t, v, i, l, n in rows]


def main():
    prog = load.load()
    shapes = json.load(open(HERE + "/shapes.json"))
    inv = B.invariants(prog, shapes)
    T = B.Tables(shapes, inv)
    fs = sorted((f for f in prog.funcs.values() if f.body is not None), key=lambda f: (f.file, f.line))
    for rnd in range(7):
        res = pmap(lambda f: infer(prog, f, T), fs, cost=lambda f: len(str(f.body)))
        pre = {f.m: r[0] for f, r in zip(fs, res) if r and len(r) == 2 and r[0]}
        if pre == T.pre:
            break
        print("round", rnd, sum(map(len, pre.values())), len([m for m in set(pre) | set(T.pre) if pre.get(m) != T.pre.get(m)]))
        T = B.Tables(shapes, inv, pre)
    pre = T.pre

    def last(f):
        try:
            return pre.get(f.m, []), [(w, t, v, i) for w, t, v, i, l, n in B.analyse(prog, f, T)]
        except Limit:
            return None
    res = pmap(last, fs, cost=lambda f: len(str(f.body)))
    funcs, n = {}, {}
    for f, r in zip(fs, res):
        if not r or len(r) != 2:
            print("skip", f.sig(), r and r[1])
            continue
        worst = {}
        for w, t, v, i in r[1]:
            n[v] = n.get(v, 0) + 1
            if v != "proved":
                print(v, f.sig(), f.where(), w, "|", i)
            worst[w] = max(worst.get(w, 0), B.RANK[v])
        if r[1]:
            funcs[f.m] = sorted(w for w, k in worst.items() if k == 2)
    print(n, len(funcs), sum(map(len, pre.values())))
    json.dump({"inv": inv, "pre": T.pre, "funcs": funcs}, open(HERE + "/bounds.json", "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    main()
