"""Pairs of forms of one operation, and the operation each loop-free form stands for."""
from .terms import *

OPN = {"operator+": "add", "operator-": "sub", "operator*": "mul", "operator<<": "LeftShift", "operator>>": "RightShift"}
NEGATIONS = ("neg", "negate")


class Decl:
    """A declared but bodiless (pure virtual) method, as a target of a pair."""

    def __init__(self, m, fn):
        self.m, self.q, self.n, self.ps, self.rt, self.ref, self.cm = m, fn.q, fn.n, fn.ps, fn.rt, fn, fn.cm


def candidates(prog):
    by = {}
    for f in prog.funcs.values():
        by.setdefault(f.q, []).append(f)
    for m, d in prog.decls.items():
        if m not in prog.funcs and m in prog.fns:
            by.setdefault(prog.fns[m].q, []).append(Decl(m, prog.fns[m]))
    return by


def is_out(q, t):
    return q.get("ref") and not q.get("c") and q["t"] == t


def strip_ref(t):
    return t[:-2] if t.endswith(" &") else t


def partner(prog, by, f):
    """The procedural form g(out, args...) of the functional form or operator f(args...)."""
    if f.ctor or f.rt == "void" or f.rt.endswith("*"):
        return None
    head, _, n = f.q.rpartition("::")
    head = head + "::" if head else ""
    names, args, rt = [f.q], [p["t"] for p in f.ps], f.rt
    compound = n.startswith("operator") and n.endswith("=") and n[:-1] in OPN
    if compound:
        if f.cls or not f.ps or not f.ps[0].get("ref"):
            return None
        names, rt = [head + OPN[n[:-1]]], f.ps[0]["t"]
    elif n in OPN:
        names = [head + OPN[n]] if len(f.ps) == 2 else [head + x for x in NEGATIONS]
        if n == "operator*":
            names.append(head + "multiply")
    elif f.rt.endswith("&"):
        return None
    for nn in names:
        c = [g for g in by.get(nn, []) if g.rt == "void" and g.ps and is_out(g.ps[0], rt)
             and [p["t"] for p in g.ps[1:]][:len(args)] == args and all("def" in p or p.get("d") for p in g.ps[1 + len(args):])]
        if c:
            return min(c, key=lambda g: len(g.ps))
    return None


def expected(T, g, f):
    """Term of the result g(out, f's arguments) delivers."""
    prog = T.prog
    if g.m in prog.funcs and not g.ref.virt:
        s = T.single(g.m)
        if s is not None and 0 in s[2]:
            m = {i + 1: ("p", i) for i in range(len(f.ps))}
            m["this"] = ("p", "this")
            m[0] = NEW
            for i in range(len(f.ps) + 1, len(g.ps)):
                m[i] = ANY

            def sub(t):
                if t[0] == "p":
                    return m[t[1]]
                if t[0] == "f":
                    return norm(("f", t[1], tuple(sub(x) for x in t[2])))
                if t[0] == "lin":
                    return lin_subst(t, sub)
                return t
            return sub(s[2][0])
    # opaque: the operation itself on the arguments
    p = Path()
    p.env["out"] = NEW
    for i in range(len(f.ps)):
        p.env[i] = ("p", i)
    e = {"fn": g.m, "a": [{"k": "none"}] * (1 + len(f.ps))}
    lvs = [("&", "out")] + [("p", i) for i in range(len(f.ps))]
    vals = [NEW] + [("p", i) for i in range(len(f.ps))]
    fn = prog.fns[g.m]
    for q in g.ps[1 + len(f.ps):]:
        lvs.append(ANY)
        vals.append(ANY)
        e["a"].append({"k": "none"})
    meth = f.cls is not None
    T.leaf(fn, base(fn.q), None, lvs, vals, ("&", "this") if meth else None, ("p", "this") if meth else None, e, p)
    return p.env["out"]


def results(T, m):
    """{slot: [terms]} delivered by the normal paths of function m."""
    ps = T.paths(m)
    if not ps:
        return None
    out = {}
    for c, ret, outs in ps:
        if ret is not None and ret != ("k", None):
            out.setdefault("ret", []).append(ret)
        for i, t in outs.items():
            out.setdefault(str(i), []).append(t)
    return out
