"""Symbolic array regions: a selector list whose indices are linear terms, with bound
(iteration) variables ranging over half-open intervals."""
from .lin import Lin
from .absint import fresh, _uid
from itertools import count

NO, MAYBE, YES = 0, 1, 2


class Region:
    __slots__ = ("sel", "b", "kind", "node", "note")

    def __init__(self, sel, b=(), kind="content", node=None, note=""):
        self.sel, self.b, self.kind, self.node, self.note = sel, b, kind, node, note

    def key(self):
        return (self.sel, self.b, self.kind)

    def __repr__(self):
        s = "".join("[%s]" % x[1] if x[0] == "i" else "." + x[1] for x in self.sel)
        for a, lo, hi in self.b:
            s += " {%s in [%s,%s)}" % (Lin.atom(a), lo, hi)
        return s + ("" if self.kind == "content" else " " + self.kind)

    def line(self):
        return self.node.get("l") if isinstance(self.node, dict) else None


def atoms_of(x, out=None):
    """All atoms occurring in a Lin, recursively through structural atoms."""
    out = set() if out is None else out
    if isinstance(x, Lin):
        for a in x.d:
            atoms_of(a, out)
    elif isinstance(x, tuple):
        if x and x[0] in ("u", "phi", "it", "v"):
            out.add(x)
            return out
        out.add(x)
        for y in x:
            if isinstance(y, (Lin, tuple)):
                atoms_of(y, out)
    return out


def subst_deep(l, m):
    """Substitute atoms (also inside structural atoms)."""
    if l is None:
        return None
    r = Lin({}, l.c)
    for a, k in l.d.items():
        if a in m:
            r = r + m[a].scale(k)
        else:
            r = r + Lin({subst_atom(a, m): k}, 0)
    return r


def subst_atom(a, m):
    if isinstance(a, tuple) and any(isinstance(x, (Lin, tuple)) for x in a):
        return tuple(subst_deep(x, m) if isinstance(x, Lin) else subst_atom(x, m) if isinstance(x, tuple) else x for x in a)
    return a


def max_uid(l):
    u = 0
    for a in atoms_of(l):
        if isinstance(a, tuple) and len(a) >= 2 and a[0] in ("u", "phi", "it", "nonneg") and isinstance(a[1], int):
            u = max(u, a[1])
    return u


def generalise(reg, loop, mark, lo, hi):
    """Region written by iteration `loop.it`, for some iteration with it in [lo,hi)."""
    m, extra = {}, []
    atoms = set()
    for s in reg.sel:
        if s[0] == "i":
            atoms |= atoms_of(s[1])
    for a, l, h in reg.b:
        for x in (l, h):
            if x is not None:
                atoms |= atoms_of(x)
    bound = {a for a, _, _ in reg.b}
    if loop.it in atoms:
        nb = ("it", next(_uid))
        m[loop.it] = Lin.atom(nb)
        extra.append((nb, lo, hi))
    for a in atoms:
        if a == loop.it or a in bound:
            continue
        if isinstance(a, tuple) and len(a) == 2 and a[0] in ("u", "phi", "it", "nonneg") and isinstance(a[1], int) and a[1] > mark:
            nb = ("it", next(_uid))
            m[a] = Lin.atom(nb)
            extra.append((nb, None, None))
    if not m:
        return reg
    # rename the region's own binders too, so that copies never clash
    for a, _, _ in reg.b:
        m[a] = Lin.atom(("it", next(_uid)))
    sel = tuple((s[0], subst_deep(s[1], m)) if s[0] == "i" else s for s in reg.sel)
    b = tuple((next(iter(m[a].d)), subst_deep(l, m), subst_deep(h, m)) for a, l, h in reg.b)
    return Region(sel, tuple(extra) + b, reg.kind, reg.node, reg.note)


def overlaps(facts, reg, sel):
    """Does region reg meet the storage at selector list sel (prefix-wise)?  NO/MAYBE/YES"""
    binders = {a: (lo, hi) for a, lo, hi in reg.b}
    extra = []
    subst = {}
    res = YES
    for w, r in zip(reg.sel, sel):
        if w[0] != r[0]:
            return NO
        if w[0] == "f":
            if w[1] != r[1]:
                return NO
            continue
        wi = subst_deep(w[1], subst)
        d = r[1] - wi
        free = [a for a in d.d if a in binders and a not in subst]
        if not free:
            inner = [a for a in atoms_of(wi) if a in binders and a not in subst]
            if d.is_const():
                if d.c:
                    return NO
                continue
            if facts.implies_ne(d, extra):
                return NO
            if inner or not facts.implies_eq(d, extra):
                res = MAYBE
            continue
        a = free[0]
        k = d.d[a]
        if len(free) == 1 and abs(k) == 1:
            val = (Lin({x: v for x, v in d.d.items() if x != a}, d.c)).scale(-1 if k > 0 else 1)
            lo, hi = binders[a]
            lo, hi = subst_deep(lo, subst), subst_deep(hi, subst)
            if lo is None or hi is None:
                res = MAYBE
            else:
                c1, c2 = val - lo, hi - val - 1
                if facts.implies_ge(-c1 - 1, extra) or facts.implies_ge(-c2 - 1, extra):
                    return NO
                if not (facts.implies_ge(c1, extra) and facts.implies_ge(c2, extra)):
                    # satisfiable as far as known?
                    if facts.unsat(extra + [c1, c2]):
                        return NO
                    res = MAYBE if res == MAYBE else 3
                    extra = extra + [c1, c2]
            subst[a] = val
        else:
            cons = []
            for b in free:
                lo, hi = binders[b]
                if lo is not None:
                    cons.append(Lin.atom(b) - lo)
                if hi is not None:
                    cons.append(hi - Lin.atom(b) - 1)
            if facts.implies_ne(d, extra + cons):
                return NO
            res = MAYBE
    return res


LIKELY = 3   # every index unifies with a bound variable whose range is not refuted
