"""Integer-linear terms and a small polyhedral abstract domain.

A Lin is sum(coef*atom)+const over hashable atoms.  Facts is a persistent conjunction of
constraints Lin>=0 and Lin!=0 with an entailment test by bounded Fourier-Motzkin
elimination over the constraints connected with the query.  Everything here is sound for
"entailed"; failure to prove means "not known"."""


class Lin:
    __slots__ = ("d", "c", "_h")

    def __init__(self, d=None, c=0):
        self.d = d or {}
        self.c = c
        self._h = None

    @staticmethod
    def const(c):
        return Lin({}, c)

    @staticmethod
    def atom(a):
        return Lin({a: 1}, 0)

    def is_const(self):
        return not self.d

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.d, self.c + o)
        if not o.d:
            return Lin(self.d, self.c + o.c)
        d = dict(self.d)
        for a, k in o.d.items():
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(d, self.c + o.c)

    def __neg__(self):
        return Lin({a: -k for a, k in self.d.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.d, self.c - o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin()
        return Lin({a: v * k for a, v in self.d.items()}, self.c * k)

    def subst(self, m):
        """Replace atoms by Lins."""
        if not any(a in m for a in self.d):
            return self
        r = Lin({}, self.c)
        for a, k in self.d.items():
            r = r + (m[a].scale(k) if a in m else Lin({a: k}, 0))
        return r

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.d.items()), self.c))
        return self._h

    def atoms(self):
        return self.d.keys()

    def __repr__(self):
        s = ""
        for a, k in sorted(self.d.items(), key=lambda x: str(x[0])):
            n = show(a)
            s += (" + " if s and k > 0 else " - " if k < 0 and s else "-" if k < 0 else "") + (n if abs(k) == 1 else "%d*%s" % (abs(k), n))
        if self.c or not s:
            s += (" + %d" % self.c if s and self.c > 0 else " - %d" % -self.c if s else "%d" % self.c)
        return s


def show(a):
    if isinstance(a, tuple):
        if not a:
            return "()"
        if a[0] == "v":
            return str(a[1])
        if a[0] == "dim":
            return "dim%s(%s)" % (a[3], a[1] if not a[2] else "%s%s" % (a[1], "".join("[%s]" % (s[1],) for s in a[2])))
        return "%s(%s)" % (a[0], ",".join(show(x) if isinstance(x, tuple) else str(x) for x in a[1:] if not (isinstance(x, int) and a[0] in ("opq",))))
    return str(a)


def fm_unsat(cons, cap=400):
    """True if the conjunction of (Lin >= 0) is certainly infeasible over the integers
    (rational relaxation plus constant rounding)."""
    cons = {c for c in cons}
    while True:
        for c in cons:
            if not c.d and c.c < 0:
                return True
        cons = {c for c in cons if c.d}
        if not cons:
            return False
        # choose the atom with the fewest pos*neg products
        pos, neg = {}, {}
        for c in cons:
            for a, k in c.d.items():
                (pos if k > 0 else neg).setdefault(a, []).append(c)
        atoms = set(pos) | set(neg)
        one = [a for a in atoms if a not in pos or a not in neg]
        if one:
            drop = set(one)
            cons = {c for c in cons if not any(a in drop for a in c.d)}
            continue
        a = min(atoms, key=lambda x: len(pos[x]) * len(neg[x]))
        if len(pos[a]) * len(neg[a]) > cap:
            return False
        new = {c for c in cons if a not in c.d}
        for p in pos[a]:
            for n in neg[a]:
                kp, kn = p.d[a], -n.d[a]
                r = p.scale(kn) + n.scale(kp)
                if r.d:
                    g = 0
                    for v in r.d.values():
                        g = gcd(g, abs(v))
                    if g > 1:
                        r = Lin({x: v // g for x, v in r.d.items()}, r.c // g)
                elif r.c < 0:
                    return True
                else:
                    continue
                new.add(r)
        if len(new) > cap:
            return False
        cons = new


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


class Facts:
    """Persistent conjunction of constraints."""
    __slots__ = ("ge", "ne", "lost", "alts", "_idx")

    def __init__(self, ge=frozenset(), ne=frozenset(), lost=frozenset(), alts=frozenset()):
        # lost: atoms about which more is known than the constraints say
        # alts: pairs of (constraints, inequations), one of each pair holds
        self.ge, self.ne, self.lost, self.alts = ge, ne, lost, alts
        self._idx = None

    def lose(self, atoms):
        return self if self.lost.issuperset(atoms) else Facts(self.ge, self.ne, self.lost | frozenset(atoms), self.alts)

    def add_ge(self, l):
        """l >= 0"""
        if not l.d and l.c >= 0 or l in self.ge:
            return self
        return Facts(self.ge | {l}, self.ne, self.lost, self.alts)

    def add_eq(self, l):
        if not l.d and l.c == 0:
            return self
        return Facts(self.ge | {l, -l}, self.ne, self.lost, self.alts)

    def add_ne(self, l):
        if l in self.ne or not l.d and l.c:
            return self
        return Facts(self.ge, self.ne | {l, -l}, self.lost, self.alts)

    def relevant(self, atoms, limit=70):
        if self._idx is None:
            ix = {}
            for c in self.ge:
                for a in c.d:
                    ix.setdefault(a, []).append(c)
            self._idx = ix
        seen, out, todo = set(atoms), [], list(atoms)
        got = set()
        while todo and len(out) < limit:
            a = todo.pop(0)
            for c in self._idx.get(a, ()):
                if c in got:
                    continue
                got.add(c)
                out.append(c)
                for b in c.d:
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
        return out, seen

    def implies_ge(self, l, extra=()):
        """Does this entail l >= 0 ?"""
        if not l.d:
            return l.c >= 0
        if l in self.ge:
            return True
        neg = -l - 1
        rel, seen = self.relevant(set(l.d) | {a for e in extra for a in e.d})
        base = rel + [neg] + list(extra)
        base += axioms(seen | set(l.d))
        return fm_unsat(base)

    def implies_eq(self, l, extra=()):
        if not l.d:
            return l.c == 0
        return self.implies_ge(l, extra) and self.implies_ge(-l, extra)

    def implies_ne(self, l, extra=()):
        if not l.d:
            return l.c != 0
        if l in self.ne:
            return True
        return self.implies_ge(l - 1, extra) or self.implies_ge(-l - 1, extra)

    def unsat(self, extra=()):
        """Certainly infeasible together with extra constraints (>=0)."""
        ats = {a for e in extra for a in e.d}
        rel, seen = self.relevant(ats) if ats else (list(self.ge)[:70], {a for c in self.ge for a in c.d})
        base = rel + list(extra) + axioms(seen)
        if fm_unsat(base):
            return True
        mm = sorted((a for a in seen if isinstance(a, tuple) and len(a) == 3 and a[0] in ("min", "max") and isinstance(a[1], Lin) and isinstance(a[2], Lin)), key=repr)[:3]
        if mm and split_unsat(base, mm):
            return True
        for l in self.ne:
            if not l.d and l.c == 0:
                return True
        return False

    def meet_common(self, o):
        return Facts(self.ge & o.ge, self.ne & o.ne, self.lost | o.lost | _atoms((self.ge ^ o.ge) | (self.ne ^ o.ne)))

    def join(self, o):
        """Constraints of either side entailed by the other."""
        if self.ge == o.ge and self.ne == o.ne:
            return self
        keep = set(self.ge & o.ge)
        a, b = self.ge - o.ge, o.ge - self.ge
        if len(a) + len(b) < 60:
            ka = {l for l in a if o.implies_ge(l)}
            kb = {l for l in b if self.implies_ge(l)}
            keep |= ka | kb
            a, b = a - ka, b - kb
        lost = self.lost | o.lost
        alts = self.alts & o.alts
        for ga, xa, gb, xb in self.alts ^ o.alts:
            lost = lost | _atoms(ga | xa | gb | xb)
        na, nb = self.ne - o.ne, o.ne - self.ne
        if (a or na) and (b or nb) and not (not na and not nb and len(a) == len(b) == 1 and next(iter(a)) == -next(iter(b)) - 1):
            if len(alts) < 12:
                alts = alts | {(frozenset(a), frozenset(na), frozenset(b), frozenset(nb))}
            else:
                lost = lost | _atoms(a | b | na | nb)
        return Facts(frozenset(keep), self.ne & o.ne, lost, alts)


def split_unsat(base, mm):
    """Is every choice of which operand each minimum or maximum equals infeasible?"""
    if not mm:
        return fm_unsat(base)
    a = Lin.atom(mm[0])
    for x in mm[0][1:]:
        if not split_unsat(base + axioms(set(x.d)) + [a - x, x - a], mm[1:]):
            return False
    return True


def _atoms(ls):
    return frozenset(x for l in ls for x in l.d)


def rank(a):
    """Nesting of structural atoms: min, max, div, ... of others."""
    if not isinstance(a, tuple) or not a or a[0] not in ("min", "max", "div", "fdiv", "mod", "npot", "pow2", "fftup"):
        return 0
    return 1 + max([rank(x) for l in a[1:] if isinstance(l, Lin) for x in l.d] or [0])


def model(cons, ne=(), cap=400, bias=0):
    """An integer point of the conjunction of (Lin >= 0) and (Lin != 0), or None."""
    cons = set(cons)
    steps = []
    every = {a for c in cons for a in c.d} | {a for c in ne for a in c.d}
    for a in list(every):
        for l in a[1:] if rank(a) else ():
            if isinstance(l, Lin):
                every |= set(l.d)
    todo = set(every)
    while todo:
        r = max(rank(a) for a in todo)
        pos, neg = {}, {}
        for c in cons:
            for a, k in c.d.items():
                (pos if k > 0 else neg).setdefault(a, []).append(c)
        a = min((x for x in todo if rank(x) == r), key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())), str(x)))
        P, N = pos.get(a, []), neg.get(a, [])
        if len(P) * len(N) > cap:
            return None
        steps.append((a, P, N))
        todo.discard(a)
        new = {c for c in cons if a not in c.d}
        for p in P:
            for n in N:
                r_ = p.scale(-n.d[a]) + n.scale(p.d[a])
                if not r_.d:
                    if r_.c < 0:
                        return None
                    continue
                g = 0
                for v in r_.d.values():
                    g = gcd(g, abs(v))
                new.add(Lin({x: v // g for x, v in r_.d.items()}, r_.c // g) if g > 1 else r_)
        if len(new) > cap:
            return None
        cons = new
    if any(c.c < 0 for c in cons if not c.d):
        return None
    m = {}
    val = lambda l: l.c + sum(k * m[a] for a, k in l.d.items())
    for a, P, N in reversed(steps):
        lo = max([-((val_without(p, a, m)) // p.d[a]) for p in P] or [None], key=lambda x: -10 ** 9 if x is None else x)
        hi = min([val_without(n, a, m) // -n.d[a] for n in N] or [None], key=lambda x: 10 ** 9 if x is None else x)
        if lo is not None and hi is not None and lo > hi:
            return None
        if rank(a):
            m[a] = structural(a, val)
            if m[a] is None or lo is not None and m[a] < lo or hi is not None and m[a] > hi:
                return None
            continue
        v = (lo if lo is not None else min(hi, 0) if hi is not None else 0) + bias
        m[a] = v if hi is None or v <= hi else hi
    if any(val(l) == 0 for l in ne):
        return None
    return m


POOL = [0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100, 129, 300, 1000]


def sample(cons, ne=(), tries=400):
    """An integer point found among pseudo-random small values; None if none was met."""
    import random
    rnd = random.Random(1)
    cons = set(cons)
    every = set()

    def need(l):
        for a in l.d:
            if a not in every:
                every.add(a)
                for x in a[1:] if rank(a) else ():
                    if isinstance(x, Lin):
                        need(x)
    for c in list(cons) + list(ne):
        need(c)
    # equalities with a unit coefficient define an atom by the others
    defs = {}
    for c in sorted(cons, key=str):
        if -c in cons:
            for a in sorted(c.d, key=str):
                if abs(c.d[a]) == 1 and not rank(a) and a not in defs and not any(a in d.d for d in defs.values()) and not any(x in defs for x in c.d):
                    defs[a] = Lin({x: -k * c.d[a] for x, k in c.d.items() if x != a}, -c.c * c.d[a])
                    break
    order = sorted(every, key=lambda a: (rank(a), a in defs, str(a)))
    cons = list(cons)
    for n in range(tries):
        m = {}

        def val(l):
            return l.c + sum(k * get(a) for a, k in l.d.items())

        def get(a):
            if a not in m:
                m[a] = val(defs[a]) if a in defs else structural(a, val) if rank(a) else rnd.choice(POOL[:6 + n % 15])
                if m[a] is None:
                    raise ValueError
            return m[a]
        try:
            for a in order:
                get(a)
            # move single bounds to their limit
            for c in cons:
                v = val(c)
                if v < 0:
                    k = next((a for a in sorted(c.d, key=str) if abs(c.d[a]) == 1 and not rank(a) and a not in defs), None)
                    if k is not None:
                        m[k] -= v * c.d[k]
                        for a in order:
                            if rank(a) or a in defs:
                                m.pop(a, None)
            if all(val(c) >= 0 for c in cons) and all(val(l) != 0 for l in ne):
                return m
        except (ValueError, RecursionError):
            pass
    return None


def val_without(l, a, m):
    return l.c + sum(k * m[x] for x, k in l.d.items() if x != a)


def fft_round(n, k, rdup=4):
    """NTL's FFTRoundUp."""
    full, n = 1 << k, max(n, 1)
    n = ((n + (1 << rdup) - 1) >> rdup) << rdup
    return full if n > full - (full >> (4 if k >= 10 else 3)) else n


def structural(a, val):
    xs = [val(l) for l in a[1:] if isinstance(l, Lin)]
    if a[0] == "min":
        return min(xs)
    if a[0] == "max":
        return max(xs)
    if a[0] == "npot":
        return (xs[0] - 1).bit_length() if xs[0] > 1 else 0
    if a[0] == "pow2":
        return 1 << xs[0] if 0 <= xs[0] < 40 else None
    if a[0] == "fftup":
        return fft_round(xs[0], xs[1]) if 0 <= xs[1] < 40 else None
    if len(xs) != 2 or xs[1] == 0:
        return None
    if a[0] == "fdiv":
        return xs[0] // xs[1]
    if xs[1] < 0 or xs[0] < 0:
        return None
    return xs[0] // xs[1] if a[0] == "div" else xs[0] % xs[1]


def pow2(k):
    """2^k as a linear term."""
    if k.is_const() and 0 <= k.c < 60:
        return Lin.const(1 << k.c)
    if not k.is_const() and 0 < k.c < 60:
        return Lin.atom(("pow2", k - k.c)).scale(1 << k.c)
    return Lin.atom(("pow2", k))


def axioms(atoms, depth=0):
    """Built-in facts about structural atoms."""
    out, extra = [], set()
    for a in atoms:
        if not isinstance(a, tuple):
            continue
        k = a[0]
        A = Lin.atom(a)
        if k in ("dim", "nonneg"):
            out.append(A)
        elif k == "min":
            for x in a[1:]:
                out.append(x - A)
                extra |= set(x.d)
        elif k == "max":
            for x in a[1:]:
                out.append(A - x)
                extra |= set(x.d)
        elif k == "div" and a[2].is_const() and a[2].c > 0:
            # truncation toward zero: |x - c*q| <= c-1
            c = a[2].c
            out.append(a[1] - A.scale(c) + (c - 1))
            out.append(A.scale(c) - a[1] + (c - 1))
            extra |= set(a[1].d)
        elif k == "fdiv" and a[2].is_const() and a[2].c > 0:
            # floor division, argument known nonnegative
            c = a[2].c
            out.append(a[1] - A.scale(c))
            out.append(A.scale(c) - a[1] + (c - 1))
            extra |= set(a[1].d)
        elif k == "deg":
            out.append(A + 1)
            for b in atoms:
                if isinstance(b, tuple) and b and b[0] == "dim" and b[1] == a[1] and b[4] == a[4] and b[2][:len(a[2])] == a[2] and len(b[2]) > len(a[2]) and b[2][-1] == ("f", "rep"):
                    out.append(A + 1 - Lin.atom(b))
        elif k == "modulus":
            out.append(A - 2)
        elif k == "mod" and a[2].is_const() and a[2].c > 0:
            c = a[2].c
            out.append(-A + (c - 1))
            out.append(A + (c - 1))
        elif k == "npot":
            # 2^npot(x) >= x, npot >= 0
            out.append(A)
            out.append(Lin.atom(("pow2", A)) - a[1])
            extra |= set(a[1].d) | {("pow2", A)}
        elif k == "pow2":
            out.append(A - 1)
            x = a[1]
            if len(x.d) == 1 and x.c == 0:
                b, n = next(iter(x.d.items()))
                if n == 1 and isinstance(b, tuple) and b and b[0] == "npot":
                    out.append(A - b[1])
                    extra |= set(b[1].d)
        elif k == "fftup":
            out.append(A - 1)
            out.append(pow2(a[2]) - A)
            extra |= set(pow2(a[2]).d)
    extra -= set(atoms)
    if extra and depth < 4:
        out += axioms(extra, depth + 1)
    return out
