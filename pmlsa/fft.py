"""Transforms have enough points.

Every transform object (NTL::fftRep, alone or in a container) is followed along the paths of a
function: the exponent k of its size, its number of points, and the length of the polynomial it
stands for.  A product point by point adds lengths, a sum takes the larger.  Where coefficients
lo..hi are taken back out, none of them may lie beyond the last point while the polynomial does
("out"), and the part of a longer polynomial that wraps around must end below lo ("wrap"); a
truncated transform must have a point for each coefficient ("points"); transforms combined with
one another must have the same size ("same").

Members carry over from the constructors: their values there, rewritten over the integer members."""
from .bounds import *
from .bounds import BoundsDom, Sink, Tables, all_fields, start
from .absint import *
from . import lin
from .lin import Facts, pow2
from .load import walk

REP = "NTL::fftRep"
PX = "NTL::zz_pX"


class Rep:
    """k: exponent, pts: points (2^k, or fewer when truncated), len: bound on the length,
    exact: some input attains the bound, srcs: the transformed operands it was computed from."""
    __slots__ = ("k", "pts", "len", "exact", "prod")

    def __init__(self, k=None, pts=None, len=None, exact=False, prod=False):
        self.k, self.pts, self.len, self.exact, self.prod = k, pts, len, exact, prod

    def tup(self):
        return (self.k, self.pts, self.len, self.exact, self.prod)

    def __eq__(self, o):
        return isinstance(o, Rep) and self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())

    def meet(self, o):
        if self == o:
            return self
        return Rep(self.k if self.k == o.k else None, self.pts if self.pts == o.pts else None,
                   self.len if self.len == o.len else None, self.exact and o.exact, self.prod or o.prod)

    def either(self, o):
        """One or the other."""
        if self == o or self.k != o.k:
            return self.meet(o)
        r = self.meet(o)
        if r.len is None:
            r.len, r.exact = most(self.len, o.len), False
        if r.pts is None:
            r.pts = least(None, self.pts, o.pts)
        return r

    def sized(self):
        """Of known size, holding nothing yet."""
        return self.len is None and not self.prod and self.k is not None and self.pts == pow2(self.k)

    def over(self, o):
        """Value after a loop that stores self over o; the loop is taken to run."""
        return self if o is None or o.sized() and self.k == o.k else o.meet(self)

    def __repr__(self):
        return "Rep(k=%s,pts=%s,len=%s%s%s)" % (self.k, self.pts, self.len, "!" if self.exact else "", "*" if self.prod else "")


def key(loc):
    return (loc.root.id, tuple(s if s[0] == "f" else ("i",) for s in loc.sel))


def is_rep(t):
    return isinstance(t, str) and t.replace("const ", "").strip(" &") == REP


class FFTDom(BoundsDom):
    def __init__(self, T, pre, sink):
        BoundsDom.__init__(self, T, pre, sink)
        self.reps = {}      # place -> Rep
        self.caps = {}      # normalised polynomial place -> [bound on its length, is it attained]
        self.capl = {}      # its place
        self.tops = {}      # coefficient place -> set of largest indices stored to
        self.built = {}     # polynomial built by SetCoeff alone -> (indices possibly, certainly set)
        self.pending = None
        self.keyed = {}     # table of transforms -> (fields holding the size each is for, transform in terms of it)
        self.first = {}     # table -> the size for which the constructors prepare
        self.only = {}      # value looked up -> what it is when the table holds nothing else
        self.srcs = {}      # operand (root id or member) -> Rep of its transform

    def copy(self):
        d = FFTDom(self.T, self.pre, self.sink)
        d.enc = self.enc
        d.reps, d.caps, d.srcs = dict(self.reps), dict(self.caps), dict(self.srcs)
        d.keyed, d.first, d.only = self.keyed, self.first, dict(self.only)
        d.built, d.capl = dict(self.built), self.capl
        d.tops = {k: set(v) for k, v in self.tops.items()}
        return d

    def same(self, o):
        return self.reps == o.reps and self.srcs == o.srcs and self.caps == o.caps and self.tops == o.tops and self.built == o.built

    def join(self, o, ex):
        d = self.copy()
        for k in set(self.reps) | set(o.reps):
            a, b = self.reps.get(k), o.reps.get(k)
            d.reps[k] = a.either(b) if a and b else a or b       # not set on one side
        for k in set(self.srcs) | set(o.srcs):
            a, b = self.srcs.get(k), o.srcs.get(k)
            d.srcs[k] = a.meet(b) if a and b else a or b
        d.caps = {k: v for k, v in self.caps.items() if o.caps.get(k) == v}
        for a, b in ((self, o), (o, self)):
            for k, v in a.caps.items():
                if k not in b.caps and b.built.get(k) == (frozenset(), frozenset()):
                    d.caps[k] = [v[0], False]       # zero on one side
        d.tops = {k: v & o.tops[k] for k, v in self.tops.items() if k in o.tops}
        d.built = {k: both(v, o.built[k]) for k, v in self.built.items() if k in o.built}
        return d

    # ------------------------------------------------------------ loops
    def loop_begin(self, ex, st, loop, ends, entry):
        for e in ends:
            if e.flow in ("ret", "throw"):
                continue
            d = e.dom
            for k, v in d.reps.items():
                a = self.reps.get(k)
                if a is not None and a != v:
                    self.reps[k] = v.over(a)
            for k in list(self.built):
                if k in d.built:
                    self.built[k] = (self.built[k][0] | d.built[k][0], self.built[k][1])
                else:
                    del self.built[k]
            for k in list(self.caps):
                if d.caps.get(k) != self.caps[k]:
                    del self.caps[k]

    def loop_end(self, ex, entry, ends, loop, is_do):
        d = entry.dom.copy()
        mark = loop.it
        free = lambda l: l is None or not mentions(l, mark)
        for n, e in enumerate(ends):
            for k, v in e.dom.reps.items():
                v = Rep(v.k if free(v.k) else None, v.pts if free(v.pts) else None, v.len if free(v.len) else None, v.exact, v.prod)
                d.reps[k] = v.over(d.reps.get(k))
            for k, v in e.dom.srcs.items():
                a = d.srcs.get(k)
                d.srcs[k] = v if a is None else a.meet(v)
            for k, v in e.dom.tops.items():
                d.tops.setdefault(k, set()).update(v)
            for k in list(d.built):
                if k in e.dom.built:
                    d.built[k] = (d.built[k][0] | e.dom.built[k][0], d.built[k][1] | e.dom.built[k][1])
                else:
                    del d.built[k]
            for k in list(d.caps):
                if e.dom.caps.get(k) != d.caps[k]:
                    del d.caps[k]
        return d

    # ------------------------------------------------------------ effects
    def event(self, ex, st, kind, node, **kw):
        BoundsDom.event(self, ex, st, kind, node, **kw)
        if kind == "construct" and is_rep(kw["loc"].t):
            vals = [v for v in kw["args"] if isinstance(v, Lin)]
            if vals:
                st.dom.reps[key(kw["loc"])] = Rep(vals[-1], pow2(vals[-1]))
        elif kind == "construct" and kw["loc"].t == PX and not [v for v in kw["args"] if not isinstance(v, Lin)] and len(kw["args"]) != 1:
            st.dom.built[key(kw["loc"])] = (frozenset(), frozenset())
        elif kind == "inits" and ex.this is not None:
            given = {i.get("f") for i in ex.frame.inits if (i.get("e") or {}).get("a") or (i.get("e") or {}).get("k") != "ctor"}
            for k in [k for k, v in st.dom.reps.items() if v == Rep()]:
                del st.dom.reps[k]
            if not any(i.get("delegate") for i in ex.frame.inits):
                for n, t in all_fields(ex.prog, ex.this.t):
                    if t == PX and n not in given:
                        st.dom.built[key(ex.this.field(n, t))] = (frozenset(), frozenset())
        elif kind == "setcoeff" and kw["loc"].t == PX:
            k = key(kw["loc"])
            if k in st.dom.built and not ("i",) in k[1]:
                i = extreme(ex, kw["index"])
                if i is None:
                    del st.dom.built[k]
                else:
                    st.dom.pending = node
                    v = {i}
                    m, c = st.dom.built[k]
                    st.dom.built[k] = (m | v, c | (set() if len(node["a"]) > 2 and zero(node["a"][2]) else v))
        elif kind == "copyctor" and is_rep(kw["dst"].t):
            st.dom.reps[key(kw["dst"])] = self.rep(kw["src"]) or Rep()
        elif kind == "normalize" and kw["loc"].t == PX:
            loc = kw["loc"]
            n = ex.dim(st, loc.field("rep", "NTL::Vec<NTL::zz_p>"), 0)
            top = any(st.facts.implies_ge(t + 1 - n) for t in self.tops.get(key(loc), ()))
            st.dom.caps[key(loc)] = [n, top]
            st.dom.capl[key(loc)] = loc

    def write(self, ex, st, loc, node, how, src=None):
        BoundsDom.write(self, ex, st, loc, node, how, src)
        d = st.dom
        if is_rep(loc.t):
            s = self.rep(src) if isinstance(src, Loc) and is_rep(src.t) else None
            d.reps[key(loc)] = s or Rep()
        k = key(loc)
        if d.pending is node:
            d.pending = None
        else:
            for x in [x for x in d.built if x[0] == k[0] and (x[1][:len(k[1])] == k[1] or k[1][:len(x[1])] == x[1])]:
                del d.built[x]
            if loc.t == PX and how == "assign" and node.get("k") == "call" and ex.prog.fns.get(node.get("fn")) is not None and ex.prog.fns[node["fn"]].q == "NTL::clear":
                d.built[k] = (frozenset(), frozenset())
        for x in [x for x in d.caps if x[0] == k[0] and (x[1][:len(k[1])] == k[1] or k[1][:len(x[1])] == x[1])]:
            del d.caps[x]
        if len(loc.sel) >= 2 and loc.sel[-1][0] == "i" and loc.sel[-2] == ("f", "rep") and isinstance(loc.sel[-1][1], Lin):
            if how == "assign" and (node.get("k") == "asg" and not zero(node.get("y")) or node.get("k") == "call" and node.get("fn") in ex.prog.fns and ex.prog.fns[node["fn"]].q.endswith("::operator=") and node["a"] and not zero(node["a"][-1])) or how not in ("assign", "resize", "append"):
                i = extreme(ex, loc.sel[-1][1])
                if i is not None:
                    d.tops.setdefault((k[0], k[1][:-2]), set()).add(i)
        elif how == "assign":
            d.tops.pop(k, None)

    def rep(self, loc, ex=None, st=None):
        if not isinstance(loc, Loc):
            return None
        if ex is not None and self.keyed:
            r = self.find(loc, ex, st)
            if r is not None:
                return r
        r = self.reps.get(key(loc))
        if r is None and loc.root.kind == "this":
            r = self.reps[key(loc)] = Rep()
        return r

    def find(self, loc, ex, st):
        """A transform kept in a table of transforms prepared for certain sizes."""
        for i in range(len(loc.sel) - 1):
            e = self.keyed.get((loc.root.id, loc.sel[:i + 1])) if loc.sel[i][0] == "f" and loc.sel[i + 1][0] == "i" else None
            if e is None or not isinstance(loc.sel[i + 1][1], Lin):
                continue
            by = e[0][0]
            if by is None:
                k = loc.sel[i + 1][1]
                f = self.first.get((loc.root.id, loc.sel[:i + 1]))
                if f is not None and len(k.d) == 1 and list(k.d.values()) == [1] and next(iter(k.d))[0] not in ("v", "cell", "dim", "deg"):
                    self.only[next(iter(k.d))] = f - k.c
            else:
                ks = [ex.lin(ex.load_int(st, Loc(loc.root, loc.sel[:i], "?").field(f, "NTL::Vec<long>").at(loc.sel[i + 1][1]), None)) for f in by]
                used = [k for k in ks if any(isinstance(v, Lin) and v == k for v in st.env.values())]
                k = (used or ks)[0]
            m = {("key",): k}
            dec = lambda r: Rep(*[None if x is None else deep(x, m, True) for x in (r.k, r.pts, r.len)], exact=r.exact, prod=r.prod)
            out = None
            for by, r, ge, ne in e:
                fs = st.facts
                for l in ge:
                    fs = fs.add_ge(deep(l, m, True))
                for l in ne:
                    fs = fs.add_ne(deep(l, m, True))
                if not fs.unsat():
                    out = dec(r) if out is None else out.either(dec(r))
            return out or Rep()
        return None

    # ------------------------------------------------------------ calls
    def length(self, ex, st, l):
        """(bound on the number of coefficients of a polynomial operand, is it attained, operand)"""
        if not isinstance(l, Loc) or l.t != PX:
            return None, False, None
        c = self.caps.get(key(l))
        if c:
            return c[0], c[1], None
        b = self.built.get(key(l))
        if b and b[0]:
            top = None
            for i in b[0]:
                if all(st.facts.implies_ge(i - j) for j in b[0]):
                    top = i
            if top is not None:
                return top + 1, top in b[1], None
            return Lin.atom(("max",) + tuple(sorted(b[0], key=repr))) + 1, b[0] <= b[1], None
        n = ex.dim(st, l.field("rep", "NTL::Vec<NTL::zz_p>"), 0)
        r = l.root
        if r.kind == "param" and not st.ver.get(r.id, 0):
            if any(s[0] == "i" for s in l.sel):
                m = Loc(r)
                if is_mat(m.t) or is_vec(m.t):
                    d = Lin.atom(("deg", r.name + "#%d" % r.id, (), 0, 0))
                    st.facts = st.facts.add_ge(d + 1)
                    return d + 1, True, r.id
            return n, True, r.id
        return n, False, None

    def call(self, ex, st, fn, obj, args, node):
        q, d = fn.q, st.dom
        if q in ("NTL::TofftRep", "NTL::TofftRep_trunc") and len(args) >= 3 and isinstance(args[0], Loc) and is_rep(args[0].t):
            tr = q.endswith("trunc")
            vals = [ex.lin(ex.consume(x, node["a"][i], st)) if i > 1 and isinstance(x, (Lin, Cond, Loc)) else None for i, x in enumerate(args)]
            k = vals[2]
            pts = pow2(k) if k is not None else None
            if tr and len(vals) > 3 and vals[3] is not None and k is not None:
                pts = round_up(vals[3], k)
            b = 4 if tr else 3
            n, exact, who = self.length(ex, st, args[1])
            if len(args) > b + 1 and not all(isinstance(x, dict) and x.get("k") == "defarg" or x.get("defarg") for x in node["a"][b:b + 2]) and None not in vals[b:b + 2]:
                w = vals[b + 1] - vals[b] + 1
                if n is None or st.facts.implies_ge(n - w):
                    n = w
                elif not st.facts.implies_ge(w - n + vals[b]):
                    n, exact = (Lin.atom(("min",) + tuple(sorted((n - vals[b], w), key=repr))), exact)
                    if exact and vals[b].is_const() and vals[b].c == 0:
                        n = w       # a longer operand is cut at w
            r = ex.default_call(fn, obj, args, node, st)
            v = Rep(k, pts, n, exact)
            d.reps[key(args[0])] = v
            if who is not None:
                o = d.srcs.get(who)
                d.srcs[who] = v if o is None else o.meet(v)
            return r
        if q == "NTL::mul" and len(args) == 3 and all(isinstance(a, Loc) and is_rep(a.t) for a in args):
            x, y = self.rep(args[1], ex, st) or Rep(), self.rep(args[2], ex, st) or Rep()
            self.sink.same(ex, st, x, y, node)
            r = ex.default_call(fn, obj, args, node, st)
            d.reps[key(args[0])] = Rep(x.k or y.k, least(st, x.pts, y.pts), x.len + y.len - 1 if x.len is not None and y.len is not None else None, x.exact and y.exact, True)
            return r
        if q in ("NTL::add", "NTL::sub") and len(args) == 3 and all(isinstance(a, Loc) and is_rep(a.t) for a in args):
            x, y = self.rep(args[1], ex, st) or Rep(), self.rep(args[2], ex, st) or Rep()
            self.sink.same(ex, st, x, y, node)
            r = ex.default_call(fn, obj, args, node, st)
            n, exact = None, False
            if x.len is not None and y.len is not None:
                e = x.len - y.len
                n, exact = (x.len, x.exact) if st.facts.implies_ge(e) else (y.len, y.exact) if st.facts.implies_ge(-e) else (None, False)
            d.reps[key(args[0])] = Rep(x.k or y.k, least(st, x.pts, y.pts), n, exact, x.prod or y.prod)
            return r
        if q == "NTL::FromfftRep" and len(args) == 4 and isinstance(args[1], Loc) and is_rep(args[1].t):
            x = self.rep(args[1], ex, st) or Rep()
            lo, hi = [ex.lin(ex.consume(args[i], node["a"][i], st)) if isinstance(args[i], (Lin, Cond, Loc)) else None for i in (2, 3)]
            if not x.prod:
                # filled point by point from the transforms of the operands
                ss = list(d.srcs.values())
                if len(ss) == 2 and all(s.len is not None for s in ss):
                    if not any(s.k is None for s in ss) and x.k is not None:
                        self.sink.same(ex, st, x, ss[0], node)
                        self.sink.same(ex, st, ss[0], ss[1], node)
                    x = Rep(x.k, least(st, x.pts, least(st, ss[0].pts, ss[1].pts)), ss[0].len + ss[1].len - 1, ss[0].exact and ss[1].exact)
                else:
                    x = Rep(x.k, x.pts)
            self.sink.taken(ex, st, x, lo, hi, node)
            r = ex.default_call(fn, obj, args, node, st)
            d.reps[key(args[1])] = Rep(x.k, x.pts)
            return r
        if isinstance(obj, Loc) and obj.t.replace("const ", "").startswith("std::map<") and ", NTL::fftRep," in obj.t:
            if fn.n in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                a = node["a"]
                while len(a) == 1 and a[0].get("k") in ("ctor", "call", "cast"):
                    a = a[0].get("a") or [a[0]["e"]]
                if len(a) == 2:
                    k, v = ex.eval(a[0], st), ex.eval(a[1], st)
                    self.sink.stored.append((obj.sel, ex.lin(k) if isinstance(k, (Lin, Cond, Loc)) else None, self.rep(v, ex, st), ex.this is not None and obj.root is ex.this.root, st.facts))
            elif fn.n in ("find", "at") and len(args) == 1:
                k = ex.lin(ex.consume(args[0], node["a"][0], st))
                l = obj.at(k)
                l = Loc(l.root, l.sel, "NTL::fftRep" if fn.n == "at" else "std::pair<const int, NTL::fftRep>", l.via, l.tn, l.cst)
                r = self.find(l, ex, st)
                if r is not None and r.k is not None:
                    for x in (l, l.field("second", REP)):
                        st.env[("cell", x.field("k", "long").key())] = r.k
                return l
        if fn.n == "operator->" and isinstance(obj, Loc) and obj.t == "std::pair<const int, NTL::fftRep>":
            return obj
        if fn.n == "append" and isinstance(obj, Loc) and len(args) == 1 and ex.this is not None and obj.root is ex.this.root:
            if obj.t == "NTL::Vec<long>":
                v = ex.lin(ex.consume(args[0], node["a"][0], st))
                self.sink.pushed.setdefault(obj.sel, set()).add(v)
            elif obj.t == "NTL::Vec<NTL::fftRep>":
                self.sink.stored.append((obj.sel, False, self.rep(args[0], ex, st), True, st.facts))
        if q.endswith("fftRep::SetSize") and isinstance(obj, Loc):
            k = ex.lin(ex.consume(args[0], node["a"][0], st))
            r = ex.default_call(fn, obj, args, node, st)
            d.reps[key(obj)] = Rep(k, pow2(k))
            return r
        return BoundsDom.call(self, ex, st, fn, obj, args, node)


def both(a, b):
    return (a[0] | b[0], a[1] & b[1])


def mentions(l, mark):
    return any(a == mark or isinstance(a, tuple) and any(isinstance(x, Lin) and mentions(x, mark) or isinstance(x, tuple) and mark in x for x in a) for a in l.d)


def zero(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "ctor") and (e.get("e") or e.get("a")):
        e = e.get("e") or e["a"][0]
    return isinstance(e, dict) and e.get("k") == "int" and str(e.get("v")) == "0"


def round_up(n, k):
    if len(n.d) == 1 and n.c == 0:
        a, c = next(iter(n.d.items()))
        if c == 1 and isinstance(a, tuple) and a and a[0] == "fftup" and a[2] == k:
            return n
    return pow2(k) if n == pow2(k) else Lin.atom(("fftup", n, k))


def least(st, a, b):
    if a is None or b is None:
        return None
    fs = st.facts if st is not None else Facts()
    if a == b or fs.implies_ge(b - a):
        return a
    if fs.implies_ge(a - b):
        return b
    return Lin.atom(("min",) + tuple(sorted((a, b), key=repr)))


def most(a, b):
    if a is None or b is None:
        return None
    if a == b or Facts().implies_ge(a - b):
        return a
    if Facts().implies_ge(b - a):
        return b
    return Lin.atom(("max",) + tuple(sorted((a, b), key=repr)))


def extreme(ex, i):
    for L in reversed(ex.loops):
        k = i.d.get(L.it)
        if k is None:
            continue
        if L.lo is None or L.hi is None or abs(L.step) != 1:
            return None
        i = i.subst({L.it: L.lo if k < 0 else L.hi - 1})
    return i


class products:
    """Products as structural terms."""
    def __enter__(self):
        self.old = lin.rank, lin.structural
        rank, st = self.old
        lin.rank = lambda a: 1 + max([lin.rank(x) for l in a[1:] if isinstance(l, Lin) for x in l.d] or [0]) if isinstance(a, tuple) and a and a[0] == "mul" else rank(a)
        lin.structural = lambda a, val: val(a[1]) * val(a[2]) if a[0] == "mul" else st(a, val)

    def __exit__(self, *a):
        lin.rank, lin.structural = self.old


class FFTSink(Sink):
    roots, M = None, None

    def __init__(self, *a):
        Sink.__init__(self, *a)
        self.stored, self.pushed = [], {}

    def access(self, *a):
        pass

    def need(self, *a, **k):
        pass

    def judge(self, ex, st, c, more=True):
        v = Sink.judge(self, ex, st, c, more)
        if v != "unknown":
            return v
        # operands of full length
        m = dict(st.dom.only)
        for k, (l, top) in st.dom.caps.items():
            if top:
                d = ex.dim(st, st.dom.capl[k].field("rep", "NTL::Vec<NTL::zz_p>"), 0)
                if len(d.d) == 1 and d.c == 0 and d != l:
                    m[next(iter(d.d))] = l
        if not m:
            return v if v != "unknown" else self.refute(ex, st, c)
        sub = lambda ls: frozenset(deep(l, m, True) for l in ls)
        s = st.copy()
        s.facts = Facts(sub(s.facts.ge), sub(s.facts.ne), s.facts.lost, frozenset(tuple(sub(x) for x in a) for a in s.facts.alts))
        if s.facts.unsat():
            return v
        v = Sink.judge(self, ex, s, deep(c, m, True), more)
        return v if v != "unknown" else self.refute(ex, s, deep(c, m, True))

    def refute(self, ex, st, c):
        """Products of sizes, and members computed from the entries: a point among small values,
        with such members between 0 and the sizes."""
        if ex.this is None or not self.M:
            return "unknown"
        me = "this#%d" % ex.this.root.id
        keys = {f for es in self.M.keyed.values() for e in es for f in e[0] or ()}
        with products():
            return self.point(me, keys, st.facts, c, 0)

    def point(self, me, keys, F, c, depth):
        seen, n = set(c.d), -1
        while n != len(seen):
            n = len(seen)
            rel, seen = F.relevant(seen, 120)
            seen |= {x for a in seen if lin.rank(a) for l in a[1:] if isinstance(l, Lin) for x in l.d}
        if len(rel) >= 120 or F.lost & seen or depth > 4:
            return "unknown"
        for alt in F.alts:
            if any(x in seen for s in alt for l in s for x in l.d):
                for ge, ne in (alt[:2], alt[2:]):
                    G = Facts(F.ge | ge, F.ne | ne, F.lost, F.alts - {alt})
                    if not G.unsat() and self.point(me, keys, G, c, depth + 1) == "violated":
                        return "violated"
                return "unknown"
        more, roots = [], [a for a in seen if a[0] == "cell" and a[1] == me and len(a[2]) == 1 and a[2][0][1] in self.M.roots]
        for a in seen:
            if lin.rank(a):
                continue
            A = Lin.atom(a)
            if a[0] == "cell" and a[1] == me:
                f = a[2][0][1]
                if a in roots:
                    continue
                if len(a[2]) == 1 and f in self.M.fixed and f not in self.M.ints:
                    more += [A] + [Lin.atom(r) - A - 1 for r in roots]
                elif len(a[2]) == 2 and f in keys:
                    more += [A]
                else:
                    return "unknown"
            elif not (a[0] in ("v", "modulus") or a[0] in ("dim", "deg") and a[4] == 0):
                return "unknown"
        ne = [l for l in F.ne if set(l.d) <= seen]
        m = lin.sample(rel + lin.axioms(seen) + more + [-c - 1], ne, 3000)
        return "unknown" if m is None else "violated"

    def enough(self, ex, st, pts, n):
        """pts >= n, looking through roundings and minima."""
        if st.facts.implies_ge(pts - n):
            return True
        if len(pts.d) == 1 and pts.c == 0:
            a, c = next(iter(pts.d.items()))
            if c == 1 and isinstance(a, tuple) and a and a[0] == "min":
                return all(self.enough(ex, st, x, n) for x in a[1:])
            if c == 1 and isinstance(a, tuple) and a and a[0] == "fftup":
                return self.enough(ex, st, a[1], n) and self.enough(ex, st, pow2(a[2]), n)
        if n.d:
            # a minimum is reached from either side
            for a, c in n.d.items():
                if c == 1 and isinstance(a, tuple) and a and a[0] == "min":
                    return any(self.enough(ex, st, pts, n - Lin.atom(a) + x) for x in a[1:])
                if c == 1 and isinstance(a, tuple) and a and a[0] == "max":
                    return all(self.enough(ex, st, pts, n - Lin.atom(a) + x) for x in a[1:])
        return False

    def free(self, ex, l, more=False):
        """Is every member in the term one that callers choose through a constructor (or computed from their data)?"""
        for a in l.d:
            if not isinstance(a, tuple) or not a:
                continue
            if a[0] == "cell":
                mine = ex.this is not None and a[1] == "this#%d" % ex.this.root.id
                if more and mine and self.M:
                    continue
                if not (mine and self.roots and len(a[2]) == 1 and a[2][0][1] in self.roots):
                    return False
            elif any(isinstance(x, Lin) and not self.free(ex, x, more) for x in a[1:]):
                return False
        return True

    def row(self, ex, node, tag, v, text):
        self.put((id(node), tag), (v, text if v != "proved" else None, node.get("l"), getattr(ex.frame, "n", "?")))

    def same(self, ex, st, x, y, node):
        if ex.quiet:
            return
        if x.k is None or y.k is None:
            return self.row(ex, node, "same", "unknown", "sizes of the transforms not known")
        v = max((self.judge(ex, st, c) for c in (x.k - y.k, y.k - x.k)), key=lambda v: RANK[v])
        if v == "violated" and not self.free(ex, x.k - y.k, True):
            v = "unknown"
        self.row(ex, node, "same", v, "transforms of 2^(%s) and 2^(%s) points are combined" % (x.k, y.k))

    def taken(self, ex, st, x, lo, hi, node):
        if ex.quiet:
            return
        if x.k is None or lo is None or hi is None:
            self.row(ex, node, "out", "unknown", "size of the transform not known")
            return
        n = pow2(x.k)
        last = hi + 1
        if x.len is not None and not st.facts.implies_ge(x.len - last):
            last = Lin.atom(("min",) + tuple(sorted((hi + 1, x.len), key=repr)))
        self.decide(ex, st, "out", n, last, x.len is None or x.exact, node, "coefficients up to %s are taken out of a transform of 2^(%s) points" % (hi, x.k))
        if x.pts is not None and x.pts != n:
            self.decide(ex, st, "points", x.pts, hi + 1, True, node, "coefficients up to %s are taken out of a truncated transform of %s points" % (hi, x.pts))
            if x.len is not None:
                self.decide(ex, st, "wrap", x.pts, x.len, x.exact, node, "a product of %s coefficients is recovered from %s points" % (x.len, x.pts))
        elif x.len is not None:
            self.decide(ex, st, "wrap", n, x.len - lo, x.exact, node, "a product of %s coefficients wraps around in a transform of 2^(%s) points and reaches coefficient %s" % (x.len, x.k, lo))
        else:
            self.row(ex, node, "wrap", "unknown", "length of the polynomial not known")

    def decide(self, ex, st, tag, pts, n, exact, node, text):
        v = "proved" if self.enough(ex, st, pts, n) else self.judge(ex, st, pts - n) if exact and self.free(ex, pts - n) else "unknown"
        self.row(ex, node, tag, v, text)


# What the code relies on and documents, per family of functions: bounds on the degrees of the operands
def documented(ex, st, func):
    """deg(a) <= dA and deg(c) <= dA + dB for middle products, deg(b) <= dB for multipliers."""
    ps = {p["n"]: (ex.params[i], p) for i, p in enumerate(func.ps)}
    out = []

    def deg(n):
        r, p = ps[n]
        if is_mat(p["t"]):
            return Lin.atom(("deg", r.name + "#%d" % r.id, (), 0, 0))
        return ex.dim(st, Loc(r).field("rep", "NTL::Vec<NTL::zz_p>"), 0) - 1
    num = lambda n: ex.lin(st.env.get(ps[n][1]["id"]))
    if func.n.startswith("middle_product") and all(n in ps for n in ("a", "c", "dA", "dB")):
        out += [num("dA") - deg("a"), num("dA") + num("dB") - deg("c")]
    if func.cls and "lmultiplier" in func.cls and func.n.startswith("multiply") and "b" in ps:
        out.append(ex.lin(ex.load_int(st, ex.this.field("__dB", "long"), None)) - deg("b"))
    return out


def analyse(prog, func, T, mem=None, depth=3, budget=300000):
    """[(tag, verdict, explanation, line, function)]"""
    M = mem.get(func.cls) if mem and func.cls and not func.ctor else None
    pre0 = PRE(func)
    rows = {}
    for case in range(len(M.cases) if M else 1):
        sink = FFTSink()
        sink.M = M
        sink.roots = None if func.cls is None or func.ctor else set(M.roots) if M else set()

        def pre(dom, ex, st):
            if pre0:
                pre0(dom, ex, st)
            if M and ex.this is not None:
                assume_members(ex, st, M, case)
            for l in documented(ex, st, func):
                st.facts = st.facts.add_ge(l)
        ex, outs = start(prog, func, T, pre, sink, depth, budget, FFTDom)
        for k, v in sink.rows.items():
            if k not in rows or RANK[v[0]] > RANK[rows[k][0]]:
                rows[k] = v
    return [(k[1],) + v for k, v in rows.items()]


# ---------------------------------------------------------------- members
def deep(l, m, rest=False):
    """l with its leaves replaced; None if a leaf has no replacement (kept if rest)."""
    out = Lin.const(l.c)
    for a, c in l.d.items():
        if a in m:
            out = out + m[a].scale(c)
            continue
        if not (isinstance(a, tuple) and a and any(isinstance(x, Lin) for x in a[1:])) or a[0] in ("dim", "deg", "cell"):
            if rest:
                out = out + Lin.atom(a).scale(c)
                continue
            return None
        b = []
        for x in a[1:]:
            if isinstance(x, Lin):
                x = deep(x, m, rest)
                if x is None:
                    return None
            b.append(x)
        if a[0] in ("min", "max", "mul"):
            b = sorted(b, key=repr)
        out = out + (pow2(b[0]) if a[0] == "pow2" else Lin.atom((a[0],) + tuple(b))).scale(c)
    return out


def fld(f):
    return Lin.atom(("fld", f))


class Members:
    """What every constructor establishes: roots (members set to an argument of the constructor,
    free for the caller to choose), the other integer members and the transforms in terms of them."""

    def __init__(self, roots, ints, cases, srcs):
        self.roots, self.ints, self.cases, self.srcs = roots, ints, cases, srcs
        self.polys, self.keyed, self.fixed, self.first = {}, {}, [], {}


def rewritten(prog, cls):
    """Members assigned outside the constructors."""
    out = set()
    for f in prog.funcs.values():
        if f.body is None or f.ctor or f.cls not in family(prog, cls):
            continue
        if f.n == "operator=":
            continue
        for n in walk(f.body):
            k = n.get("k")
            tg = []
            if k == "asg":
                tg = [n["x"]]
            elif k == "un" and n["op"] in ("++", "--"):
                tg = [n["e"]]
            elif k == "call":
                g = prog.fns.get(n.get("fn"))
                if g is not None and (g.q.startswith("NTL::TofftRep") or g.q.startswith("NTL::mul")):
                    tg = n["a"][:1]
            for e in tg:
                while e.get("k") in ("idx", "cast", "un"):
                    e = e.get("b") or e.get("e")
                if e.get("k") == "mem" and e["b"].get("k") == "this":
                    out.add(e["f"])
    return out


def family(prog, cls, depth=0):
    c = prog.classes.get(cls)
    out = [cls]
    for b in c["bases"] if c and depth < 4 else ():
        out += family(prog, b, depth + 1)
    return out


def members(prog, cls, T):
    fs = all_fields(prog, cls)
    ints = [n for n, t in fs if t == "long"]
    off = rewritten(prog, cls)
    per, held = [], []
    for f in sorted(prog.funcs.values(), key=lambda f: f.m):
        if not (f.ctor and f.cls == cls and f.body is not None and [p for p in f.ps if not p["t"].endswith(cls)]):
            continue
        if any(i.get("delegate") for i in f.inits) and not f.body.get("s"):
            continue        # an instance of another one
        sink = FFTSink()
        ex, outs = start(prog, f, T, PRE(f), sink, 4, 300000, FFTDom)
        held.append((ex, sink.stored))
        for o in outs:
            vals = {}
            for g in ints:
                v = o.env.get(("cell", ex.this.field(g, "long").key()))
                if isinstance(v, Lin):
                    vals[g] = v
            per.append((ex, o, vals))
    if not per:
        return None
    roots = []
    for g in ints:
        if g in off or not all(g in v and len(v[g].d) == 1 and list(v[g].d.values()) == [1] and next(iter(v[g].d))[0] in ("v", "dim", "deg") for _, _, v in per):
            continue
        if all(all(next(iter(v[g].d)) != next(iter(v[h].d)) for h in roots) for _, _, v in per):
            roots.append(g)
    res = []
    for ex, o, v in per:
        m = {}
        for g in roots:
            a = next(iter(v[g].d))
            m[a] = fld(g) - v[g].c
        iv = {g: deep(x, m) for g, x in v.items() if g not in roots and g not in off}
        tr = lambda r: Rep(*[None if x is None else deep(x, m) for x in (r.k, r.pts, r.len)], exact=r.exact, prod=r.prod)
        rv = {k[1]: tr(r) for k, r in o.dom.reps.items() if k[0] == ex.this.root.id and k[1] and k[1][0][1] not in off}
        sv = [tr(r) for r in o.dom.srcs.values()]
        tl = lambda ls: frozenset(x for x in (deep(l, m) for l in ls) if x is not None)
        res.append((iv, rv, sv, tl(o.facts.ge), tl(o.facts.ne)))
    iv0, sv0 = res[0][0], res[0][2]
    iv0 = {g: x for g, x in iv0.items() if x is not None and all(r[0].get(g) == x for r in res[1:])}
    if not all(r[2] == sv0 for r in res[1:]):
        sv0 = []
    cases = []      # constructors may choose between several sizes
    for iv, rv, sv, ge, ne in res:
        for c in cases:
            if all(k not in c[0] or c[0][k].k == r.k for k, r in rv.items()):
                for k, x in rv.items():
                    c[0][k] = c[0][k].either(x) if k in c[0] else x
                c[1], c[2] = c[1] & ge, c[2] & ne
                c[3].append((rv, Facts(ge, ne)))
                break
        else:
            cases.append([dict(rv), ge, ne, [(rv, Facts(ge, ne))]])
    for c in cases:
        for k, x in c[0].items():
            # attained on every path
            c[0][k] = x = Rep(*x.tup())
            x.exact = x.len is not None and all(rv[k].exact and (rv[k].len == x.len or fs.implies_eq(rv[k].len - x.len)) for rv, fs in c[3] if k in rv)
    cases = [c[:3] for c in cases]
    if len(cases) > 4:
        m = cases[0][0]
        for c in cases[1:]:
            for k, x in c[0].items():
                m[k] = m[k].either(x) if k in m else x
        cases = [[m, frozenset(), frozenset()]]
    M = Members(roots, iv0, cases, sv0)
    M.fixed = [n for n, t in fs if t == "long" and n not in off]
    M.polys = polys(prog, cls, off, per, roots)
    M.keyed = tables(prog, cls, T, M, off)
    # what the tables hold from the start
    for ex, ss in held:
        o = next(((o, v) for e, o, v in per if e is ex), None)
        if o is None or not all(g in o[1] for g in roots):
            M.first = {}
            break
        m = {next(iter(o[1][g].d)): fld(g) - o[1][g].c for g in roots}
        for sel, k, r, mine, fs in ss:
            k = deep(k, m) if isinstance(k, Lin) and mine else None
            M.first[sel] = k if M.first.get(sel, k) == k else None
    return M


def polys(prog, cls, off, per, roots):
    """Lengths of the polynomials the constructors build coefficient by coefficient."""
    out = {}
    for n, (ex, o, v) in enumerate(per):
        m = {next(iter(v[g].d)): fld(g) - v[g].c for g in roots}
        new = {}
        for k, (may, must) in o.dom.built.items():
            if k[0] == ex.this.root.id and len(k[1]) == 1 and may:
                ls = [deep(l + 1, m) for l in may]
                if None not in ls:
                    r = ls[0]
                    for l in ls[1:]:
                        r = most(r, l)
                    new[k[1]] = r, must >= may
        out = new if n == 0 else {k: (most(out[k][0], l), x and out[k][1]) for k, (l, x) in new.items() if k in out}
    return {k: l for k, l in out.items() if k[0][1] not in off}


def tables(prog, cls, T, M, off):
    """Containers of transforms filled by methods, each transform for a size that is stored along with it."""
    out = {}
    for f in sorted(prog.funcs.values(), key=lambda f: f.m):
        if f.body is None or f.ctor or f.cls != cls or f.cm:
            continue
        if not any(n.get("k") == "call" and REP in str(n.get("ot")) and n.get("obj", {}).get("k") == "mem" for n in walk(f.body)):
            continue
        sink = FFTSink()
        box = {}

        def pre(dom, ex, st):
            p = PRE(f)
            if p:
                p(dom, ex, st)
            assume_members(ex, st, M, 0)
            box.update(ex=ex, m={a: b for a, b in leaves(ex, st, M, off)})
        start(prog, f, T, pre, sink, 3, 300000, FFTDom)
        if not box:
            continue
        ex, m = box["ex"], dict(box["m"])
        for sel, k, r, mine, fs in sink.stored:
            if not mine or r is None:
                out[sel] = None
                continue
            by = None
            if k is False:
                ks = {next(iter(v)) for v in sink.pushed.values() if len(v) == 1}
                if len(ks) != 1:
                    out[sel] = None
                    continue
                k = next(iter(ks))
                by = tuple(sorted(s[-1][1] for s, v in sink.pushed.items() if v == {k}))
            if k is None or len(k.d) != 1 or k.c or list(k.d.values()) != [1]:
                out[sel] = None
                continue
            m[next(iter(k.d))] = Lin.atom(("key",))
            tl = lambda ls: frozenset(x for x in (deep(l, m) for l in ls) if x is not None)
            e = (by, Rep(*[None if x is None else deep(x, m) for x in (r.k, r.pts, r.len)], exact=r.exact, prod=r.prod), tl(fs.ge), tl(fs.ne))
            if sel in out and out[sel] is None:
                continue
            es = out.setdefault(sel, [])
            for i, x in enumerate(es):
                if x[0] != by:
                    out[sel] = None
                    break
                if x[1].k == e[1].k:
                    es[i] = (by, x[1].either(e[1]), x[2] & e[2], x[3] & e[3])
                    break
            else:
                es.append(e)
    return {k: v for k, v in out.items() if v is not None}


def leaves(ex, st, M, off):
    for n, t in all_fields(ex.prog, ex.this.t):
        if t == "long" and n not in off and n not in M.ints:
            v = ex.lin(ex.load_int(st, ex.this.field(n, "long"), None))
            if len(v.d) == 1 and v.c == 0:
                yield next(iter(v.d)), fld(n)


def assume_members(ex, st, M, case):
    m = {}
    for g in M.roots:
        l = ex.this.field(g, "long")
        v = ex.lin(ex.load_int(st, l, None))
        m[("fld", g)] = v
        st.env[("cell", l.key())] = v
    dec = lambda r: Rep(*[None if x is None else deep(x, m) for x in (r.k, r.pts, r.len)], exact=r.exact, prod=r.prod)
    for g in M.fixed:
        l = ex.this.field(g, "long")
        v = ex.lin(ex.load_int(st, l, None))
        m.setdefault(("fld", g), v)
        st.env[("cell", l.key())] = v
    for g, x in M.ints.items():
        st.env[("cell", ex.this.field(g, "long").key())] = deep(x, m)
    reps, ge, ne = M.cases[case]
    for k, r in reps.items():
        st.dom.reps[(ex.this.root.id, k)] = dec(r)
    if len(M.cases) > 1:
        for l in ge:
            st.facts = st.facts.add_ge(deep(l, m))
        for l in ne:
            st.facts = st.facts.add_ne(deep(l, m))
    for i, r in enumerate(M.srcs):
        st.dom.srcs[("member", i)] = dec(r)
    for k, (l, x) in M.polys.items():
        loc = ex.this.field(k[0][1], PX)
        st.dom.caps[key(loc)], st.dom.capl[key(loc)] = [deep(l, m), x], loc
    m[("key",)] = Lin.atom(("key",))
    for k, l in M.first.items():
        if l is not None:
            st.dom.first[(ex.this.root.id, k)] = deep(l, m)
    for k, es in M.keyed.items():
        st.dom.keyed[(ex.this.root.id, k)] = [(by, dec(r), [deep(l, m) for l in ge], [deep(l, m) for l in ne]) for by, r, ge, ne in es]
