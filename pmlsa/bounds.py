"""Element accesses stay inside their container.

Every subscript met on a path gives the obligation 0 <= index < dimension, every call of a
library function the obligation that its size requirements hold.  An obligation is violated
when the constraints of the path, all of them over argument values, argument sizes and loop
counters, are satisfiable together with an index outside the range."""
import json, os
from .shapes import *
from .shapes import ShapeDom
from .guards import helper
from .regions import atoms_of
from .lin import model, sample, axioms, rank, Facts


def clear_atom(a, its=()):
    """Is the atom a value the caller can choose freely (or the counter of a counted loop)?"""
    if not isinstance(a, tuple) or not a:
        return True
    k = a[0]
    if k == "it":
        return a in its
    if k in ("v", "modulus"):
        return True
    if k in ("dim", "deg"):
        return a[4] == 0
    if k == "cell":
        return a[3] == 0
    if k in ("min", "max"):
        return all(clear(x, its) for x in a[1:])
    if k in ("div", "fdiv", "mod", "fftup"):
        return clear(a[1], its) and clear(a[2], its)
    if k in ("npot", "pow2"):
        return clear(a[1], its)
    return False


def clear(l, its=()):
    return all(clear_atom(a, its) for a in l.d)


class BoundsDom(ShapeDom):
    def __init__(self, T, pre, sink):
        ShapeDom.__init__(self, T.shapes, pre)
        self.T, self.sink = T, sink

    def event(self, ex, st, kind, node, **kw):
        ShapeDom.event(self, ex, st, kind, node, **kw)
        if kind == "entry":
            for t in self.T.pre.get(ex.func.m, ()):
                l = self.enc.dec(t)
                if l is not None:
                    st.facts = st.facts.add_ge(l)
            self.sink.entry = st.facts.ge | st.facts.ne
        if kind == "index" and not ex.quiet:
            self.sink.access(ex, st, kw["base"], kw["index"], node, kw["raw"])

    def call(self, ex, st, fn, obj, args, node):
        if fn.q == "PML::deg" and len(args) == 1 and isinstance(args[0], Loc) and args[0].root.kind == "param" and (is_mat(args[0].t) or is_vec(args[0].t)) and not st.ver.get(args[0].root.id, 0):
            # degree of a matrix or vector argument: bounds the degrees of its entries
            l = args[0]
            d = Lin.atom(("deg", l.root.name + "#%d" % l.root.id, l.sel, 0, 0))
            st.facts = st.facts.add_ge(d + 1)
            return d
        c = self.T.pre.get(fn.m)
        if c and not ex.quiet:
            f = ex.prog.funcs.get(fn.m)
            if not (f is not None and ex.inline(f, ex.depth) and ex.can_inline(fn.m)):
                enc = CallEnc(ex, st, fn, obj, args)
                for t in c:
                    l = enc.dec(t)
                    if l is not None:
                        self.sink.need(ex, st, fn, t, l, node)
                        st.facts = st.facts.add_ge(l)
        return ShapeDom.call(self, ex, st, fn, obj, args, node)


RANK = {"proved": 0, "unknown": 1, "violated": 2}


class Sink:
    def __init__(self, want=False):
        self.rows = {}
        self.want = want
        self.cand = []
        self.entry = frozenset()

    def put(self, key, row):
        old = self.rows.get(key)
        if old is None or RANK[row[0]] > RANK[old[0]]:
            self.rows[key] = row

    def access(self, ex, st, base, i, node, raw):
        t = base.t
        if not (is_mat(t) or is_vec(t) or t == "NTL::zz_pX"):
            return
        n = ex.dim(st, base, 0)
        w = where(ex, base)
        for tag, c, what in (("lo", i, "negative"), ("hi", n - i - 1, "too large")):
            v = self.judge(ex, st, c)
            self.put((id(node), w, tag), (v, "index %s of %s may be %s (size %s)" % (i, base, what, n) if v != "proved" else None, node.get("l"), getattr(ex.frame, "n", "?")))

    def need(self, ex, st, fn, t, l, node):
        v = self.judge(ex, st, l, fn.m not in ex.stack)
        self.put((id(node), "call " + fn.m, json.dumps(t)), (v, "%s is called with sizes it does not support: %s >= 0 may fail" % (fn.q, l) if v != "proved" else None, node.get("l"), getattr(ex.frame, "n", "?")))

    def judge(self, ex, st, c, more=True):
        F = st.facts
        if F.implies_ge(c):
            return "proved"
        its = {L.it for L in ex.loops if L.lo is not None}
        if F.unsat():
            return "unknown"
        v = self.search(ex, st, F, c, its, 0)
        if v is None:
            return "unknown"
        if v == "dark":
            return "violated"
        if self.want and more:
            self.suggest(ex, st, c)
        return "violated"

    def search(self, ex, st, F, c, its, depth):
        """"clear" or "dark" if the state contains a point where c < 0 (see the module text)."""
        seen, n = set(c.d), -1
        while n != len(seen):
            n = len(seen)
            rel, seen = F.relevant(seen, 120)
            seen |= {x for a in seen if rank(a) for l in a[1:] if isinstance(l, Lin) for x in l.d}
        if len(rel) >= 120 or F.lost & seen:
            return None
        for alt in F.alts:
            ga, xa, gb, xb = alt
            if any(x in seen for l in ga | xa | gb | xb for x in l.d):
                # one of the two sides holds
                if depth > 5:
                    return None
                for ge, ne in ((ga, xa), (gb, xb)):
                    G = Facts(F.ge | ge, F.ne | ne, F.lost, F.alts - {alt})
                    if G.unsat():
                        continue
                    v = self.search(ex, st, G, c, its, depth + 1)
                    if v:
                        return v
                return None
        dark = [a for a in seen if not clear_atom(a, its) or self.held(ex, st, a)]
        cons = rel + axioms(seen) + [-c - 1]
        ne = [l for l in F.ne if set(l.d) <= seen]
        if not dark:
            if any(model(cons, ne, bias=b) is not None for b in (0, 1, 3)) or sample(cons, ne) is not None:
                return "clear"
            return None
        # a single value that is not the caller's, compared with loop counters only:
        # the access fails whatever that value is
        base = {a for a in dark if not rank(a)}
        if len(base) != 1 or any(not rank(a) and a not in base and a not in its for a in seen):
            return None
        X = Lin.atom(next(iter(base)))
        for v in (1, 2, 3, 5, 8, 64):
            if not any(model(cons + [X - v, -X + v], ne, bias=b) is not None for b in (0, 1, 3)):
                return None
        return "dark"

    def held(self, ex, st, a):
        """Is the atom the size of a member table about which the constructors' invariant says nothing?"""
        if not (isinstance(a, tuple) and len(a) == 5 and a[0] == "dim" and ex.this is not None and a[1].startswith("this#") and len(a[2]) == 1 and a[2][0][0] != "i"):
            return False
        inv = st.dom.T.inv.get(ex.this.t) or ()
        return not any(a[2][0][1] in (r[0], r[2][1]) for r in inv)

    def suggest(self, ex, st, c):
        """The obligation as a requirement on the arguments: loop counters at their extremes."""
        for L in reversed(ex.loops):
            k = c.d.get(L.it)
            if k is None:
                continue
            if L.lo is None or L.hi is None or abs(L.step) != 1:
                return
            c = c.subst({L.it: L.hi - 1 if k < 0 else L.lo})
        if any(isinstance(a, tuple) and a and a[0] == "it" for a in atoms_of(c)):
            return
        if len(c.d) == 1 and any(set(l.d) == set(c.d) for l in (st.facts.ge | st.facts.ne) - self.entry):
            return      # a requirement on one side of a case distinction only
        e = st.dom.enc.enc(c)
        if e is not None and "opq" not in json.dumps(e) and len(e) > 1 and json.dumps(e).count("div") < 2:
            self.cand.append(e)


def where(ex, base):
    """The container, named independently of local spelling."""
    r = base.root
    s = "".join("[]" if x[0] == "i" else "." + x[1] for x in base.sel)
    if r.kind == "param":
        for i, q in enumerate(ex.params):
            if q is r:
                return "arg%d%s" % (i, s)
        return "arg?" + s
    if r.kind == "this":
        return "this" + s
    return "local %s%s" % (r.t, s)


class Tables:
    def __init__(self, shapes, inv=None, pre=None):
        self.shapes, self.inv, self.pre = shapes, inv or {}, pre or {}


def analyse(prog, func, T, depth=2, budget=300000, want=False):
    """[(place, verdict, explanation, line, function)]"""
    sink = Sink(want)
    ex, outs = start(prog, func, T, PRE(func), sink, depth, budget)
    rows = [(k[1], k[2]) + v for k, v in sink.rows.items()]
    return (rows, sink.cand, ex) if want else rows


# ---------------------------------------------------------------- class invariants
def all_fields(prog, cls, depth=0):
    c = prog.classes.get(cls)
    if not c or depth > 4:
        return []
    out = [(x["n"], x["t"] + (" *" if x.get("ptr") else "")) for x in c["fields"]]
    for b in c["bases"]:
        out += all_fields(prog, b, depth + 1)
    return out


def start(prog, func, T, pre, sink, depth, budget, dom=BoundsDom):
    def inline(g, d):
        return d < depth and g.m not in T.shapes and (helper(g) or d < 1)
    ex = Exec(prog, inline, budget=budget)
    d = dom(T, pre, sink)
    st = St()
    st.dom = d
    ex.func = func
    ex.stack = [func.m]
    ex.params = []
    ex.start_frame(func)
    for p in func.ps:
        ex.params.append(ex.bind_param(st, p, None))
    if func.cls and not func.ref.sm:
        ex.this = Loc(Root("this", "this", func.cls, func.cm))
    inv = T.inv
    if inv:
        if ex.this is not None and not func.ctor:
            assume_inv(ex, st, ex.this, inv)
        for p in func.ps:
            l = st.env.get(p["id"])
            if isinstance(l, Loc):
                assume_inv(ex, st, l, inv)
                if p["t"].startswith("NTL::Vec<NTL::Mat<"):
                    # sequences of matrices are of matrices of one size
                    e = l.at(Lin.atom(("rep",)))
                    ex.set_shape(st, Loc(l.root, l.sel + (ANY,), e.t, l.via, l.tn + (e.t,)), (ex.dim(st, l.at(Lin.const(0)), 0), ex.dim(st, l.at(Lin.const(0)), 1)))
    d.event(ex, st, "entry", func.body)
    if func.ctor:
        ex.run_inits(func, st)
        d.event(ex, st, "inits", func.body)
    outs = ex.stmt(func.body, [st])
    return ex, [o for o in outs if o.flow in (None, "ret") and not o.facts.unsat()]


def term(ex, st, this, t):
    """Value of a frozen invariant term ["cell", field, c] | ["dim", field, k, c] | ["const", c]."""
    if t[0] == "const":
        return Lin.const(t[1])
    if t[0] == "sum":
        x, y = term(ex, st, this, ["cell", t[1], 0]), term(ex, st, this, ["cell", t[2], 0])
        return None if x is None or y is None else x + y + t[3]
    ft = ex.field_type(this.t, t[1])
    if ft == "?":
        return None
    l = this.field(t[1], ft)
    if t[0] == "cell":
        v = ex.load_int(st, l, None)
        return ex.lin(v) + t[2]
    return ex.dim(st, l, t[2]) + t[3]


def assume_inv(ex, st, this, inv, depth=0):
    rows = inv.get(this.t)
    for f, k, t in rows or ():
        ft = ex.field_type(this.t, f)
        v = term(ex, st, this, t)
        if ft == "?" or v is None:
            continue
        l = this.field(f, ft)
        old = st.shape.get(l.key())
        d = [ex.dim(st, l, j) for j in range(ndims(ft))]
        if old is None or old[k] is None or old[k] == d[k]:
            d[k] = v
            ex.set_shape(st, l, d)
            st.facts = st.facts.add_ge(v)


def ctor_states(prog, table, cls):
    """(ctor, executor, exit states) of the constructors that take arguments."""
    out = []
    for f in prog.funcs.values():
        if f.ctor and f.cls == cls and f.body is not None and [p for p in f.ps if not p["t"].endswith(cls)]:
            ex, outs = start(prog, f, Tables(table), None, Sink(), 4, 300000)
            out.append((f, ex, outs))
    return out


def invariants(prog, table):
    inv = {}
    for cls in sorted(prog.classes):
        if not cls.startswith("PML::"):
            continue
        fs = all_fields(prog, cls)
        boxes = [(n, t) for n, t in fs if is_box(t)]
        ints = [n for n, t in fs if t == "long"]
        if not boxes:
            continue
        try:
            cs = ctor_states(prog, table, cls)
        except Limit:
            continue
        states = [(ex, o) for f, ex, outs in cs for o in outs]
        if not states:
            continue
        rows = []
        for n, t in boxes:
            for k in range(ndims(t)):
                got = None
                cand = [["cell", g, None] for g in ints] + [["sum", a, b, None] for i, a in enumerate(ints) for b in ints[i + 1:]] + [["dim", g, j, None] for g, u in boxes for j in range(ndims(u)) if (g, j) != (n, k) and [g, j] < [n, k]]
                for c in cand:
                    w = None
                    ok = True
                    for ex, o in states:
                        d = ex.dim(o, ex.this.field(n, t), k)
                        v = term(ex, o, ex.this, c[:-1] + [0])
                        if v is None:
                            ok = False
                            break
                        e = d - v
                        if w is None:
                            w = next((x for x in range(-2, 3) if same(o.facts, e - x)), None)
                        if w is None or not same(o.facts, e - w):
                            ok = False
                            break
                    if ok:
                        got = c[:-1] + [w]
                        break
                if got:
                    rows.append([n, k, got])
        if rows:
            inv[cls] = rows
    return inv
