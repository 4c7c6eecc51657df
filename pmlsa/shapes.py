"""Dimensions of results: at every normal exit, each dimension of an output container as a
term over the arguments."""
import json, os
from .absint import *
from .specs import Enc, show, method, declared
from .guards import ERR, helper
from .load import walk


def is_box(t):
    return is_mat(t) or is_vec(t)


def ndims(t):
    return 2 if is_mat(t) else 1


def outs_of(prog, f):
    """(key, description) of the outputs of f whose dimensions are judged.
    key = ["p", i] | ["ret"] | ["q", name] (dimension query of the constructed object)"""
    out = []
    if f.ctor and f.cls:
        for n in ("NumRows", "NumCols", "length"):
            if method(prog, f.cls, n) is not None:
                out.append(["q", n])
        return out
    for i, p in enumerate(f.ps):
        if p.get("ref") and not p.get("c") and is_box(p["t"]):
            out.append(["p", i])
    if is_box(f.rt) and not f.ref.rr:
        out.append(["ret"])
    return out


class CallEnc(Enc):
    """Decodes the terms of a callee's contract over the actual arguments of a call."""

    def __init__(self, ex, st, fn, obj, args):
        self.ex, self.st, self.func = ex, st, fn
        self.obj, self.args = obj, args

    def loc_of(self, w):
        if w[0] == "this":
            loc, rest = self.obj, w[1:]
        else:
            loc, rest = (self.args[w[1]] if w[1] < len(self.args) else None), w[2:]
        for f in rest:
            if not isinstance(loc, Loc):
                return None
            if f == "#0":
                loc = loc.at(Lin.const(0))
                continue
            t = self.ex.field_type(loc.t, f) if loc.t != "NTL::zz_pX" else "NTL::Vec<NTL::zz_p>"
            if t == "?":
                return None
            loc = loc.field(f, t)
        return loc if isinstance(loc, Loc) else None

    def dec_atom(self, e):
        k = e[0]
        if k == "v":
            v = self.args[e[1]] if e[1] < len(self.args) else None
            if isinstance(v, Loc) and is_int(v.t):
                v = self.ex.load_int(self.st, v, None)
            return self.ex.lin(v) if isinstance(v, (Lin, Cond)) else None
        if k == "m":
            return self.query(self.obj, self.func.cls, e[1]) if isinstance(self.obj, Loc) else None
        if k == "mp":
            v = self.args[e[1]] if e[1] < len(self.args) else None
            return self.query(v, self.func.ps[e[1]]["t"], e[2]) if isinstance(v, Loc) else None
        if k == "opq":
            return None
        if k == "modulus":
            return Lin.atom(("modulus", self.st.ver.get("modulus", 0)))
        return Enc.dec_atom(self, e)


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "guards.json")) as _g:
    GUARDS = {m: [c[0] for c in v["reject"] if len(c) == 1] for m, v in json.load(_g).items() if v["reject"]}


def same(facts, l):
    """facts entail l == 0, splitting on the maxima and minima in l."""
    if facts.implies_eq(l):
        return True
    for a in l.d:
        if isinstance(a, tuple) and a[0] in ("max", "min") and len(a) == 3:
            x, y = a[1], a[2]
            hi, lo = (x, y) if a[0] == "max" else (y, x)
            f1, f2 = facts.add_ge(x - y), facts.add_ge(y - x)
            return (f1.unsat([x - y]) or same(f1, l.subst({a: hi}))) and (f2.unsat([y - x]) or same(f2, l.subst({a: lo})))
    return False


class ShapeDom(Dom):
    def __init__(self, table, pre=None):
        self.table, self.pre = table, pre
        self.enc = None

    def copy(self):
        return self

    def event(self, ex, st, kind, node, **kw):
        if kind == "entry":
            self.enc = Enc(ex, st.copy(), ex.func)
            self.enc.add_methods()
            if self.pre:
                self.pre(self, ex, st)

    def call(self, ex, st, fn, obj, args, node):
        c = self.table.get(fn.m)
        if c is None or fn.ctor:
            return NotImplemented
        f = ex.prog.funcs.get(fn.m)
        enc = CallEnc(ex, st, fn, obj, args)
        dims = []
        for where, terms in c:
            dims.append((where, [enc.dec(t) if t is not None else None for t in terms]))
        locs = [(w, d, args[w[1]] if w[0] == "p" and w[1] < len(args) else None) for w, d in dims]
        ok = []
        for cond in GUARDS.get(fn.m, ()):       # the call returned: its arguments were accepted
            l = enc.dec(cond)
            if l is not None:
                ok.append(l)
        r = ex.default_call(fn, obj, args, node, st)
        for l in ok:
            st.facts = st.facts.add_ge(-l - 1)
        for w, d, l in locs:
            tgt = r if w[0] == "ret" else l
            if isinstance(tgt, Loc) and is_box(tgt.t) and len(d) == ndims(tgt.t):
                full = tuple(x if x is not None else ex.dim(st, tgt, k) for k, x in enumerate(d))
                ex.set_shape(st, tgt, full)
        return r


def execute(prog, func, table, pre=None, depth=3, budget=300000):
    own = {m: c for m, c in table.items() if m != func.m}

    def inline(g, d):
        return d < depth and g.m not in table and (helper(g) or d < 2)
    ex = Exec(prog, inline, budget=budget)
    d = ShapeDom(table, pre)
    st = St()
    st.dom = d
    ex.func = func
    ex.stack = [func.m]
    ex.params = []
    ex.start_frame(func)
    for i, p in enumerate(func.ps):
        ex.params.append(ex.bind_param(st, p, None))
    if func.cls and not func.ref.sm:
        ex.this = Loc(Root("this", "this", func.cls, func.cm))
    d.event(ex, st, "entry", func.body)
    if func.ctor:
        ex.run_inits(func, st)
    outs = ex.stmt(func.body, [st])
    return ex, d.enc, [o for o in outs if o.flow in (None, "ret") and not o.facts.unsat()]


def dims_at(ex, o, func, where):
    """Dimensions of one output at exit state o (list of Lin or None)."""
    if where[0] == "p":
        l = o.env.get(func.ps[where[1]]["id"])
        if not isinstance(l, Loc):
            return None
        return [ex.dim(o, l, k) for k in range(ndims(l.t))]
    if where[0] == "ret":
        l = o.retval
        if not isinstance(l, Loc):
            return None
        return [ex.dim(o, l, k) for k in range(ndims(l.t))]
    e2 = Enc.__new__(Enc)
    e2.ex, e2.st, e2.func = ex, o, func
    v = e2.query(ex.this, func.cls, where[1])
    return [v] if v is not None else None


# Preconditions the functions rely on without checking them: the named operand is square
SQUARE = {"inv_trunc": "a", "plain_inv_trunc": "a", "newton_inv_trunc_FFT": "a", "newton_inv_trunc_middle_product": "a",
          "newton_inv_trunc_geometric": "a", "solve_series": "A", "solve_series_low_precision": "A", "solve_series_high_precision": "A",
          "solve_series_high_order_lifting": "A", "linsolve_via_series": "A", "matrix_pade_generic": "pmat", "matrix_pade_generic_iterative": "pmat",
          "matrix_pade_generic_recursion": "pmat", "high_order_lift_inverse_odd": "src"}


def PRE(f):
    """Entry assumptions: documented preconditions that the code does not check."""
    if f.n in ("mul", "mulTrunc") and any(p["t"].endswith("zz_pXY") for p in f.ps):
        i = next(j for j, p in enumerate(f.ps) if p["t"].endswith("zz_pXY"))

        def nonzero(dom, ex, st):       # the annihilating polynomial is not zero
            l = st.env.get(f.ps[i]["id"])
            if isinstance(l, Loc):
                st.facts = st.facts.add_ge(ex.dim(st, l.field("rep", ex.field_type(l.t, "rep")), 0) - 1)
        return nonzero
    nm = SQUARE.get(f.n)
    i = next((j for j, p in enumerate(f.ps) if p["n"] == nm and is_mat(p["t"])), None)
    if i is None:
        return None

    def pre(dom, ex, st):
        l = st.env.get(f.ps[i]["id"])
        if isinstance(l, Loc):
            d = ex.dim(st, l, 0) - ex.dim(st, l, 1)
            st.facts = st.facts.add_eq(d)
            for q in f.ps:      # right-hand sides have as many rows
                m = st.env.get(q["id"])
                if q["n"] == "b" and f.n != "high_order_lift_inverse_odd" and isinstance(m, Loc) and is_box(m.t):
                    st.facts = st.facts.add_eq(ex.dim(st, m, 0) - ex.dim(st, l, 0))
    return pre
