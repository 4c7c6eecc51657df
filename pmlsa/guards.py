"""Argument guards: under an assumed condition on the arguments every path must end in the
library's error exit; and no other condition leads there."""
from .absint import *
from .absint import _uid, old_cond
from .specs import Enc, show
from .load import walk
from .lin import Facts

ERR = {"NTL::LogicError", "NTL::Error", "NTL::ResourceError", "NTL::ArithmeticError", "NTL::InputError", "NTL::TerminalError"}


def raisers(prog):
    """Functions from which an error exit is reachable."""
    if hasattr(prog, "_raisers"):
        return prog._raisers
    from .api import reach_back
    seeds = set()
    for f in prog.funcs.values():
        for n in walk([f.body, f.inits]):
            if n.get("k") == "throw":
                seeds.add(f.m)
            m = n.get("fn")
            if m and m in prog.fns and prog.fns[m].q in ERR:
                seeds.add(f.m)
    prog._direct_raisers = set(seeds)
    prog._raisers = reach_back(prog, seeds)[0]
    return prog._raisers


class GuardDom(Dom):
    """taint: the path got past an error branch only under a condition the analysis cannot
    relate to the arguments."""

    def __init__(self, pre=None):
        self.pre = pre
        self.taint = False
        self.enc = None

    def copy(self):
        d = GuardDom(self.pre)
        d.taint, d.enc = self.taint, self.enc
        return d

    def same(self, o):
        return self.taint == o.taint

    def join(self, o, ex):
        if self.taint and not o.taint:
            return o
        return self

    def event(self, ex, st, kind, node, **kw):
        if kind == "entry":
            self.enc = Enc(ex, st.copy(), ex.func)
            self.enc.add_methods()
            if self.pre:
                self.pre(self, ex, st)
        elif kind == "branched":
            for a, b in ((kw["yes"], kw["no"]), (kw["no"], kw["yes"])):
                if all(x.flow == "throw" for x in a) and any(x.flow != "throw" for x in b):
                    if not known(kw["cond"], self.enc):
                        for x in b:
                            if x.flow != "throw":
                                x.dom = x.dom.copy()
                                x.dom.taint = True

    def call(self, ex, st, fn, obj, args, node):
        if fn is not None and fn.q not in ERR:
            rs = ex.prog._raisers
            f = ex.prog.funcs.get(fn.m)
            ov = ex.prog.overriders(fn.m) if fn.virt and not node.get("qual") else ()
            if fn.m in rs or any(o in rs for o in ov):
                if ov or f is None or not (ex.inline(f, ex.depth) and ex.can_inline(fn.m)):
                    st.dom = st.dom.copy()
                    st.dom.taint = True
        return NotImplemented

    def loop_end(self, ex, entry, ends, loop, is_do):
        return entry.dom


def known(c, enc):
    """Is the condition about the arguments alone (so that both outcomes are realisable)?"""
    if enc is None:
        return False
    if c.k == "const":
        return True
    if c.k in ("and", "or"):
        return known(c.a, enc) and known(c.b, enc)
    if c.k == "not":
        return known(c.a, enc)
    if c.k == "cmp":
        return enc.enc(c.b[0]) is not None and enc.enc(c.b[1]) is not None
    if c.k == "opq" and isinstance(c.a, tuple) and c.a and c.a[0] == "iszero":
        return c.a[2] == 0
    return False


def execute(prog, func, pre=None, depth=3, budget=400000):
    """All exit states (normal and error) of func; pre(dom, ex, st) may add entry facts."""
    rs = raisers(prog)

    def inline(g, d):
        return d < depth and (g.m in rs or g.n in ("NumRows", "NumCols", "length", "size") or helper(g))
    ex = Exec(prog, inline, budget=budget)
    d = GuardDom(pre)
    st = St()
    st.dom = d
    ex.func = func
    ex.stack = [func.m]
    ex.params = []
    ex.start_frame(func)
    for i, p in enumerate(func.ps):
        ex.params.append(ex.bind_param(st, p, None))
    if func.cls and not func.ref.sm:
        ex.this = Loc(Root("this", "this", func.cls, func.cm))
    d.event(ex, st, "entry", func.body)
    if func.ctor:
        ex.run_inits(func, st)
    outs = ex.stmt(func.body, [st])
    return ex, d.enc, outs


def error_conditions(enc, ex, outs):
    """Conjunctions of portable terms (>= 0) leading to an error exit, one list per exit whose
    condition is about the arguments alone; and the number of other error exits."""
    res, other = [], 0
    for t in [o for o in outs if o.flow == "throw"] + ex.raised:
        if t.facts.unsat():
            continue
        if t.dom.taint or t.bools:
            other += 1
            continue
        ge = [enc.enc(l) for l in t.facts.ge]
        ne = []
        for l in t.facts.ne:
            if -l not in ne:
                ne.append(l)
        en = [(enc.enc(l - 1), enc.enc(-l - 1)) for l in ne]
        if any(g is None for g in ge) or any(a is None for a, b in en):
            other += 1
            continue
        if len(en) > 3:
            other += 1
            continue
        alts = [[]]
        for a, b in en:
            alts = [x + [y] for x in alts for y in (a, b)]
        for alt in alts:
            res.append((ge + alt, t))
    return res, other


def unexplained(prog, func, specs, known_other=False):
    """Error exits reached under argument conditions that none of the known rejection
    conditions covers."""
    try:
        ex, enc, outs = execute(prog, func)
    except Limit:
        return None
    S = []
    for c in specs:
        ls = [enc.dec(t) for t in c]
        if any(l is None for l in ls):
            return None
        S.append(ls)
    res, other = error_conditions(enc, ex, outs)
    bad = []
    for conj, t in res:
        F = Facts()
        for c in conj:
            F = F.add_ge(enc.dec(c))
        if F.unsat():
            continue
        if all(flags_only(func, c) for c in conj):
            continue
        if not any(all(F.implies_ge(l) for l in ls) for ls in S):
            if known_other and any(not simple(a) for c in conj for k, a in c[:-1]):
                continue
            bad.append((conj, t))
    return bad


def simple(a):
    """Is the quantity a plain integer argument or a dimension of an argument?"""
    return a[0] != "modulus" and a[0] != "opq"


def flags_only(func, term):
    """Is the condition about option arguments (bool, enum) alone?"""
    return all(a[0] == "v" and a[1] < len(func.ps) and flag(func.ps[a[1]]["t"]) for k, a in term[:-1])


def flag(t):
    return t == "bool" or not is_int(t) or "::" in t


def helper(g):
    """Small loop-free helpers are interpreted in place."""
    if not hasattr(g, "_helper"):
        n, loops = 0, False
        for x in walk(g.body):
            n += 1
            loops = loops or x.get("k") in ("for", "while", "do", "rfor")
        g._helper = n < 150 and not loops
    return g._helper


class Vanished(Exception):
    pass


def rejects(prog, func, conds):
    """conds: list of portable terms, each meaning term >= 0.  'proved', 'unknown' or
    ('violated', trace)"""
    infeasible = []

    def pre(dom, ex, st):
        for c in conds:
            l = dom.enc.dec(c)
            if l is None:
                raise Vanished()
            st.facts = st.facts.add_ge(l)
        infeasible.append(st.facts.unsat())
    try:
        ex, enc, outs = execute(prog, func, pre)
    except Limit:
        return "unknown", "analysis budget exhausted"
    except Vanished:
        return "unknown", "the argument or dimension no longer exists"
    live = [o for o in outs if o.flow in (None, "ret") and not o.facts.unsat()]
    if not live:
        return "proved", None
    clean = [o for o in live if not o.dom.taint]
    if not clean:
        return "unknown", "a guard depends on a condition outside the analysed fragment"
    return "violated", clean[0]
