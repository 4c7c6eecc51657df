"""Results do not depend on the previous content of the output object.

One output parameter (or the object under construction) is followed: `must` are the regions
certainly overwritten on the path, `may` those possibly overwritten, `holes` regions that some
path through a loop body certainly leaves alone.  A read of a place that cannot have been
written, or such a place at an exit, is a dependence on stale content."""
import json
from .absint import *
from .absint import _uid
from .regions import *
from .lin import Lin, Facts
from .load import walk

ALL = Region((), (), "content", None)


class Hole(Region):
    """A region left alone on some path, under linear conditions (>= 0) on its indices."""
    __slots__ = ("conds",)

    def __init__(self, sel, b, node, note, conds):
        Region.__init__(self, sel, b, "content", node, note)
        self.conds = tuple(conds)

    def key(self):
        return (self.sel, self.b, self.kind, self.conds)


def conditions(facts, reg, sel, extra=()):
    """None: disjoint.  Otherwise (conds, exact): the storage at sel is inside reg when all
    conds (>= 0) hold, and if exact only then."""
    binders = {a: (lo, hi) for a, lo, hi in reg.b}
    subst, conds, exact = {}, [], True
    if len(reg.sel) > len(sel):
        # reg is a part of the storage asked for: cannot cover, may touch
        exact = None
    for w, r in zip(reg.sel, sel):
        if w[0] != r[0] or (w[0] == "f" and w[1] != r[1]):
            return None
        if w[0] == "f":
            continue
        wi = subst_deep(w[1], subst)
        d = r[1] - wi
        free = [a for a in d.d if a in binders and a not in subst]
        if not free:
            if any(a in binders and a not in subst for a in atoms_of(wi)):
                exact = None
            elif d.is_const():
                if d.c:
                    return None
            else:
                conds += [d, -d]
            continue
        a = free[0]
        k = d.d[a]
        if len(free) == 1 and abs(k) == 1:
            val = (Lin({x: v for x, v in d.d.items() if x != a}, d.c)).scale(-1 if k > 0 else 1)
            lo, hi = (subst_deep(x, subst) for x in binders[a])
            if lo is None or hi is None:
                exact = None
            else:
                conds += [val - lo, hi - val - 1]
            subst[a] = val
        else:
            for b in free:
                lo, hi = (subst_deep(x, subst) for x in binders[b])
                if lo is not None and hi is not None:
                    conds += [hi - lo - 1]
            exact = None
    for a, (lo, hi) in binders.items():
        if a in subst or (lo is None or hi is None):
            continue
        lo, hi = subst_deep(lo, subst), subst_deep(hi, subst)
        if not any(x in binders and x not in subst for y in (lo, hi) for x in atoms_of(y)):
            conds.append(hi - lo - 1)
    conds = [subst_deep(c, subst) for c in conds]
    if any(a in binders and a not in subst for c in conds for a in atoms_of(c)):
        exact = None
    if facts.unsat(list(extra) + conds):
        return None
    return conds, exact


def covered(facts, regs, sel, extra=(), depth=6):
    """Is the storage at sel inside the union of regs, for sure?"""
    extra = list(extra)
    if facts.unsat(extra):
        return True
    cand = []
    for r in regs:
        c = conditions(facts, r, sel, extra)
        if c is None or c[1] is None:
            continue
        rest = [x for x in c[0] if not facts.implies_ge(x, extra)]
        if not rest:
            return True
        cand.append((len(rest), rest, r))
    if depth == 0:
        return False
    cand.sort(key=lambda x: x[0])
    for n, rest, r in cand[:3]:
        others = [x for x in regs if x is not r]
        if all(covered(facts, others, sel, extra + rest[:k] + [-x - 1], depth - 1) for k, x in enumerate(rest)):
            return True
    return False


def untouched(facts, regs, sel, extra=()):
    """Is it certain that no region meets the storage at sel?"""
    return all(conditions(facts, r, sel, extra) is None for r in regs)


def generic(ex, st, loc, depth=0):
    """(selectors, facts, dims) of every kind of leaf of the object, with generic indices."""
    t = loc.t
    if is_mat(t):
        i, j = Lin.atom(("g", next(_uid))), Lin.atom(("g", next(_uid)))
        n, m = ex.dim(st, loc, 0), ex.dim(st, loc, 1)
        for s, f, d in generic(ex, st, loc.at(i).at(j), depth + 1):
            yield s, [i, n - i - 1, j, m - j - 1] + f, [(i, n), (j, m)] + d
    elif is_vec(t):
        i = Lin.atom(("g", next(_uid)))
        n = ex.dim(st, loc, 0)
        for s, f, d in generic(ex, st, loc.at(i), depth + 1):
            yield s, [i, n - i - 1] + f, [(i, n)] + d
    elif t == "NTL::zz_pX":
        yield loc.sel, [], []
    else:
        fs = fields(ex.prog, t) if depth < 3 else []
        if not fs:
            yield loc.sel, [], []
        for n, ft in fs:
            for x in generic(ex, st, loc.field(n, ft), depth + 1):
                yield x


def fields(prog, t):
    c = prog.classes.get(t) if hasattr(prog, "classes") else None
    if not c:
        return []
    return [(x["n"], x["t"]) for x in c.get("fields", [])]


class FreshDom(Dom):
    def __init__(self, root, sink):
        self.root, self.sink = root, sink
        self.must = self.may = self.holes = ()

    def copy(self):
        d = FreshDom(self.root, self.sink)
        d.must, d.may, d.holes = self.must, self.may, self.holes
        return d

    def keys(self):
        return ({r.key() for r in self.must}, {r.key() for r in self.may}, {r.key() for r in self.holes})

    def same(self, o):
        return self.keys() == o.keys()

    def join(self, o, ex):
        if self.same(o):
            return self
        d = self.copy()
        d.must = common([self, o], Facts())
        d.may = union(self.may, o.may)
        d.holes = union(self.holes, o.holes)
        return d

    # ------------------------------------------------------------ effects
    def put(self, st, sel, node, must=True):
        r = Region(sel, (), "content", node)
        if sel == ():
            self.must = (ALL,) if must else self.must
            self.may = (ALL,)
            self.holes = ()
            return
        if must and all(x.key() != r.key() for x in self.must):
            self.must = self.must + (r,)
        self.may = union(self.may, (r,))
        if self.holes:
            self.holes = tuple(h for h in self.holes if disjoint(st.facts, r, h))

    def write(self, ex, st, loc, node, how, src=None):
        if loc.root is not self.root:
            return
        if src is not None and src.root is self.root and src.sel == loc.sel:
            return
        if how in ("resize", "append"):
            return
        if how == "rmw":
            self.put(st, loc.sel, node, False)
            return
        blk = getattr(ex, "fresh_block", None)
        if blk and blk[0] is node and loc.key() in blk[1]:
            self.put(st, loc.sel, node, False)
            return
        self.put(st, loc.sel, node)

    def event(self, ex, st, kind, node, **kw):
        if kind == "setlength":
            l = kw["loc"]
            if l.root is self.root and st.facts.implies_eq(kw["dims"][0]):
                self.put(st, l.sel, node)
        elif kind == "setdims":
            l = kw["loc"]
            if l.root is self.root and any(d is not None and st.facts.implies_eq(d) for d in kw["dims"]):
                self.put(st, l.sel, node)
        elif kind == "swap":
            a, b = kw["a"], kw["b"]
            if a.root is self.root and b.root is self.root:
                self.read(ex, st, a, node)
                self.read(ex, st, b, node)
                return
            for x in (a, b):
                if x.root is self.root:
                    self.put(st, x.sel, node)

    def read(self, ex, st, loc, node, meta=False):
        if meta or loc.root is not self.root or ex.quiet:
            return
        if self.must == (ALL,):
            return
        first = []
        for L in ex.loops:
            t = Lin.atom(L.it)
            if L.lo is not None and abs(L.step) == 1:
                e = t - L.lo if L.step > 0 else L.hi - 1 - t
            else:
                e = t
            first += [e, -e]
        for sel, fs, dims in generic(ex, st, loc):
            if covered(st.facts, self.must, sel, fs):
                continue
            if self.may == (ALL,):
                self.sink.unsure("read of %r at line %s" % (loc, node.get("l")))
                return
            ok = not st.facts.unsat(fs) and untouched(st.facts, self.may, sel, fs)
            if not ok:
                ok = first and not st.facts.unsat(fs + first) and untouched(st.facts, self.may, sel, fs + first)
            if ok and st.dom is self:
                self.sink.stale(ex, st, loc, node)
            else:
                self.sink.unsure("read of %r at line %s" % (loc, node.get("l")))
            return

    def call(self, ex, st, fn, obj, args, node):
        return self.sink.call(self, ex, st, fn, obj, args, node)

    # ------------------------------------------------------------ loops
    def span(self, loop):
        if loop.lo is not None and abs(loop.step) == 1:
            return loop.lo, loop.hi
        return None, None

    def loop_begin(self, ex, st, loop, ends, entry):
        t = Lin.atom(loop.it)
        mark = loop.it[1]
        lo, hi = self.span(loop)
        old = {r.key() for r in self.may}
        fall = [e for e in ends if e.flow in (None, "continue")]
        if lo is None:
            a, b = Lin.const(0), t
        else:
            a, b = (lo, t) if loop.step > 0 else (t + 1, hi)
        for e in fall:
            for r in e.dom.may:
                if r.key() in old:
                    continue
                g = generalise(r, loop, mark, a, b)
                if g is r:
                    g = Region(r.sel, r.b + ((("it", next(_uid)), a, b),), r.kind, r.node)
                self.may = union(self.may, (g,))
        if lo is not None and fall:
            oldm = {r.key() for r in self.must}
            for r in common([e.dom for e in fall], Facts()):
                if r.key() in oldm:
                    continue
                g = exact_general(r, loop, mark, a, b)
                if g is not None:
                    self.must = self.must + (g,)

    def loop_end(self, ex, entry, ends, loop, is_do):
        d = entry.dom.copy()
        lo, hi = self.span(loop)
        mark = loop.it[1]
        old = {r.key() for r in d.may}
        oldm = {r.key() for r in d.must}
        oldh = {r.key() for r in d.holes}
        t = Lin.atom(loop.it)
        brk = [e for e in ends if e.flow == "break"]
        allmay = []
        for e in ends:
            for r in e.dom.may:
                if r.key() not in old and not earlier(r, loop):
                    allmay.append(r)
        for r in allmay:
            d.may = union(d.may, (generalise(r, loop, mark, lo, hi) if lo is not None else generalise(r, loop, mark, Lin.const(0), None),))
        if lo is not None and ends and not brk:
            for r in common([e.dom for e in ends], Facts()):
                if r.key() in oldm or earlier(r, loop):
                    continue
                g = exact_general(r, loop, mark, lo, hi)
                if g is not None:
                    d.must = d.must + (g,)
        elif lo is None and is_do and ends and not brk:
            pass
        # places written on some paths of the body and certainly not on another one
        if lo is not None:
            for e in ends:
                if e.flow == "break" or e.dom.taint_free() is False:
                    continue
                cand = [r for r in allmay if all(r.key() != x.key() for x in e.dom.may)]
                cand = [r for r in cand if any(loop.it in atoms_of(s[1]) for s in r.sel if s[0] == "i")]
                for h in cand:
                    if self.stays(ex, e, h, allmay, loop, lo, hi):
                        g = general_hole(h, e, entry, loop, mark, lo, hi)
                        if g is not None:
                            g.note = "line %s" % (h.node or {}).get("l")
                            d.holes = union(d.holes, (g,))
                for h in e.dom.holes:
                    if h.key() in oldh:
                        continue
                    if self.elsewhere(e, h, allmay, loop, lo, hi):
                        g = general_hole(h, e, entry, loop, mark, lo, hi)
                        if g is not None:
                            d.holes = union(d.holes, (g,))
        return d

    def taint_free(self):
        return True

    def stays(self, ex, e, h, allmay, loop, lo, hi):
        """Does the path ending in e certainly leave region h alone, in this and every other
        iteration?"""
        sel, fs = instantiate(h)
        if e.facts.unsat(fs):
            return False
        # the extreme instance is enough: the element must be certainly unwritten
        if not untouched(e.facts, [r for r in e.dom.may], sel, fs):
            return False
        return self.elsewhere(e, h, allmay, loop, lo, hi)

    def elsewhere(self, e, h, allmay, loop, lo, hi):
        sel, fs = instantiate(h)
        t2 = Lin.atom(("it", next(_uid)))
        t = Lin.atom(loop.it)
        for r in allmay:
            r2 = rename(r, loop, t2)
            if r2 is None:
                return False
            for c in (t2 - t - 1, t - t2 - 1):
                if conditions(e.facts, r2, sel, fs + [c, t2 - lo, hi - t2 - 1]) is not None:
                    return False
        return True


def earlier(r, loop):
    """Is r the trace of earlier iterations (a bound on a binder is the iteration variable)?"""
    return any(any(x is not None and loop.it in atoms_of(x) for x in (l, h)) for _, l, h in r.b) and not any(loop.it in atoms_of(s[1]) for s in r.sel if s[0] == "i")


def rename(r, loop, t2):
    m = {loop.it: t2}
    for a, _, _ in r.b:
        m[a] = Lin.atom(("it", next(_uid)))
    # values computed inside the body differ between iterations
    for s in r.sel:
        if s[0] == "i":
            for a in atoms_of(s[1]):
                if a not in m and isinstance(a, tuple) and len(a) == 2 and a[0] in ("u", "phi", "nonneg") and isinstance(a[1], int) and a[1] > loop.it[1]:
                    return None
    sel = tuple((s[0], subst_deep(s[1], m)) if s[0] == "i" else s for s in r.sel)
    return Region(sel, tuple((next(iter(m[a].d)), subst_deep(l, m), subst_deep(h, m)) for a, l, h in r.b), r.kind, r.node)


def instantiate(r):
    m, fs = {}, []
    for a, lo, hi in r.b:
        x = Lin.atom(("g", next(_uid)))
        m[a] = x
    for a, lo, hi in r.b:
        if lo is not None:
            fs.append(m[a] - subst_deep(lo, m))
        if hi is not None:
            fs.append(subst_deep(hi, m) - m[a] - 1)
    for c in getattr(r, "conds", ()):
        fs.append(subst_deep(c, m))
    return tuple((s[0], subst_deep(s[1], m)) if s[0] == "i" else s for s in r.sel), fs


def general_hole(h, e, entry, loop, mark, lo, hi):
    """The hole h seen at the end e of an iteration, for some iteration of the loop."""
    conds = list(getattr(h, "conds", ()))
    inner = {a for a, _, _ in h.b}
    mine = {loop.it} | inner
    for c in e.facts.ge:
        if c not in entry.facts.ge and any(a in mine for a in atoms_of(c)):
            conds.append(c)
    # conditions on other values of the body cannot be kept
    conds = [c for c in conds if all(a in mine or not local(a, mark) for a in atoms_of(c))]
    m = {a: Lin.atom(("it", next(_uid))) for a in mine}
    for s in h.sel:
        if s[0] == "i" and any(local(a, mark) and a not in mine for a in atoms_of(s[1])):
            return None
    b = [(next(iter(m[loop.it].d)), lo, hi)]
    for a, l, u in h.b:
        if l is None or u is None or any(local(x, mark) and x not in mine for y in (l, u) for x in atoms_of(y)):
            return None
        b.append((next(iter(m[a].d)), subst_deep(l, m), subst_deep(u, m)))
    sel = tuple((s[0], subst_deep(s[1], m)) if s[0] == "i" else s for s in h.sel)
    return Hole(sel, tuple(b), h.node, h.note, [subst_deep(c, m) for c in conds])


def local(a, mark):
    return isinstance(a, tuple) and len(a) == 2 and a[0] in ("u", "phi", "it", "nonneg", "g") and isinstance(a[1], int) and a[1] > mark


def exact_general(r, loop, mark, lo, hi):
    """The union of r over all iterations, or None when r depends on values that are not a
    function of the iteration."""
    atoms = set()
    for s in r.sel:
        if s[0] == "i":
            atoms |= atoms_of(s[1])
    for a, l, h in r.b:
        for x in (l, h):
            if x is None:
                return None
            atoms |= atoms_of(x)
    bound = {a for a, _, _ in r.b}
    for a in atoms:
        if a == loop.it or a in bound:
            continue
        if isinstance(a, tuple) and len(a) == 2 and a[0] in ("u", "phi", "it", "nonneg", "g") and isinstance(a[1], int) and a[1] > mark:
            return None
    g = generalise(r, loop, mark, lo, hi)
    if g is r:
        # same place in every iteration: written if there is one
        return Region(r.sel, r.b + ((("it", next(_uid)), lo, hi),), r.kind, r.node)
    return g


def union(a, b):
    ks = {r.key() for r in a}
    return a + tuple(r for r in b if r.key() not in ks)


def common(doms, facts):
    """Regions certainly written in every one of the states."""
    if len(doms) == 1:
        return doms[0].must
    out = []
    for k, d in enumerate(doms):
        for r in d.must:
            if any(r.key() == x.key() for x in out):
                continue
            ok = True
            for o in doms:
                if o is d or any(r.key() == x.key() for x in o.must):
                    continue
                sel, fs = instantiate(r)
                if not covered(facts, o.must, sel, fs, 2):
                    ok = False
                    break
            if ok:
                out.append(r)
    return tuple(out)


def disjoint(facts, r, h):
    sel, fs = instantiate(h)
    return conditions(facts, r, sel, fs) is None


class FreshSink:
    def __init__(self, table, depth=3):
        self.table = table
        self.found, self.doubt = [], []

    def stale(self, ex, st, loc, node):
        self.found.append("line %s reads %r before anything is stored there (in %s)" % (node.get("l"), loc, getattr(ex.frame, "n", "?")))

    def unsure(self, s):
        self.doubt.append(s)

    def call(self, dom, ex, st, fn, obj, args, node):
        if not fn.repo and ex.prog.funcs.get(fn.m) is None:
            return NotImplemented
        f = ex.prog.funcs.get(fn.m)
        virt = fn.virt and not node.get("qual") and ex.prog.overriders(fn.m)
        mine = [(i, a) for i, a in enumerate(args) if isinstance(a, Loc) and a.root is dom.root and i < len(fn.ps) and (fn.ps[i].get("ref") or fn.ps[i].get("ptr")) and not fn.ps[i].get("c")]
        ptrs = [(i, a) for i, a in enumerate(args) if isinstance(a, (Ptr, Addr)) and a.loc is not None and a.loc.root is dom.root]
        if not mine and not ptrs:
            return NotImplemented
        if mine and all((fn.m, i) in self.table for i, a in mine) and not ptrs:
            ms = [fn.m] + [o for o in ex.prog.overriders(fn.m)] if virt else [fn.m]
            if all((m, i) in self.table for m in ms for i, a in mine if m in ex.prog.funcs or m == fn.m):
                if virt or not (f is not None and ex.inline(f, ex.depth) and ex.can_inline(fn.m)):
                    return NotImplemented     # overwritten as a whole, not read
                return ex.default_call(fn, obj, args, node, st)
        if f is not None and not virt and ex.inline(f, ex.depth) and ex.can_inline(fn.m):
            return NotImplemented
        blk = {a.key() for i, a in mine if (fn.m, i) not in self.table}
        if blk:
            for i, a in mine:
                if a.key() in blk and not ex.quiet:
                    self.unsure("call of %s at line %s" % (fn.q, node.get("l")))
            ex.fresh_block = (node, blk)
        return NotImplemented


def analyse(prog, func, i, table, depth=3, pre=None):
    """('fresh'|'unknown'|'stale', explanation) for output parameter i (or 'this')."""
    sink = FreshSink(table)
    if i == "this":
        root = None
    else:
        root = Root(func.ps[i]["n"], "param", func.ps[i]["t"])
    dom = FreshDom(root, sink)
    ex = Exec(prog, lambda g, d: d < depth)
    outs = ex.run(func, dom, {i: root}) if i != "this" else None
    outs = [o for o in outs if o.flow in (None, "ret") and not o.facts.unsat()]
    if sink.found:
        return "stale", sink.found[0]
    if not outs:
        return "unknown", "no normal exit"
    doubt = list(sink.doubt)
    for o in outs:
        d = o.dom
        if d.must == (ALL,) or failed(func, o):
            continue
        for h in d.holes:
            sel, fs = instantiate(h)
            fs = fs + within(ex, o, Loc(root), sel)
            if not o.facts.unsat(fs):
                return "stale", "%s%s is left as it was on some path (it is written at %s otherwise)" % (func.ps[i]["n"], text(h), h.note)
        for sel, fs, dims in generic(ex, o, Loc(root)):
            if covered(o.facts, d.must, sel, fs):
                continue
            p = probe(o.facts, d.may, sel, fs, dims)
            if p and not any(opaque(n) for _, n in dims):
                return "stale", "%s%s still has its previous content at an exit" % (func.ps[i]["n"], p)
            doubt.append("exit: coverage of %s" % "".join("[%s]" % s[1] if s[0] == "i" else "." + s[1] for s in sel))
    if doubt:
        return "unknown", doubt[0]
    return "fresh", None


def within(ex, o, loc, sel):
    """Facts saying that sel exists in the object."""
    fs = []
    k = 0
    while k < len(sel):
        s = sel[k]
        if s[0] == "f":
            t = "NTL::Vec<NTL::zz_p>" if loc.t == "NTL::zz_pX" else ex.field_type(loc.t, s[1])
            loc = loc.field(s[1], t)
            k += 1
            continue
        if is_mat(loc.t):
            fs += [s[1], ex.dim(o, loc, 0) - s[1] - 1]
            if k + 1 < len(sel):
                fs += [sel[k + 1][1], ex.dim(o, loc, 1) - sel[k + 1][1] - 1]
                loc = loc.at(s[1]).at(sel[k + 1][1])
                k += 2
                continue
            return fs
        if is_vec(loc.t):
            fs += [s[1], ex.dim(o, loc, 0) - s[1] - 1]
        loc = loc.at(s[1])
        k += 1
    return fs


def failed(func, o):
    """Does the exit report failure (status 0)?  Nothing is promised about outputs then."""
    v = o.retval
    return (is_int(func.rt) or func.rt == "bool") and (isinstance(v, Lin) and o.facts.implies_eq(v) or isinstance(v, Cond) and v.k == "const" and not v.a)


def opaque(n):
    """Is the dimension a value nothing is known about (the object may well be empty)?"""
    return any(isinstance(a, tuple) and a and a[0] in ("u", "phi", "nonneg") for a in atoms_of(n))


def probe(facts, may, sel, fs, dims):
    """A place certainly not written: the generic one, or one at the ends of the index ranges."""
    opts = [[]]
    for x, n in dims[:2]:
        opts = [o + [c] for o in opts for c in (None, (x, Lin.const(0)), (x, n - 1))]
    if len(dims) >= 2:
        opts.append([(dims[0][0], dims[1][0])])
    for o in opts:
        e = list(fs)
        for c in o:
            if c:
                d = c[0] - c[1]
                e += [d, -d]
        if len(dims) >= 2 and o[0] and o[1:] and o[1]:
            e += [n - 2 for _, n in dims[:2]]    # an instance is enough: not the 1 x 1 case
        if facts.unsat(e):
            continue
        if untouched(facts, may, sel, e):
            m = {}
            for c in o:
                if c:
                    m[next(iter(c[0].d))] = c[1]
            return "".join("[%s]" % subst_deep(s[1], m) if s[0] == "i" else "." + s[1] for s in sel)
    return None


def text(r):
    return "".join("[%s]" % s[1] if s[0] == "i" else "." + s[1] for s in r.sel)


def outputs(f):
    """Positions of the parameters an operation can deliver results through."""
    return [i for i, p in enumerate(f.ps) if p.get("ref") and not p.get("c") and not p["t"].startswith("std::basic_o") and "stream" not in p["t"]]
