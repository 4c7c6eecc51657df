"""Alias safety: with OUT and IN bound to one object, no read through IN may see a write
made through OUT."""
from .absint import *
from .regions import *
from .lin import Lin
from .absint import _uid
from .load import walk


class AliasDom(Dom):
    def __init__(self, root, ins, sink):
        self.root, self.ins, self.sink = root, ins, sink
        self.w = ()

    def copy(self):
        d = AliasDom(self.root, self.ins, self.sink)
        d.w = self.w
        return d

    def same(self, o):
        return self.w == o.w or {r.key() for r in self.w} == {r.key() for r in o.w}

    def join(self, o, ex):
        if self.same(o):
            return self
        d = self.copy()
        ks = {r.key() for r in self.w}
        d.w = self.w + tuple(r for r in o.w if r.key() not in ks)
        return d

    def add(self, reg):
        if all(r.key() != reg.key() for r in self.w):
            self.w = self.w + (reg,)

    def write(self, ex, st, loc, node, how, src=None):
        if loc.root is not self.root:
            return
        if src is not None and src.root is self.root and src.sel == loc.sel:
            return
        if how == "resize":
            if is_mat(loc.t):
                self.add(Region(loc.sel, (), "content", node, "resize"))
            self.add(Region(loc.sel, (), "meta", node, "resize"))
        elif how in ("fill",):
            self.add(Region(loc.sel, (), "content", node, how))
        else:
            self.add(Region(loc.sel, (), "content", node, how))
            self.add(Region(loc.sel, (), "meta", node, how))

    def read(self, ex, st, loc, node, meta=False):
        if loc.root is not self.root or loc.via not in self.ins or ex.quiet:
            return
        for r in self.w:
            if meta:
                if r.kind != "meta":
                    continue
                # a dimension of loc changes only if loc or something containing it is replaced
                tgt = loc.sel + ((("f", "rep"),) if loc.t == "NTL::zz_pX" else ())
                if len(r.sel) > len(tgt):
                    continue
                if loc.sel and loc.sel[-1][0] == "i" and is_mat(loc.tn[-2]) and len(r.sel) == len(loc.sel):
                    continue
                v = overlaps(st.facts, r, tgt)
            else:
                if r.kind != "content":
                    continue
                v = overlaps(st.facts, r, loc.sel)
            if v != NO:
                self.sink.report(v, ex, st, loc, node, r, meta)

    def event(self, ex, st, kind, node, **kw):
        if kind == "swap":
            for l, o in ((kw["a"], kw["b"]), (kw["b"], kw["a"])):
                if l.root is self.root:
                    if l.via in self.ins:
                        self.read(ex, st, l, node)
                    self.add(Region(l.sel, (), "content", node, "swap"))
                    self.add(Region(l.sel, (), "meta", node, "swap"))

    def call(self, ex, st, fn, obj, args, node):
        return self.sink.call(self, ex, st, fn, obj, args, node)

    def loop_begin(self, ex, st, loop, ends, entry):
        old = {r.key() for r in self.w}
        mark = loop.it[1]
        t = Lin.atom(loop.it)
        for e in ends:
            if e.flow in ("ret", "throw", "break"):
                continue
            for r in e.dom.w:
                if r.key() in old:
                    continue
                if loop.lo is not None and abs(loop.step) == 1:
                    lo, hi = (loop.lo, t) if loop.step > 0 else (t + 1, loop.hi)
                elif loop.lo is not None:
                    lo, hi = Lin.const(0), t
                else:
                    lo, hi = Lin.const(0), t
                g = generalise(r, loop, mark, lo, hi)
                if g is r and not self.may_repeat(ex, st, loop):
                    continue
                if g is r:
                    # same place every iteration: written before unless this is the first one
                    g = Region(r.sel, r.b + ((("it", next(_uid)), lo, hi),), r.kind, r.node, r.note)
                self.add(g)

    def may_repeat(self, ex, st, loop):
        """Can the loop run a second iteration, as far as is known?"""
        if loop.lo is None or loop.hi is None:
            return True
        return not st.facts.implies_ge(loop.lo + 1 - loop.hi)

    def loop_end(self, ex, entry, ends, loop, is_do):
        d = entry.dom.copy()
        old = {r.key() for r in d.w}
        mark = loop.it[1]
        for e in ends:
            for r in e.dom.w:
                if r.key() in old:
                    continue
                if loop.lo is not None and abs(loop.step) == 1:
                    lo, hi = loop.lo, loop.hi
                else:
                    lo, hi = Lin.const(0), None
                # regions of "earlier iterations" are subsumed by the whole range
                if any(h is not None and loop.it in atoms_of(h) or l is not None and loop.it in atoms_of(l) for _, l, h in r.b) and not any(loop.it in atoms_of(s[1]) for s in r.sel if s[0] == "i"):
                    sub = []
                    for a, l, h in r.b:
                        if h is not None and loop.it in atoms_of(h):
                            sub.append((a, l, hi))
                        elif l is not None and loop.it in atoms_of(l):
                            sub.append((a, loop.lo, h))
                        else:
                            sub.append((a, l, h))
                    d.add(Region(r.sel, tuple(sub), r.kind, r.node, r.note))
                else:
                    d.add(generalise(r, loop, mark, lo, hi))
        return d


class Sink:
    def __init__(self, func, out, inn, table):
        self.func, self.out, self.inn, self.table = func, out, inn, table
        self.found = []
        self.unsafe_calls = []

    def report(self, v, ex, st, loc, node, reg, meta):
        self.found.append((v, node.get("l"), reg.line(), repr(loc), repr(reg), meta, ex.frame, st.trace))

    def call(self, dom, ex, st, fn, obj, args, node):
        f = ex.prog.funcs.get(fn.m)
        if f is None and not fn.repo:
            return NotImplemented
        # functions with an alias contract, or unanalysable ones
        outs = [(i, a) for i, a in enumerate(args) if isinstance(a, Loc) and a.root is dom.root and i < len(fn.ps) and fn.ps[i].get("ref") and not fn.ps[i].get("c")]
        ins = [(i, a) for i, a in enumerate(args) if isinstance(a, Loc) and a.root is dom.root and i < len(fn.ps) and (fn.ps[i].get("c") or not fn.ps[i].get("ref"))]
        if not outs or not ins:
            return NotImplemented
        for i, a in outs:
            for j, b in ins:
                if overlap(a.sel, b.sel):
                    if (fn.m, i, j) in self.table:
                        continue
                    ov = ex.prog.overriders(fn.m) if fn.virt else ()
                    if ov and all((o, i, j) in self.table for o in ov if o in ex.prog.funcs):
                        continue
                    if f is not None and ex.inline(f, ex.depth) and ex.can_inline(fn.m):
                        continue
                    self.unsafe_calls.append((fn, i, j, node.get("l"), ex.frame))
        return NotImplemented


def analyse(prog, func, i, j, table, inline):
    """Verdict for OUT parameter i aliasing IN parameter j."""
    t = func.ps[i]["t"]
    root = Root(func.ps[i]["n"], "param", t)
    sink = Sink(func, i, j, table)
    dom = AliasDom(root, {func.ps[j]["n"]}, sink)
    ex = Exec(prog, inline)
    ex.run(func, dom, {i: root, j: root})
    return sink


def unknown_atoms(s):
    return "u(" in s or "phi(" in s or "opq(" in s


def verdict(prog, f, i, j, table, depth=3):
    """('safe'|'unknown'|'violated', explanation) for OUT parameter i bound to the object of IN
    parameter j."""
    s = analyse(prog, f, i, j, table, lambda g, d: d < depth)
    sure = [x for x in s.found if x[0] == YES or x[0] == LIKELY and not unknown_atoms(x[3] + x[4])]
    if sure:
        x = sure[0]
        return "violated", "%s %s at line %s after the write at line %s (in %s)" % ("size of" if x[5] else "read of", x[3], x[1], x[2], getattr(x[6], "n", "?"))
    if s.found:
        x = s.found[0]
        return "unknown", "possible overlap: read of %s at line %s, write at line %s" % (x[3], x[1], x[2])
    if s.unsafe_calls:
        return "unknown", "in-place call of %s at line %s is not analysed" % (s.unsafe_calls[0][0].q, s.unsafe_calls[0][3])
    return "safe", None


def key(n):
    if isinstance(n, dict):
        return tuple((k, key(v)) for k, v in sorted(n.items()) if k not in ("l", "cq", "c"))
    if isinstance(n, list):
        return tuple(key(x) for x in n)
    return n


def pure(n):
    return all(x.get("k") in ("var", "mem", "idx", "cast", "this", "int", "call", None) and (x.get("k") != "call" or x.get("opc") in ("[]", "()")) for x in walk(n))


def pairs(f):
    for i, a in enumerate(f.ps):
        if not a.get("ref") or a.get("c") or is_int(a["t"]):
            continue
        for j, b in enumerate(f.ps):
            if i != j and b.get("ref") and b.get("c") and b["t"] == a["t"]:
                yield i, j


def inplace_calls(prog):
    """(callee, OUT, IN) -> call sites in the library passing one object for both."""
    used = {}
    for f in prog.funcs.values():
        for n in walk([f.body, f.inits]):
            m = n.get("fn")
            if n.get("k") == "call" and m in prog.funcs:
                a = n.get("a", [])
                for i, j in pairs(prog.funcs[m]):
                    if i < len(a) and j < len(a) and key(a[i]) == key(a[j]) and pure(a[i]):
                        used.setdefault((m, i, j), []).append("%s:%s" % (f.file, n.get("l")))
    return used
