"""Path-sensitive abstract interpreter over the extracted syntax trees.

Integers are linear terms (lin.py); objects are roots plus access paths (Loc); what an
analysis tracks about objects is delegated to a Dom (domain) object carried by each
abstract state.  Loops are interpreted once from a generalised state (modified variables
are replaced by fresh symbols, counting variables by bounded symbols).  Calls of helper
functions are interpreted in place; calls of functions with a contract use the contract."""
import itertools, re
from .lin import Lin, Facts, pow2
from .load import walk

class Counter:
    """Fresh numbers; restarted for each analysed function."""

    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


_uid = Counter()


def fresh(kind="u"):
    return Lin.atom((kind, next(_uid)))


INTS = {"long", "int", "unsigned long", "unsigned int", "bool", "short", "char", "unsigned char", "unsigned short", "long long", "unsigned long long", "size_t"}


def is_int(t):
    return t in INTS


def is_mat(t):
    return t.startswith("NTL::Mat<")


def is_vec(t):
    return t.startswith("NTL::Vec<") or t.startswith("std::vector<")


def targ(t):
    """First template argument."""
    i = t.find("<")
    if i < 0:
        return ""
    d, s = 0, i + 1
    for k in range(i + 1, len(t)):
        ch = t[k]
        if ch == "<":
            d += 1
        elif ch == ">":
            if d == 0:
                return t[s:k].strip()
            d -= 1
        elif ch == "," and d == 0:
            return t[s:k].strip()
    return ""


def elem_type(t):
    if is_mat(t):
        return "NTL::Vec<" + targ(t) + ">"
    if is_vec(t):
        return targ(t)
    if t == "NTL::zz_pX":
        return "NTL::zz_p"
    if t.endswith("*"):
        return t[:-1].strip()
    m = re.match(r"(.*)\[\d+\]$", t)
    if m:
        return m.group(1)
    if t.startswith("NTL::UniqueArray<"):
        return targ(t)
    return "?"


class Root:
    __slots__ = ("id", "name", "kind", "t", "const")

    def __init__(self, name, kind, t, const=False):
        self.id, self.name, self.kind, self.t, self.const = next(_uid), name, kind, t, const

    def __repr__(self):
        return self.name


class Loc:
    """root + selectors.  ts[k] is the type after k selectors."""
    __slots__ = ("root", "sel", "t", "via", "tn", "cst")

    def __init__(self, root, sel=(), t=None, via=None, tn=None, cst=False):
        self.root, self.sel = root, sel
        self.t = t if t is not None else root.t
        self.via = via or root.name
        self.tn = tn if tn is not None else ((self.t,) if not sel else None)
        self.cst = cst

    def at(self, i):
        if self.t == "NTL::zz_pX":
            return self.field("rep", "NTL::Vec<NTL::zz_p>").at(i)
        if self.t.startswith("NTL::Vec<") or self.t.startswith("std::vector<") or is_mat(self.t):
            et = elem_type(self.t)
        else:
            et = elem_type(self.t)
        return Loc(self.root, self.sel + (("i", i),), et, self.via, self.tn + (et,), self.cst)

    def field(self, f, t):
        return Loc(self.root, self.sel + (("f", f),), t, self.via, self.tn + (t,), self.cst)

    def parent(self):
        return Loc(self.root, self.sel[:-1], self.tn[-2], self.via, self.tn[:-1], self.cst)

    def key(self):
        return (self.root.id, self.sel)

    def __repr__(self):
        return str(self.via) + "".join("[%s]" % s[1] if s[0] == "i" else "." + s[1] for s in self.sel)


class Ptr:
    """Pointer to element `off` of the array at loc (loc=None: unknown)."""
    __slots__ = ("loc", "off")

    def __init__(self, loc, off=None):
        self.loc, self.off = loc, off

    def __repr__(self):
        return "&%s+%s" % (self.loc, self.off)


class Addr:
    """Address of an object."""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Iter:
    __slots__ = ("loc", "end", "off")

    def __init__(self, loc, end=False, off=None):
        self.loc, self.end, self.off = loc, end, off


class Lam:
    __slots__ = ("node", "env")

    def __init__(self, node, env):
        self.node, self.env = node, env


# conditions
class Cond:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def key(self):
        return (self.k, self.a.key() if isinstance(self.a, Cond) else self.a, self.b.key() if isinstance(self.b, Cond) else self.b)

    def __repr__(self):
        return "%s(%s,%s)" % (self.k, self.a, self.b)


def lin_atoms(x, out):
    """Atoms of the integer values inside a structured key."""
    if isinstance(x, Lin):
        out.update(x.d)
    elif isinstance(x, Cond):
        lin_atoms(x.a, out)
        lin_atoms(x.b, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            lin_atoms(y, out)


TRUE, FALSE = Cond("const", True), Cond("const", False)


ANY = ("i", "*")        # index of an arbitrary element


def fields_of(sel):
    """Leading field names of a selector list."""
    out = []
    for s in sel:
        if s[0] != "f":
            break
        out.append(s[1])
    return tuple(out)


class St:
    __slots__ = ("env", "facts", "bools", "shape", "ver", "dver", "dom", "flow", "retval", "trace", "frames")

    def __init__(self):
        self.env, self.facts, self.bools, self.shape = {}, Facts(), {}, {}
        self.ver, self.dver = {}, {}
        self.dom, self.flow, self.retval, self.trace, self.frames = None, None, None, (), ()

    def copy(self):
        s = St()
        s.env, s.facts, s.bools, s.shape = dict(self.env), self.facts, dict(self.bools), dict(self.shape)
        s.ver, s.dver = dict(self.ver), dict(self.dver)
        s.dom = self.dom.copy() if self.dom else None
        s.flow, s.retval, s.trace, s.frames = self.flow, self.retval, self.trace, self.frames
        return s

    def dead(self):
        return self.flow is not None


class Dom:
    """Default domain: tracks nothing."""

    def copy(self):
        return self

    def same(self, o):
        return True

    def join(self, o, ex):
        return self

    def read(self, ex, st, loc, node, meta=False):
        pass

    def write(self, ex, st, loc, node, how, src=None):
        pass

    def call(self, ex, st, fn, obj, args, node):
        """Return NotImplemented to use the default model."""
        return NotImplemented

    def event(self, ex, st, kind, node, **kw):
        pass

    def loop_begin(self, ex, st, loop, ends, entry):
        pass

    def loop_end(self, ex, entry, ends, loop, is_do):
        """Domain value after the loop; ends are the body-end states (in-loop symbols)."""
        d = entry.dom
        for e in ends:
            d = d.join(e.dom, ex)
        return d


class LamFunc:
    """A lambda seen as a function."""

    def __init__(self, node, frame):
        self.node, self.ps, self.body, self.rt = node, node["ps"], node["body"], node.get("rt", "?")
        self.m, self.q, self.n, self.cls, self.ctor, self.inits, self.cm = "lambda:%s" % node.get("l"), "lambda", "lambda", None, False, [], False
        self.file, self.line, self.frame = frame.file, node.get("l"), frame
        self.rel = frame.rel

    def sig(self):
        return self.frame.sig()

    def where(self, line=None):
        return self.frame.where(line or self.line)


class Loop:
    __slots__ = ("node", "it", "lo", "hi", "step", "var", "modified", "npaths", "inv_ids", "order", "first_uid")

    def __init__(self, node):
        self.node = node
        self.it = self.lo = self.hi = self.step = self.var = None
        self.first_uid = None


class Limit(Exception):
    pass


RMW_OPS = {"+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "++", "--"}
CMP = {"<", "<=", ">", ">=", "==", "!="}
PURE_INT = {"NTL::NumBits", "NTL::weight", "std::sqrt", "ceil", "floor", "sqrt", "cbrt", "log2", "std::ceil", "std::floor", "std::log2", "std::pow", "pow", "std::abs", "abs", "std::cbrt", "log", "std::log"}

# std algorithms: argument positions that are written through (output iterators)
ALG = {
    "std::iota": ("assign", [0]), "std::fill": ("assign", [0]), "std::fill_n": ("assign", [0]),
    "std::sort": ("rmw", [0]), "std::stable_sort": ("rmw", [0]), "std::reverse": ("rmw", [0]),
    "std::rotate": ("rmw", [0]), "std::transform": ("assign", [-2]), "std::copy": ("assign", [2]),
    "std::copy_n": ("assign", [2]), "std::for_each": ("rmw", [0]), "std::partial_sum": ("assign", [2]),
    "std::generate": ("assign", [0]), "std::unique": ("rmw", [0]), "std::remove": ("rmw", [0]),
}

# NTL functions whose non-const argument k is read as well as written
RMW_ARG = {"NTL::SetCoeff": [0], "NTL::gauss": [0], "NTL::FromfftRep": [1], "NTL::append": [0],
           "NTL::normalize": [0], "NTL::MakeMonic": [0], "NTL::swap": [0, 1], "std::swap": [0, 1],
           "NTL::VectorCopy": [], "NTL::sp_accum": [0], "NTL::ll_mul_add": [0], "NTL::ll_add": [0], "NTL::HalfGCD": []}


class Exec:
    """Interprets one function for one domain."""

    def __init__(self, prog, inline=None, max_states=24, max_depth=5, budget=400000):
        self.prog = prog
        self.inline = inline or (lambda f, depth: False)
        self.max_states, self.max_depth = max_states, max_depth
        self.depth, self.stack = 0, []
        self.budget = budget
        self.steps = 0
        self.this = None
        self.quiet = 0          # >0: domains must not report (dry passes)
        self.loops = []
        self.raised = []        # error exits inside inlined calls

    # ---------------------------------------------------------------- entry
    def run(self, func, dom, bind=None, this_const=None):
        """Interpret func from a generic state.  bind: param index -> Root (to force aliasing).
        Returns the list of exit states."""
        st = St()
        st.dom = dom
        self.func = func
        self.stack = [func.m]
        self.params = []
        self.start_frame(func)
        for i, p in enumerate(func.ps):
            root = (bind or {}).get(i)
            self.params.append(self.bind_param(st, p, root))
        if func.cls and not func.ref.sm:
            self.this = Loc(Root("this", "this", func.cls, func.cm))
        if func.ctor:
            self.run_inits(func, st)
        dom.event(self, st, "entry", func.body)
        out = self.stmt(func.body, [st])
        return [s for s in out if s.flow in (None, "ret")]

    def start_frame(self, func):
        self.frame = func

    def run_inits(self, func, st):
        for i in func.inits:
            e = i.get("e")
            if "f" in i:
                fi = self.field_type(func.cls, i["f"])
                loc = self.this.field(i["f"], fi)
                v = self.eval(e, st) if e else None
                if is_int(fi):
                    self.store(st, loc, v, i.get("e") or {"l": func.line})
                elif isinstance(v, Loc):
                    self.assign_obj(st, loc, v, e)
                else:
                    self.note_write(st, loc, e or {"l": func.line}, "assign")
            elif e and (i.get("delegate") or i.get("base")) and e.get("k") == "ctor" and e.get("fn") in self.prog.funcs \
                    and self.depth < self.max_depth + 2 and self.this is not None:
                # delegated and base class constructors fill this very object
                self.inline_call(self.prog.funcs[e["fn"]], self.this, [self.eval(a, st) for a in e.get("a", [])], e, st)
            elif e:
                self.eval(e, st)

    def field_type(self, cls, f):
        c = self.prog.classes.get(cls)
        if c:
            for x in c["fields"]:
                if x["n"] == f:
                    return x["t"] if not x.get("ptr") else x["t"] + " *"
            for b in c["bases"]:
                t = self.field_type(b, f)
                if t != "?":
                    return t
        return "?"

    def bind_param(self, st, p, root=None):
        t = p["t"]
        if p.get("ptr"):
            r = root or Root(p["n"] or "arg", "param", t + " *", p.get("c"))
            st.env[p["id"]] = Ptr(Loc(r, (), t + " *"), Lin.const(0))
            return r
        if is_int(t) and not p.get("ref"):
            st.env[p["id"]] = Lin.atom(("v", p["n"], p["id"]))
            return None
        if self.is_enum(t):
            st.env[p["id"]] = Lin.atom(("v", p["n"], p["id"]))
            return None
        if root is None:
            root = Root(p["n"] or "arg", "param", t, p.get("c") and p.get("ref"))
        st.env[p["id"]] = Loc(root, (), t, p["n"], None, bool(p.get("c")))
        return root

    def is_enum(self, t):
        return t.startswith("PML::") and t not in self.prog.classes and "<" not in t and "_" not in t.split("::")[-1] and not t.endswith("*")

    # ---------------------------------------------------------------- notes
    def bump(self, st, loc):
        st.ver[loc.root.id] = next(_uid)

    def note_read(self, st, loc, node, meta=False):
        st.dom.read(self, st, loc, node, meta)

    def note_write(self, st, loc, node, how, src=None):
        """how: assign (old content irrelevant), rmw, resize (metadata; keeps content),
        elem-level writes are assigns of the element Loc."""
        st.dom.write(self, st, loc, node, how, src)
        self.bump(st, loc)
        self.kill_shape(st, loc)
        if how not in ("resize", "append"):
            self.kill_cells(st, loc)

    def kill_cells(self, st, loc):
        rid, d = loc.root.id, len(loc.sel)
        for k in [k for k in st.env if isinstance(k, tuple) and k[0] == "cell" and k[1][0] == rid and len(k[1][1]) >= d and overlap(k[1][1][:d], loc.sel)]:
            del st.env[k]

    def kill_shape(self, st, loc):
        d = len(loc.sel)
        rid = loc.root.id
        for k in [k for k in st.shape if k[0] == rid and len(k[1]) >= d and overlap(k[1][:d], loc.sel)]:
            del st.shape[k]
        self.bump_dims(st, rid, fields_of(loc.sel), d)

    def bump_dims(self, st, rid, fp, d):
        u = next(_uid)
        for dd in range(d, 8):
            st.dver[(rid, fp, dd)] = u

    def dver_of(self, st, loc):
        """Version of the dimensions of loc: the latest write to it or to something holding it."""
        f, n, rid = fields_of(loc.sel), len(loc.sel), loc.root.id
        return max(st.dver.get((rid, f[:k], n), 0) for k in range(len(f) + 1))

    def dim(self, st, loc, k):
        """Lin for dimension k of the container at loc."""
        t = loc.t
        if t == "NTL::zz_pX":
            return self.dim(st, loc.field("rep", "NTL::Vec<NTL::zz_p>"), 0)
        # row of a matrix
        if loc.sel and loc.sel[-1][0] == "i" and is_mat(loc.tn[-2]):
            return self.dim(st, loc.parent(), 1)
        s = st.shape.get(loc.key())
        if s and k < len(s) and s[k] is not None:
            return s[k]
        # all elements of an array have these dimensions
        if loc.sel and loc.sel[-1][0] == "i":
            s = st.shape.get((loc.root.id, loc.sel[:-1] + (ANY,)))
            if s and k < len(s) and s[k] is not None:
                return s[k]
        return Lin.atom(("dim", loc.root.name + "#%d" % loc.root.id, loc.sel, k, self.dver_of(st, loc)))

    def set_shape(self, st, loc, dims):
        st.shape[loc.key()] = tuple(dims)

    def copy_shape(self, st, dst, src):
        """Shapes below src are copied below dst (src itself included)."""
        n = len(src.sel)
        if is_mat(src.t):
            self.set_shape(st, dst, (self.dim(st, src, 0), self.dim(st, src, 1)))
        elif is_vec(src.t):
            self.set_shape(st, dst, (self.dim(st, src, 0),))
        elif src.t == "NTL::zz_pX":
            self.set_shape(st, dst.field("rep", "NTL::Vec<NTL::zz_p>"), (self.dim(st, src, 0),))
        if src.t != "NTL::zz_pX":
            for k, v in list(st.shape.items()):
                if k[0] == src.root.id and k[1][:n] == src.sel and len(k[1]) > n:
                    st.shape[(dst.root.id, dst.sel + k[1][n:])] = v
        self.copy_cells(st, dst, src)

    def copy_cells(self, st, dst, src):
        """Integer fields of a copied object, when they are known or can be named."""
        if is_mat(src.t) or is_vec(src.t) or src.t not in self.prog.classes:
            return
        n = len(src.sel)
        for k, v in list(st.env.items()):
            if isinstance(k, tuple) and k[0] == "cell" and k[1][0] == src.root.id and k[1][1][:n] == src.sel and len(k[1][1]) > n:
                st.env[("cell", (dst.root.id, dst.sel + k[1][1][n:]))] = v

    def new_tmp(self, st, t, name="tmp"):
        return Loc(Root(name, "tmp", t))

    # ---------------------------------------------------------------- expressions
    def lin(self, v):
        """Integer value as Lin (opaque if unknown)."""
        if isinstance(v, Lin):
            return v
        if isinstance(v, Cond):
            if v.k == "const":
                return Lin.const(1 if v.a else 0)
            return Lin.atom(("b", v.key()))
        return fresh()

    def eval_int(self, e, st):
        return self.lin(self.eval(e, st))

    def eval(self, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Limit()
        if e is None:
            return None
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        v = m(e, st) if m else self.e_other(e, st)
        return v

    def e_int(self, e, st):
        v = int(e["v"])
        if e.get("bool"):
            return TRUE if v else FALSE
        return Lin.const(v)

    def e_float(self, e, st):
        return None

    def e_str(self, e, st):
        return None

    def e_null(self, e, st):
        return Lin.const(0)

    def e_this(self, e, st):
        return Addr(self.this)

    def e_var(self, e, st):
        v = st.env.get(e["id"])
        if v is None:
            if "cv" in e:
                return Lin.const(int(e["cv"]))
            if e.get("vk") == "g":
                q = e.get("q", e["n"])
                if is_int(e.get("t", "")):
                    return Lin.atom(("glob", q))
                return Loc(Root(q, "global", e.get("t", "?"), e.get("cq")))
            t = e.get("t", "?")
            if is_int(t):
                v = fresh()
            else:
                v = Loc(Root(e["n"], "local", t))
            st.env[e["id"]] = v
        return v

    def load(self, st, v, e):
        """Read a scalar through a Loc."""
        if isinstance(v, Loc) and is_int(v.t):
            return self.load_int(st, v, e)
        return v

    def load_int(self, st, loc, e):
        s = st.env.get(("cell", loc.key()))
        if s is not None:
            return s
        a = Lin.atom(("cell", loc.root.name + "#%d" % loc.root.id, loc.sel, st.ver.get(loc.root.id, 0)))
        return a

    def rv(self, e, st):
        """Evaluate for its value: integer loads and object reads are noted."""
        v = self.eval(e, st)
        return self.consume(v, e, st)

    def consume(self, v, e, st):
        if isinstance(v, Loc):
            if v.root.kind != "tmp":
                self.note_read(st, v, e)
            if is_int(v.t):
                return self.load_int(st, v, e)
        return v

    def e_mem(self, e, st):
        b = self.eval(e["b"], st)
        if isinstance(b, Addr):
            b = b.loc
        if isinstance(b, Ptr) and b.loc is not None:
            b = b.loc.at(b.off if b.off is not None else fresh())
        t = e.get("t", "?")
        if isinstance(b, Iter):
            b = None
        if isinstance(b, Loc):
            if e["f"] == "_zz_p__rep":
                return residue(b)
            loc = b.field(e["f"], t)
            if t.endswith("*"):
                p = st.env.get(("cell", loc.key()))
                return p if isinstance(p, Ptr) else Ptr(loc, Lin.const(0))
            return loc
        return Loc(Root(e["f"], "tmp", t))

    def e_idx(self, e, st):
        b = self.eval(e["b"], st)
        i = self.eval_int_rv(e["i"], st)
        if isinstance(b, Ptr):
            if b.loc is None:
                return Loc(Root("ptr", "tmp", e.get("t", "?")))
            off = i if b.off is None else b.off + i
            l = b.loc
            r = Loc(l.root, l.sel + (("i", off),), e.get("t", "?"), l.via, l.tn + (e.get("t", "?"),), l.cst)
            st.dom.event(self, st, "index", e, base=l, index=off, raw=True)
            return r
        if isinstance(b, Loc):
            if b.t in ("?",) or b.t.startswith("std::map"):
                r = Loc(b.root, b.sel + (("i", i),), e.get("t", "?"), b.via, b.tn + (e.get("t", "?"),), b.cst)
                return r
            st.dom.event(self, st, "index", e, base=b, index=i, raw=False)
            r = b.at(i)
            if e.get("t") and r.t != e["t"] and e["t"] != "?":
                r = Loc(r.root, r.sel, e["t"], r.via, r.tn[:-1] + (e["t"],), r.cst)
            if r.t.endswith("*") or (is_raw_elem(r.t)):
                return Ptr(r, Lin.const(0)) if r.t.endswith("*") else r
            return r
        return Loc(Root("elem", "tmp", e.get("t", "?")))

    def eval_int_rv(self, e, st):
        return self.lin(self.rv(e, st))

    def e_cast(self, e, st):
        if "cv" in e:
            return Lin.const(int(e["cv"]))
        v = self.eval(e["e"], st)
        t = e.get("t", "")
        if is_int(t) or t in ("double", "float"):
            v = self.consume(v, e["e"], st)
            if v is None or isinstance(v, Loc):
                return Lin.atom(("opq", self.okey(st, e["e"])))
            return v
        return v

    def okey(self, st, e):
        """Structural key of a side-effect-free expression in the current state."""
        try:
            return self._okey(st, e, 0)
        except KeyError:
            return ("fresh", next(_uid))

    def _okey(self, st, e, d):
        if not isinstance(e, dict):
            return e
        k = e.get("k")
        if k == "int" or k == "float":
            return e["v"]
        if k == "var":
            v = st.env.get(e["id"])
            if isinstance(v, Lin):
                return v
            if isinstance(v, Cond):
                return v.key()
            if isinstance(v, Loc):
                return (v.key(), st.ver.get(v.root.id, 0))
            if isinstance(v, Ptr):
                return ("ptr", v.loc.key() if v.loc else None, v.off)
            return (e.get("q") or e["n"], e["id"])
        if k == "this":
            return ("this", st.ver.get(self.this.root.id, 0) if self.this else 0)
        return (k, e.get("op"), e.get("fn"), e.get("f"), tuple(self._okey(st, x, d + 1) for x in children(e)))

    def e_bin(self, e, st):
        op = e["op"]
        if op == ",":
            self.eval(e["x"], st)
            return self.eval(e["y"], st)
        if op in ("&&", "||"):
            a = self.cond_of(self.rv(e["x"], st), e["x"], st)
            # the second operand is evaluated only if the first is true (false)
            F, only = st.facts, None
            if self.decide(st, a) is None:
                only = self.assume(st.copy(), a, op == "&&")
            if only is not None and len(only) == 1:
                st.facts = only[0].facts
                b = self.cond_of(self.rv(e["y"], st), e["y"], st)
                st.facts = F
            else:
                b = self.cond_of(self.rv(e["y"], st), e["y"], st)
            return Cond("and" if op == "&&" else "or", a, b)
        x = self.rv(e["x"], st)
        y = self.rv(e["y"], st)
        if op in CMP:
            if isinstance(x, (Addr, Ptr)) or isinstance(y, (Addr, Ptr)):
                if isinstance(x, Addr) and isinstance(y, Addr):
                    r = self.same_obj(st, x.loc, y.loc)
                    if r is None:
                        return Cond("opq", ("addr", x.loc.key(), y.loc.key(), op))
                    return TRUE if (r == (op == "==")) else FALSE
                return Cond("opq", ("ptrcmp", op, self.okey(st, e)))
            if isinstance(x, Iter) or isinstance(y, Iter):
                return Cond("opq", ("iter", next(_uid)))
            if isinstance(x, (Lin, Cond)) and isinstance(y, (Lin, Cond)):
                return Cond("cmp", op, (self.lin(x), self.lin(y)))
            return Cond("opq", ("cmp", self.okey(st, e)))
        if isinstance(x, Ptr) and op in "+-":
            o = self.lin(y)
            return Ptr(x.loc, (x.off if x.off is not None else fresh()) + (o if op == "+" else -o))
        if isinstance(y, Ptr) and op == "+":
            return Ptr(y.loc, (y.off if y.off is not None else fresh()) + self.lin(x))
        if "cv" in e:
            return Lin.const(int(e["cv"]))
        if e.get("t") in ("double", "float"):
            return Lin.atom(("opq", self.okey(st, e)))
        if isinstance(x, (Lin, Cond)) and isinstance(y, (Lin, Cond)):
            return self.arith(op, self.lin(x), self.lin(y), st)
        return Lin.atom(("opq", self.okey(st, e)))

    def arith(self, op, x, y, st):
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            if x.is_const():
                return y.scale(x.c)
            if y.is_const():
                return x.scale(y.c)
            a, b = sorted((x, y), key=lambda l: repr(l))
            return Lin.atom(("mul", a, b))
        if op in ("/", "%", "<<", ">>"):
            if x.is_const() and y.is_const() and (y.c or op in ("<<", ">>")):
                if op == "/":
                    q = abs(x.c) // abs(y.c)
                    return Lin.const(q if (x.c < 0) == (y.c < 0) else -q)
                if op == "%":
                    q = abs(x.c) % abs(y.c)
                    return Lin.const(q if x.c >= 0 else -q)
                if op == "<<" and 0 <= y.c < 64:
                    return Lin.const(x.c << y.c)
                if op == ">>" and 0 <= y.c < 64:
                    return Lin.const(x.c >> y.c)
            if op == "<<" and x.is_const():
                return pow2(y).scale(x.c)
            if op == "<<" and y.is_const() and 0 <= y.c < 62:
                return x.scale(1 << y.c)
            if op == ">>" and y.is_const() and 0 <= y.c < 62:
                return Lin.atom(("fdiv", x, Lin.const(1 << y.c)))
            if op == "/":
                if y.is_const() and y.c > 0 and st.facts.implies_ge(x):
                    return Lin.atom(("fdiv", x, y))
                return Lin.atom(("div", x, y))
            if op == "%":
                return Lin.atom(("mod", x, y))
        return Lin.atom(("op" + op, x, y))

    def same_obj(self, st, a, b):
        if a.root.id == b.root.id:
            if a.sel == b.sel:
                return True
            return None
        return False

    def cond_of(self, v, e, st):
        if isinstance(v, Cond):
            return v
        if isinstance(v, Lin):
            return Cond("cmp", "!=", (v, Lin.const(0)))
        return Cond("opq", self.okey(st, e))

    def e_un(self, e, st):
        op = e["op"]
        if op in ("++", "--"):
            return self.incdec(e, st)
        if op == "&":
            v = self.eval(e["e"], st)
            if isinstance(v, Loc):
                if v.sel and v.sel[-1][0] == "i":
                    return Ptr(v.parent(), v.sel[-1][1])
                return Addr(v)
            return Ptr(None)
        if op == "*":
            v = self.eval(e["e"], st)
            if isinstance(v, Addr):
                return v.loc
            if isinstance(v, Ptr):
                if v.loc is None:
                    return Loc(Root("deref", "tmp", "?"))
                l = v.loc
                t = elem_type(l.t)
                return Loc(l.root, l.sel + (("i", v.off if v.off is not None else fresh()),), t, l.via, l.tn + (t,), l.cst)
            if isinstance(v, Iter):
                return v.loc.at(fresh()) if v.loc is not None else None
            return v if isinstance(v, Loc) else Loc(Root("deref", "tmp", "?"))
        v = self.rv(e["e"], st)
        if op == "-":
            return -self.lin(v) if isinstance(v, (Lin, Cond)) else Lin.atom(("opq", self.okey(st, e)))
        if op == "+":
            return v
        if op == "!":
            return Cond("not", self.cond_of(v, e["e"], st))
        return Lin.atom(("opq", self.okey(st, e)))

    def incdec(self, e, st):
        d = 1 if e["op"] == "++" else -1
        tgt = e["e"]
        v = self.eval(tgt, st)
        if isinstance(v, Loc):
            old = self.consume(v, tgt, st)
            if is_int(v.t):
                new = self.lin(old) + d
                self.store(st, v, new, e)
                return old if e.get("post") else new
            self.note_write(st, v, e, "rmw")
            return v
        if isinstance(v, Ptr):
            new = Ptr(v.loc, (v.off if v.off is not None else fresh()) + d)
        elif isinstance(v, (Lin, Cond)):
            new = self.lin(v) + d
        else:
            new = fresh()
        self.assign_lv(tgt, new, st, e)
        return v if e.get("post") else new

    def assign_lv(self, tgt, val, st, e):
        """Assign a scalar to an lvalue expression."""
        if tgt["k"] == "var":
            cur = st.env.get(tgt["id"])
            if isinstance(cur, Loc) and is_int(cur.t):
                self.store(st, cur, val, e)
                return
            st.env[tgt["id"]] = val
            return
        loc = self.eval(tgt, st)
        if isinstance(loc, Ptr) and loc.loc is not None and tgt["k"] == "mem":
            st.env[("cell", loc.loc.key())] = val
            return
        if isinstance(loc, Loc):
            self.store(st, loc, val, e)

    def store(self, st, loc, val, e):
        self.note_write(st, loc, e, "assign")
        rid, d = loc.root.id, len(loc.sel)
        for k in [k for k in st.env if isinstance(k, tuple) and k[0] == "cell" and k[1][0] == rid and overlap(k[1][1], loc.sel)]:
            del st.env[k]
        if isinstance(val, (Lin, Cond, Ptr)):
            st.env[("cell", loc.key())] = val

    def e_asg(self, e, st):
        op = e["op"]
        x, y = e["x"], e["y"]
        val = self.rv(y, st)
        if op != "=":
            cur = self.rv(x, st)
            if isinstance(cur, Ptr) and op in ("+=", "-="):
                o = self.lin(val)
                val = Ptr(cur.loc, (cur.off if cur.off is not None else fresh()) + (o if op == "+=" else -o))
            elif isinstance(cur, (Lin, Cond)) and isinstance(val, (Lin, Cond)):
                val = self.arith(op[:-1], self.lin(cur), self.lin(val), st)
            else:
                val = fresh()
        if not isinstance(val, (Lin, Cond, Ptr, Addr)):
            val = fresh() if not isinstance(val, Iter) else val
        if x["k"] == "mem" and isinstance(val, Ptr):
            pass
        self.assign_lv(x, val, st, e)
        return val

    def e_cond(self, e, st):
        c = self.cond_of(self.rv(e["c"], st), e["c"], st)
        t = self.decide(st, c)
        if t is True:
            return self.eval(e["x"], st)
        if t is False:
            return self.eval(e["y"], st)
        s1 = self.assume(st.copy(), c, True)
        s2 = self.assume(st.copy(), c, False)
        a = self.rv(e["x"], s1[0]) if s1 else None
        b = self.rv(e["y"], s2[0]) if s2 else None
        live = [s for s in (s1[0] if s1 else None, s2[0] if s2 else None) if s]
        if live:
            j = live[0] if len(live) == 1 else self.join(live[0], live[1])
            self.overwrite(st, j)
        if isinstance(a, (Lin, Cond)) and isinstance(b, (Lin, Cond)):
            a, b = self.lin(a), self.lin(b)
            if a == b:
                return a
            if c.k == "cmp" and c.a in ("<", "<=", ">", ">="):
                l, r = c.b
                if {a, b} == {l, r}:
                    small = (a == l) == (c.a in ("<", "<="))
                    return Lin.atom((("min" if small else "max"),) + tuple(sorted((a, b), key=repr)))
            f = fresh()
            return f
        if a is None:
            return b
        return a

    def overwrite(self, st, j):
        for n in St.__slots__:
            setattr(st, n, getattr(j, n))

    def e_new(self, e, st):
        if e.get("e"):
            self.eval(e["e"], st)
        if e.get("n"):
            self.rv(e["n"], st)
        return Ptr(Loc(Root("new", "tmp", e["t"] + " *")), Lin.const(0))

    def e_delete(self, e, st):
        self.eval(e["e"], st)
        return None

    def e_throw(self, e, st):
        if e.get("e"):
            self.rv(e["e"], st)
        st.flow = "throw"
        return None

    def e_lambda(self, e, st):
        return Lam(e, None)

    def e_fnref(self, e, st):
        return None

    def e_list(self, e, st):
        for a in e["a"]:
            self.rv(a, st)
        return self.new_tmp(st, e.get("t", "?"))

    def e_other(self, e, st):
        for a in e.get("a", []):
            self.rv(a, st)
        return None

    # ---------------------------------------------------------------- conditions
    def decide(self, st, c):
        k = c.k
        if k == "const":
            return c.a
        if k == "not":
            r = self.decide(st, c.a)
            return None if r is None else not r
        if k in ("and", "or"):
            a, b = self.decide(st, c.a), self.decide(st, c.b)
            if k == "and":
                if a is False or b is False:
                    return False
                return True if a is True and b is True else None
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if k == "cmp":
            op, (x, y) = c.a, c.b
            d = x - y
            F = st.facts
            if d.is_const():
                return {"<": d.c < 0, "<=": d.c <= 0, ">": d.c > 0, ">=": d.c >= 0, "==": d.c == 0, "!=": d.c != 0}[op]
            if op == "<":
                return True if F.implies_ge(-d - 1) else False if F.implies_ge(d) else None
            if op == "<=":
                return True if F.implies_ge(-d) else False if F.implies_ge(d - 1) else None
            if op == ">":
                return True if F.implies_ge(d - 1) else False if F.implies_ge(-d) else None
            if op == ">=":
                return True if F.implies_ge(d) else False if F.implies_ge(-d - 1) else None
            if op in ("==", "!="):
                r = True if F.implies_eq(d) else False if F.implies_ne(d) else None
                return r if op == "==" or r is None else not r
        if k == "opq":
            return st.bools.get(c.a)
        return None

    def assume(self, st, c, truth):
        """States (0, 1 or 2) in which c has the given truth value; st may be reused."""
        k = c.k
        if k == "const":
            return [st] if c.a == truth else []
        if k == "not":
            return self.assume(st, c.a, not truth)
        if k in ("and", "or"):
            if (k == "and") == truth:
                out = []
                for s in self.assume(st, c.a, truth):
                    out += self.assume(s, c.b, truth)
                return out
            out = self.assume(st.copy(), c.a, truth)
            for s in self.assume(st.copy(), c.a, not truth):
                out += self.assume(s, c.b, truth)
            return out
        r = self.decide(st, c)
        if r is not None:
            return [st] if r == truth else []
        if k == "cmp":
            op, (x, y) = c.a, c.b
            if not truth:
                op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
            d = x - y
            F = st.facts
            if op == "<":
                F = F.add_ge(-d - 1)
            elif op == "<=":
                F = F.add_ge(-d)
            elif op == ">":
                F = F.add_ge(d - 1)
            elif op == ">=":
                F = F.add_ge(d)
            elif op == "==":
                F = F.add_eq(d)
            else:
                F = F.add_ne(d)
                if F.implies_ge(d):
                    F = F.add_ge(d - 1)
                elif F.implies_ge(-d):
                    F = F.add_ge(-d - 1)
            st.facts = F
            for a in list(x.d) + list(y.d):
                if isinstance(a, tuple) and a[0] == "b" and len(d.d) == 1:
                    # comparison of a stored condition with a constant
                    pass
            return [st]
        if k == "opq":
            st.bools[c.a] = truth
            lost = set()
            lin_atoms(c.a, lost)
            if lost:
                st.facts = st.facts.lose(lost)
            self.learn(st, c.a, truth)
            return [st]
        return [st]

    def learn(self, st, key, truth):
        """Facts implied by opaque predicates."""
        if isinstance(key, tuple) and key and key[0] == "iszero_poly":
            l = Lin.atom(key[1])
            if truth:
                st.facts = st.facts.add_eq(l)
            else:
                st.facts = st.facts.add_ge(l - 1)

    # ---------------------------------------------------------------- calls
    def e_call(self, e, st):
        fnm = e.get("fn")
        fn = self.prog.fns.get(fnm) if fnm else None
        if fn is None:
            # call through a lambda / function object
            c = self.eval(e["callee"], st) if "callee" in e else None
            if isinstance(c, Lam) and self.depth < self.max_depth:
                return self.inline_call(LamFunc(c.node, self.frame), None, [self.eval(a, st) for a in e.get("a", [])], e, st)
            for a in e.get("a", []):
                self.rv(a, st)
            return self.ret_of_type(st, e.get("t", "?"), e)
        obj = None
        if "obj" in e:
            obj = self.eval(e["obj"], st)
            if isinstance(obj, Lam) and fn.n == "operator()" and self.depth < self.max_depth:
                return self.inline_call(LamFunc(obj.node, self.frame), None, [self.eval(a, st) for a in e.get("a", [])], e, st)
            if isinstance(obj, Addr):
                obj = obj.loc
            elif isinstance(obj, Ptr):
                obj = obj.loc.at(obj.off if obj.off is not None else fresh()) if obj.loc is not None else None
        args = [self.eval(a, st) for a in e.get("a", [])]
        return self.call(fn, obj, args, e, st)

    def e_ctor(self, e, st):
        fn = self.prog.fns.get(e.get("fn"))
        args = [self.eval(a, st) for a in e.get("a", [])]
        t = e["t"]
        if len(args) == 1 and isinstance(args[0], Lam):
            return args[0]
        if e.get("copy") and len(args) == 1 and isinstance(args[0], Loc):
            if args[0].root.kind == "tmp":
                return args[0]
            r = self.new_tmp(st, t, "copy")
            self.note_read(st, args[0], e)
            st.dom.event(self, st, "copyctor", e, dst=r, src=args[0])
            self.copy_shape(st, r, args[0])
            return r
        if t.startswith("__gnu_cxx::__normal_iterator") or "iterator" in t:
            return args[0] if args else Iter(None)
        r = self.new_tmp(st, t, "obj")
        self.construct(st, r, fn, args, e)
        return r

    def construct(self, st, r, fn, args, e):
        """Fill r by constructor fn."""
        t = r.t
        a = e.get("a", [])
        res = st.dom.call(self, st, fn, r, args, e) if fn else NotImplemented
        vals = [self.consume(v, x, st) for v, x in zip(args, a)]
        st.dom.event(self, st, "construct", e, loc=r, fn=fn, args=vals)
        if res is not NotImplemented:
            return
        ints = [self.lin(v) for v, x in zip(vals, a) if isinstance(v, (Lin, Cond))]
        if is_mat(t):
            if len(ints) == 2:
                self.set_shape(st, r, ints)
            elif not args:
                self.set_shape(st, r, (Lin.const(0), Lin.const(0)))
        elif t.startswith("NTL::Vec<"):
            if len(ints) >= 1:
                self.set_shape(st, r, ints[:1])
            elif not args:
                self.set_shape(st, r, (Lin.const(0),))
        elif t.startswith("std::vector<"):
            if args and isinstance(vals[0], (Lin, Cond)):
                self.set_shape(st, r, (self.lin(vals[0]),))
            elif not [x for x in a if not x.get("defarg")]:
                self.set_shape(st, r, (Lin.const(0),))
        elif t == "NTL::zz_pX":
            if not args:
                self.set_shape(st, r.field("rep", "NTL::Vec<NTL::zz_p>"), (Lin.const(0),))
        if fn and fn.m in self.prog.funcs and self.inline(self.prog.funcs[fn.m], self.depth) and self.can_inline(fn.m):
            self.inline_call(self.prog.funcs[fn.m], r, args, e, st)

    def ret_of_type(self, st, t, e, name="ret"):
        if is_int(t):
            return fresh()
        if t == "void":
            return None
        if t.endswith("*"):
            return Ptr(None)
        if t.startswith("__gnu_cxx::__normal_iterator") or "_iterator<" in t:
            return Iter(None)
        return self.new_tmp(st, t, name)

    def can_inline(self, m):
        return self.depth < self.max_depth and m not in self.stack

    def call(self, fn, obj, args, e, st):
        a = e.get("a", [])
        q = fn.q
        r = st.dom.call(self, st, fn, obj, args, e)
        if r is not NotImplemented:
            return r
        if fn.nr or q in ("NTL::LogicError", "NTL::Error", "NTL::ResourceError", "NTL::ArithmeticError", "NTL::InvModError", "NTL::TerminalError", "NTL::InputError", "exit", "abort"):
            for v, x in zip(args, a):
                self.consume(v, x, st)
            st.flow = "throw"
            return None
        f = self.prog.funcs.get(fn.m)
        if fn.virt and fn.cm and not args and is_int(fn.rt) and isinstance(obj, Loc) and not e.get("qual") and self.prog.overriders(fn.m):
            self.note_read(st, obj, e, True)
            return Lin.atom(("meth", fn.n, obj.root.name + "#%d" % obj.root.id, obj.sel, st.ver.get(obj.root.id, 0)))
        if f is not None and not (fn.virt and not e.get("qual") and self.prog.overriders(fn.m)) and self.inline(f, self.depth) and self.can_inline(fn.m):
            return self.inline_call(f, obj, args, e, st)
        m = MODELS.get(q)
        if m is not None:
            r = m(self, st, fn, obj, args, e)
            if r is not NotImplemented:
                return r
        if f is not None or fn.repo:
            return self.default_call(fn, obj, args, e, st)
        if q.startswith("std::") and q in ALG:
            return self.algorithm(fn, args, e, st)
        if e.get("opc") in RMW_OPS and q not in ("NTL::operator<<=",) and args:
            return self.rmw_op(fn, obj, args, e, st)
        return self.default_call(fn, obj, args, e, st)

    def rmw_op(self, fn, obj, args, e, st):
        a = e.get("a", [])
        if obj is not None:
            tgt, rest = obj, list(zip(args, a))
        else:
            tgt, rest = args[0], list(zip(args[1:], a[1:]))
        for v, x in rest:
            self.consume(v, x, st)
        if isinstance(tgt, Loc):
            self.note_read(st, tgt, e)
            keep = None
            if is_mat(tgt.t):
                keep = (self.dim(st, tgt, 0), self.dim(st, tgt, 1))
            self.note_write(st, tgt, e, "rmw")
            if keep:
                self.set_shape(st, tgt, keep)
        elif isinstance(tgt, Iter):
            return tgt
        return tgt

    def algorithm(self, fn, args, e, st):
        how, outs = ALG[fn.q]
        a = e.get("a", [])
        n = len(args)
        # trailing functor shifts the output position of transform
        outs = [(o if o >= 0 else n + o) for o in outs]
        for i, (v, x) in enumerate(zip(args, a)):
            if i in outs:
                continue
            if isinstance(v, Iter):
                if v.loc is not None and not v.end:
                    self.note_read(st, v.loc, x)
            elif isinstance(v, Lam):
                self.run_lambda(v, st)
            else:
                self.consume(v, x, st)
        for i in outs:
            v = args[i] if i < n else None
            if isinstance(v, Iter) and v.loc is not None:
                if how == "rmw":
                    self.note_read(st, v.loc, e)
                keep = self.dim(st, v.loc, 0)
                # an algorithm over the whole container overwrites it; a part is read-modify-write
                whole = how == "assign" and v.off is None and self.covers(fn, args, i)
                self.note_write(st, v.loc, e, "fill" if whole else "rmw")
                self.set_shape(st, v.loc, (keep,))
            elif isinstance(v, Ptr) and v.loc is not None:
                self.note_write(st, v.loc, e, "rmw")
        return Iter(None)

    def covers(self, fn, args, i):
        if fn.q in ("std::iota", "std::fill", "std::generate"):
            return len(args) > 1 and isinstance(args[1], Iter) and args[1].end and args[1].off is None
        return True

    def run_lambda(self, lam, st):
        """A lambda passed to an algorithm: interpret its body once on unknown arguments."""
        s = st.copy()
        for p in lam.node["ps"]:
            if is_int(p["t"]):
                s.env[p["id"]] = fresh()
            else:
                s.env[p["id"]] = Loc(Root(p["n"], "tmp", p["t"]))
        out = self.stmt(lam.node["body"], [s])
        for o in out:
            if o.flow in (None, "ret"):
                o.flow = st.flow
                o.retval = st.retval
                self.overwrite(st, self.join(st, o))

    def default_call(self, fn, obj, args, e, st):
        """Effects from the signature: const/by-value read, non-const reference overwritten."""
        a = e.get("a", [])
        outs = []
        rmw = RMW_ARG.get(fn.q, [])
        for i, v in enumerate(args):
            p = fn.ps[i] if i < len(fn.ps) else {"c": True}
            x = a[i] if i < len(a) else e
            out = (p.get("ref") or p.get("ptr")) and not p.get("c")
            if isinstance(v, Loc):
                if out:
                    if i in rmw:
                        self.note_read(st, v, x)
                    outs.append((v, "rmw" if i in rmw else "assign"))
                else:
                    self.consume(v, x, st)
            elif isinstance(v, Ptr) and v.loc is not None:
                if out:
                    outs.append((v.loc, "rmw"))
                elif p.get("ptr"):
                    self.note_read(st, v.loc, x)
            elif isinstance(v, Addr):
                if out:
                    outs.append((v.loc, "rmw"))
                else:
                    self.note_read(st, v.loc, x)
            elif isinstance(v, Iter) and v.loc is not None and not v.end:
                self.note_read(st, v.loc, x)
            elif isinstance(v, Lam):
                self.run_lambda(v, st)
            elif out and i < len(a) and a[i]["k"] == "var":
                # scalar by reference
                self.assign_lv(a[i], fresh(), st, e)
        if isinstance(obj, Loc):
            if fn.cm:
                if obj.root.kind != "tmp":
                    self.note_read(st, obj, e, )
            elif not fn.sm and not fn.ctor and obj.root.kind != "tmp":
                if not fn.q.startswith("std::"):    # an unmodelled container method may overwrite without reading
                    self.note_read(st, obj, e)
                outs.append((obj, "rmw"))
        keep = []       # writing through a pointer to the elements leaves the size alone
        for v in args:
            if isinstance(v, Ptr) and v.loc is not None and (is_mat(v.loc.t) or is_vec(v.loc.t)):
                keep.append((v.loc, tuple(self.dim(st, v.loc, k) for k in range(2 if is_mat(v.loc.t) else 1))))
        for v, how in outs:
            self.note_write(st, v, e, how)
        for v, d in keep:
            self.set_shape(st, v, d)
        t = e.get("t", "?")
        if is_int(t) and not outs:
            return Lin.atom(("opq", self.okey(st, e)))
        if t == "bool":
            return Cond("opq", self.okey(st, e))
        return self.ret_of_type(st, t, e, fn.n)

    def inline_call(self, f, obj, args, e, st):
        a = e.get("a", [])
        mark = next(_uid)
        saved_this, saved_frame = self.this, self.frame
        self.depth += 1
        self.stack.append(f.m)
        try:
            s = st.copy()
            if isinstance(obj, Loc):
                self.this = obj
            self.frame = f
            for i, p in enumerate(f.ps):
                v = args[i] if i < len(args) else None
                x = a[i] if i < len(a) else e
                if p.get("ref"):
                    if isinstance(v, Loc):
                        s.env[p["id"]] = v
                    elif is_int(p["t"]) and not p.get("c") and x.get("k") == "var":
                        # scalar lvalue passed by reference: give it a cell
                        c = Loc(Root(x["n"], "tmp", p["t"]))
                        s.env[("cell", c.key())] = v if v is not None else fresh()
                        s.env[p["id"]] = c
                        s.frames = s.frames + ((x, c),)
                    else:
                        s.env[p["id"]] = v if v is not None else (fresh() if is_int(p["t"]) else Loc(Root(p["n"], "tmp", p["t"])))
                elif p.get("ptr"):
                    s.env[p["id"]] = v if isinstance(v, (Ptr, Addr)) else Ptr(None)
                elif is_int(p["t"]) or self.is_enum(p["t"]):
                    v = self.consume(v, x, s)
                    s.env[p["id"]] = v if isinstance(v, (Lin, Cond)) else fresh()
                else:
                    v = self.consume(v, x, s)
                    r = Loc(Root(p["n"], "local", p["t"]), (), p["t"], p["n"])
                    if isinstance(v, Loc):
                        self.copy_shape(s, r, v)
                        s.dom.event(self, s, "copyctor", e, dst=r, src=v)
                    s.env[p["id"]] = r
            if f.ctor:
                self.run_inits(f, s)
                s.dom.event(self, s, "inits", f.body)
            s.trace = s.trace + (("call", f.q, e.get("l")),)
            outs = self.stmt(f.body, [s])
            live = [o for o in outs if o.flow in (None, "ret")]
            self.raised += [o for o in outs if o.flow == "throw"]
            if not live:
                st.flow = "throw"
                return None
            rets = []
            pre = self.ret_cond(st, live, mark) if (e.get("t") == "bool" or f.rt == "bool") and len(live) > 1 else None
            for o in live:
                rets.append(o.retval)
                o.flow, o.retval = st.flow, st.retval
                for x, c in o.frames[len(st.frames):]:
                    val = o.env.get(("cell", c.key()))
                    o.frames = st.frames
                    self.assign_lv(x, val if val is not None else fresh(), o, e)
                o.frames = st.frames
                o.trace = st.trace
            j = live[0]
            for o in live[1:]:
                j = self.join(j, o)
            self.overwrite(st, j)
            rets = [r for r in rets]
            if not rets or all(r is None for r in rets):
                return None if e.get("t") == "void" else self.ret_of_type(st, e.get("t", "?"), e, f.n)
            if all(same_val(r, rets[0]) for r in rets):
                return rets[0]
            if pre is not None:
                return pre
            return self.merge_rets(rets, st, e, f)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.this, self.frame = saved_this, saved_frame

    def ret_cond(self, st, live, mark):
        """Truth value returned by a helper as a condition on values known at the call:
        OR over its return paths of (path condition and returned value); None if some path
        depends on values created inside the helper."""
        terms = []
        for o in live:
            r = o.retval
            if not isinstance(r, (Lin, Cond)):
                return None
            c = r if isinstance(r, Cond) else Cond("cmp", "!=", (r, Lin.const(0)))
            if c.k == "const" and c.a is False:
                continue
            parts = [c]
            zero = Lin.const(0)
            for l in o.facts.ge - st.facts.ge:
                parts.append(Cond("cmp", ">=", (l, zero)))
            done = set()
            for l in o.facts.ne - st.facts.ne:
                if -l not in done:
                    done.add(l)
                    parts.append(Cond("cmp", "!=", (l, zero)))
            for k, v in o.bools.items():
                if st.bools.get(k) != v:
                    parts.append(Cond("opq", k) if v else Cond("not", Cond("opq", k)))
            if not all(old_cond(x, mark) for x in parts):
                return None
            t = parts[0]
            for x in parts[1:]:
                t = Cond("and", x, t)
            terms.append(t)
        if not terms:
            return FALSE
        t = terms[0]
        for x in terms[1:]:
            t = Cond("or", t, x)
        return t

    def merge_rets(self, rets, st, e, f):
        if all(isinstance(r, Lin) for r in rets):
            return fresh()
        if all(isinstance(r, (Lin, Cond)) for r in rets):
            return Cond("opq", ("ret", next(_uid)))
        locs = [r for r in rets if isinstance(r, Loc)]
        if locs:
            r = self.new_tmp(st, locs[0].t, f.n)
            st.dom.event(self, st, "merge", e, dst=r, srcs=locs)
            return r
        return self.ret_of_type(st, e.get("t", "?"), e, f.n)

    def assign_obj(self, st, dst, src, e):
        """dst = src for class types."""
        if src.root.kind != "tmp":
            self.note_read(st, src, e)
        if dst.key() == src.key():
            st.dom.event(self, st, "selfassign", e, dst=dst, src=src)
            return
        tmp = [(k, v) for k, v in st.shape.items() if k[0] == src.root.id]
        cells = [(k, v) for k, v in st.env.items() if isinstance(k, tuple) and k[0] == "cell" and k[1][0] == src.root.id] if src.t in self.prog.classes else []
        dims = None
        if is_mat(src.t):
            dims = (self.dim(st, src, 0), self.dim(st, src, 1))
        elif is_vec(src.t) or src.t == "NTL::zz_pX":
            dims = (self.dim(st, src, 0),)
        self.note_write(st, dst, e, "assign", src)
        if dims:
            self.set_shape(st, dst if src.t != "NTL::zz_pX" else dst.field("rep", "NTL::Vec<NTL::zz_p>"), dims)
        n = len(src.sel)
        for k, v in tmp:
            if k[1][:n] == src.sel and len(k[1]) > n:
                st.shape[(dst.root.id, dst.sel + k[1][n:])] = v
        for k, v in cells:
            if k[1][1][:n] == src.sel and len(k[1][1]) > n:
                st.env[("cell", (dst.root.id, dst.sel + k[1][1][n:]))] = v

    # ---------------------------------------------------------------- statements
    def stmt(self, s, states):
        """Run s on each live state; returns all resulting states (dead ones pass through)."""
        if s is None:
            return states
        out = []
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        for st in states:
            if st.dead():
                out.append(st)
                continue
            if m is None:
                raise Limit()
            out += m(s, st)
        return self.reduce(out)

    def reduce(self, states):
        live = [s for s in states if s.flow is None]
        dead = [s for s in states if s.flow is not None]
        states = self.dedup(live)
        if len(states) > self.max_states:
            states = self.squeeze(states, self.max_states // 2)
        if len(dead) > self.max_states:
            groups = {}
            for d in dead:
                groups.setdefault(d.flow, []).append(d)
            dead = []
            for fl, g in groups.items():
                if fl == "throw":
                    dead.append(g[0])
                else:
                    dead += self.squeeze(g, self.max_states // 2)
        return states + dead

    def dedup(self, states):
        out = []
        for s in states:
            for i, o in enumerate(out):
                if o.env == s.env and o.dom.same(s.dom) and o.shape == s.shape and o.ver == s.ver:
                    out[i] = self.join(o, s)
                    break
            else:
                out.append(s)
        return out

    def squeeze(self, states, n):
        states = list(states)
        while len(states) > n:
            b = states.pop()
            j = 0
            for i in range(len(states)):
                if states[i].dom.same(b.dom):
                    j = i
                    break
            else:
                j = len(states) - 1
            states[j] = self.join(states[j], b)
        return states

    def join(self, a, b):
        if a is b:
            return a
        j = St()
        j.facts = a.facts.join(b.facts)
        for k in a.env:
            if k not in b.env:
                continue
            x, y = a.env[k], b.env[k]
            if x is y or same_val(x, y):
                j.env[k] = x
            elif isinstance(x, (Lin, Cond)) and isinstance(y, (Lin, Cond)):
                lx, ly = self.lin(x), self.lin(y)
                f = fresh("phi")
                # keep common bounds when they are cheap
                if (lx - ly).is_const():
                    lo, hi = (lx, ly) if (lx - ly).c <= 0 else (ly, lx)
                    j.facts = j.facts.add_ge(f - lo).add_ge(hi - f)
                else:
                    for z, za in ((Lin.const(0), 0), (Lin.const(1), 1)):
                        if a.facts.implies_ge(lx - z) and b.facts.implies_ge(ly - z):
                            j.facts = j.facts.add_ge(f - z)
                    if a.facts.implies_ge(lx - ly):
                        j.facts = j.facts.add_ge(f - ly) if True else j.facts
                        if b.facts.implies_ge(lx - ly):
                            j.facts = j.facts.add_ge(lx - f)
                    elif b.facts.implies_ge(ly - lx):
                        j.facts = j.facts.add_ge(f - lx)
                        if a.facts.implies_ge(ly - lx):
                            j.facts = j.facts.add_ge(ly - f)
                j.env[k] = f
            elif isinstance(x, Ptr) and isinstance(y, Ptr):
                j.env[k] = Ptr(None)
            elif isinstance(x, Loc) and isinstance(y, Loc) and x.root.kind in ("tmp", "local") and y.root.kind in ("tmp", "local"):
                r = Loc(Root(x.root.name, "local", x.t))
                j.env[k] = r
            else:
                j.env[k] = Ptr(None) if isinstance(x, Ptr) or isinstance(y, Ptr) else (x if isinstance(x, Loc) else fresh())
        j.bools = {k: v for k, v in a.bools.items() if b.bools.get(k) == v}
        j.shape = {k: v for k, v in a.shape.items() if b.shape.get(k) == v}
        # shapes equal under both fact sets
        for k, v in a.shape.items():
            w = b.shape.get(k)
            if w is not None and w != v and len(v) == len(w):
                if all(x is not None and y is not None and (x == y or b.facts.implies_eq(x - y)) for x, y in zip(v, w)):
                    j.shape[k] = v
                elif all(x is not None and y is not None and (x == y or a.facts.implies_eq(x - y)) for x, y in zip(v, w)):
                    j.shape[k] = w
        for k in set(a.ver) | set(b.ver):
            va, vb = a.ver.get(k, 0), b.ver.get(k, 0)
            j.ver[k] = va if va == vb else next(_uid)
        for k in set(a.dver) | set(b.dver):
            va, vb = a.dver.get(k, 0), b.dver.get(k, 0)
            j.dver[k] = va if va == vb else next(_uid)
        j.dom = a.dom.join(b.dom, self)
        j.flow, j.retval = a.flow, a.retval if same_val(a.retval, b.retval) else (self.merge_two(a.retval, b.retval, j))
        j.trace = a.trace if len(a.trace) <= len(b.trace) else b.trace
        j.frames = a.frames
        return j

    def merge_two(self, x, y, j):
        if isinstance(x, (Lin, Cond)) and isinstance(y, (Lin, Cond)):
            return fresh()
        return x if x is not None else y

    def s_blk(self, s, st):
        states = [st]
        for t in s["s"]:
            states = self.stmt(t, states)
        if s["s"]:
            for x in states:
                if x.flow is None:
                    x.dom.event(self, x, "scope_end", s)
        return states

    def s_null(self, s, st):
        return [st]

    def s_decl(self, s, st):
        for v in s["v"]:
            self.decl(v, st)
        return [st]

    def decl(self, v, st):
        t = v["t"]
        init = v.get("i")
        if v.get("ref") or v.get("rref"):
            x = self.eval(init, st) if init else None
            if isinstance(x, Loc):
                x = Loc(x.root, x.sel, x.t, x.via, x.tn, x.cst or bool(v.get("c")))
            elif isinstance(x, Ptr) and init["k"] == "un" and False:
                pass
            st.env[v["id"]] = x if x is not None else Loc(Root(v["n"], "local", t))
            return
        if v.get("ptr"):
            x = self.eval(init, st) if init else None
            st.env[v["id"]] = x if isinstance(x, (Ptr, Addr)) else Ptr(None)
            return
        if "arr" in v:
            r = Loc(Root(v["n"], "local", t))
            self.set_shape(st, r, (Lin.const(v["arr"]),))
            if init:
                self.eval(init, st)
            st.env[v["id"]] = r
            st.dom.event(self, st, "decl", v, loc=r, init=bool(init))
            return
        if is_int(t) or self.is_enum(t) or t in ("double", "float"):
            if init is None:
                st.env[v["id"]] = fresh()
            else:
                x = self.rv(init, st)
                st.env[v["id"]] = x if isinstance(x, (Lin, Cond)) else Lin.atom(("opq", self.okey(st, init)))
            return
        if t.startswith("__gnu_cxx::__normal_iterator") or "_iterator<" in t:
            x = self.eval(init, st) if init else None
            st.env[v["id"]] = x if isinstance(x, Iter) else Iter(None)
            return
        r = Loc(Root(v["n"], "local", t), (), t, v["n"])
        if init is None:
            st.env[v["id"]] = r
            st.dom.event(self, st, "decl", v, loc=r, init=False)
            return
        if init["k"] == "ctor" and not init.get("copy"):
            fn = self.prog.fns.get(init.get("fn"))
            args = [self.eval(a, st) for a in init.get("a", [])]
            st.env[v["id"]] = r
            st.dom.event(self, st, "decl", v, loc=r, init=True)
            self.construct(st, r, fn, args, init)
            return
        x = self.eval(init, st)
        st.env[v["id"]] = r
        st.dom.event(self, st, "decl", v, loc=r, init=True)
        if isinstance(x, Loc):
            if x.root.kind == "tmp" and not x.sel:
                self.move_tmp(st, r, x, init)
            else:
                self.assign_obj(st, r, x, init)
        elif isinstance(x, Lam):
            st.env[v["id"]] = x

    def move_tmp(self, st, dst, src, e):
        self.copy_shape(st, dst, src)
        st.dom.event(self, st, "move", e, dst=dst, src=src)

    def s_expr(self, s, st):
        e = s["e"]
        # a statement-level conditional call keeps paths apart through stmt()
        self.eval(e, st)
        return [st]

    def s_ret(self, s, st):
        e = s.get("e")
        if e is not None:
            v = self.eval(e, st)
            if isinstance(v, Loc) and st.flow is None:
                if v.root.kind not in ("tmp",):
                    isref = False
                    if e["k"] == "ctor" or not is_int(v.t):
                        self.note_read(st, v, e)
                if is_int(v.t):
                    v = self.consume(v, e, st)
            if st.flow is not None:
                return [st]
            st.retval = v
            st.dom.event(self, st, "return", s, value=v, depth=self.depth)
        else:
            st.dom.event(self, st, "return", s, value=None, depth=self.depth)
        st.flow = "ret"
        return [st]

    def s_break(self, s, st):
        st.flow = "break"
        return [st]

    def s_continue(self, s, st):
        st.flow = "continue"
        return [st]

    def s_if(self, s, st):
        if s.get("init"):
            sts = self.stmt(s["init"], [st])
        else:
            sts = [st]
        out = []
        for x in sts:
            if x.dead():
                out.append(x)
                continue
            if s.get("cvar"):
                self.decl(s["cvar"], x)
            c = self.cond_of(self.rv(s["c"], x), s["c"], x)
            if x.flow is not None:
                out.append(x)
                continue
            x.dom.event(self, x, "branch", s, cond=c)
            t = self.assume(x.copy(), c, True)
            f = self.assume(x, c, False)
            to = self.stmt(s["x"], t) if t else []
            fo = self.stmt(s.get("y"), f) if f else []
            if to and fo:
                x.dom.event(self, x, "branched", s, cond=c, yes=to, no=fo)
            out += to + fo
        return out

    def s_switch(self, s, st):
        v = self.rv(s["c"], st)
        lv = self.lin(v)
        items, cases = [], []
        body = s["b"]["s"] if s["b"]["k"] == "blk" else [s["b"]]

        def flat(b):
            while b is not None and b["k"] in ("case", "default"):
                cases.append((len(items), b.get("e")))
                b = b["b"]
            if b is not None:
                items.append(b)
        for b in body:
            flat(b)
        out, rest = [], [st]
        default_at = None
        for pos, ce in cases:
            if ce is None:
                default_at = pos
                continue
            cv = Lin.const(int(ce.get("cv", ce.get("v", 0))))
            nxt = []
            for x in rest:
                c = Cond("cmp", "==", (lv, cv))
                for t in self.assume(x.copy(), c, True):
                    out += self.run_items(items[pos:], [t])
                nxt += self.assume(x, c, False)
            rest = nxt
        if default_at is not None:
            out += self.run_items(items[default_at:], rest)
        else:
            out += rest
        for x in out:
            if x.flow == "break":
                x.flow = None
        if any(x.flow == "throw" for x in out) and any(x.flow != "throw" for x in out):
            st.dom.event(self, st, "branched", s, cond=Cond("cmp", "==", (lv, Lin.const(0))),
                         yes=[x for x in out if x.flow == "throw"], no=[x for x in out if x.flow != "throw"])
        return out

    def run_items(self, items, states):
        for t in items:
            states = self.stmt(t, states)
        return states

    def s_label(self, s, st):
        return self.stmt(s["b"], [st])

    def s_try(self, s, st):
        out = self.stmt(s["b"], [st.copy()])
        return out

    # ---------------------------------------------------------------- loops
    def s_for(self, s, st):
        sts = self.stmt(s.get("i"), [st]) if s.get("i") else [st]
        out = []
        for x in sts:
            out += self.loop(s, x, s.get("c"), s.get("n"), s["b"], False) if not x.dead() else [x]
        return out

    def s_while(self, s, st):
        return self.loop(s, st, s["c"], None, s["b"], False)

    def s_do(self, s, st):
        return self.loop(s, st, s["c"], None, s["b"], True)

    def s_rfor(self, s, st):
        rng = self.eval(s["r"], st)
        if isinstance(rng, Loc):
            self.note_read(st, rng, s["r"], True)   # the size; elements are read where the body uses them
        L = Loop(s)
        L.it = ("it", next(_uid))
        i = Lin.atom(L.it)
        L.lo, L.step = Lin.const(0), 1
        L.hi = self.dim(st, rng, 0) if isinstance(rng, Loc) else fresh()
        v = s["v"]

        def setup(h):
            h.facts = h.facts.add_ge(i).add_ge(L.hi - i - 1)
            if isinstance(rng, Loc):
                el = rng.at(i)
                if v.get("ref"):
                    h.env[v["id"]] = el
                elif is_int(v["t"]):
                    self.note_read(h, el, s)
                    h.env[v["id"]] = self.load_int(h, el, s)
                else:
                    self.note_read(h, el, s)
                    h.env[v["id"]] = Loc(Root(v["n"], "local", v["t"]))
            else:
                h.env[v["id"]] = fresh() if is_int(v["t"]) else Loc(Root(v["n"], "local", v["t"]))
        return self.loop_common(L, st, [s["b"]], None, setup, None, False)

    def assigned(self, nodes):
        """Ids of scalar variables assigned in nodes, with (count, unconditional-top-level step or None)."""
        mods = {}

        def add(i, step):
            c, stp = mods.get(i, (0, None))
            mods[i] = (c + 1, step if c == 0 else None)

        def visit(n, top):
            if isinstance(n, list):
                for x in n:
                    visit(x, top)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "asg" and n["x"].get("k") == "var":
                step = None
                if top and n["op"] in ("+=", "-=") and const_of(n["y"]) is not None:
                    step = const_of(n["y"]) * (1 if n["op"] == "+=" else -1)
                elif top and n["op"] == "=":
                    y = n["y"]
                    if y.get("k") == "bin" and y["op"] in ("+", "-"):
                        if y["x"].get("k") == "var" and y["x"]["id"] == n["x"]["id"] and const_of(y["y"]) is not None:
                            step = const_of(y["y"]) * (1 if y["op"] == "+" else -1)
                        elif y["op"] == "+" and y["y"].get("k") == "var" and y["y"]["id"] == n["x"]["id"] and const_of(y["x"]) is not None:
                            step = const_of(y["x"])
                add(n["x"]["id"], step)
                visit(n["y"], False)
                return
            if k == "un" and n["op"] in ("++", "--") and n["e"].get("k") == "var":
                add(n["e"]["id"], (1 if n["op"] == "++" else -1) if top else None)
                return
            if k == "call":
                fn = self.prog.fns.get(n.get("fn"))
                for i, a in enumerate(n.get("a", [])):
                    if a.get("k") == "var" and fn and i < len(fn.ps) and (fn.ps[i].get("ref") or fn.ps[i].get("ptr")) and not fn.ps[i].get("c"):
                        add(a["id"], None)
                    if a.get("k") == "un" and a.get("op") == "&" and a["e"].get("k") == "var":
                        add(a["e"]["id"], None)
            if k == "expr":
                visit(n["e"], top)
                return
            if k == "blk":
                visit(n["s"], top)
                return
            if k == "bin" and n.get("op") == ",":
                visit(n["x"], top)
                visit(n["y"], top)
                return
            for c in children(n):
                visit(c, False)
        for n in nodes:
            visit(n, True)
        return mods

    def loop(self, s, st, cond, inc, body, is_do):
        L = Loop(s)
        nodes = [body] + ([inc] if inc else [])
        mods = self.assigned(nodes + ([cond] if cond else []))
        has_continue = contains_flow(body, "continue")
        has_break = contains_flow(body, "break") or any(n.get("k") == "ret" for n in walk(body))
        # stable step variables
        incmods = self.assigned([inc]) if inc else {}
        steps = {}
        for vid, (cnt, stp) in mods.items():
            if cnt == 1 and stp is not None and (vid in incmods or not has_continue):
                steps[vid] = stp
        # the counting variable: compared in the condition with an invariant bound
        cv = None
        for conj in conjuncts(cond) if cond else []:
            r = self.count_cond(conj, steps, mods, st)
            if r:
                cv = r
                break
        it = ("it", next(_uid))
        L.it = it
        t = Lin.atom(it)
        inits = {vid: st.env.get(vid) for vid in mods}
        if cv:
            vid, op, bound = cv
            a0 = self.lin(inits[vid]) if isinstance(inits[vid], (Lin, Cond)) else None
            if a0 is None:
                cv = None
        if cv:
            L.var, L.step = vid, steps[vid]
            if op == "!=":
                L.lo, L.hi = (a0, bound) if L.step > 0 else (bound + 1, a0 + 1)
            elif L.step > 0:
                L.lo, L.hi = a0, bound if op == "<" else bound + 1
            else:
                L.lo, L.hi = (bound if op == ">=" else bound + 1), a0 + 1
        unit = cv and abs(L.step) == 1

        def setup(h):
            # t is the counting variable itself when the step is +-1, else the iteration number
            if unit:
                n_it = (t - a0) if L.step > 0 else (a0 - t)
            else:
                n_it = t
            h.facts = h.facts.add_ge(n_it)
            for vid in mods:
                cur = inits.get(vid)
                if vid in steps and isinstance(cur, (Lin, Cond)):
                    h.env[vid] = self.lin(cur) + n_it.scale(steps[vid])
                elif vid in steps and isinstance(cur, Ptr) and cur.loc is not None and cur.off is not None:
                    h.env[vid] = Ptr(cur.loc, cur.off + n_it.scale(steps[vid]))
                elif isinstance(cur, Loc):
                    pass
                elif isinstance(cur, Ptr):
                    h.env[vid] = Ptr(None)
                elif isinstance(cur, Iter):
                    h.env[vid] = Iter(cur.loc, False, fresh())
                elif cur is not None:
                    h.env[vid] = fresh()
            if unit:
                h.env[L.var] = t
        L.modified = set(mods)
        L.first_uid = st
        return self.loop_common(L, st, [body], (cond, inc), setup, mods, is_do, has_break)

    def count_cond(self, c, steps, mods, st):
        """(var, op, bound Lin) if c compares a stepping variable with an invariant bound."""
        if c.get("k") == "bin" and c["op"] in CMP and c["op"] != "==":
            for x, y, op in ((c["x"], c["y"], c["op"]), (c["y"], c["x"], flip(c["op"]))):
                off = 0
                if x.get("k") == "bin" and x["op"] in "+-" and const_of(x["y"]) is not None:
                    off = const_of(x["y"]) * (1 if x["op"] == "+" else -1)
                    x = x["x"]
                if x.get("k") == "var" and x["id"] in steps:
                    if self.invariant(y, mods):
                        s2 = st.copy()
                        self.quiet += 1
                        try:
                            b = self.lin(self.rv(y, s2)) - off
                        finally:
                            self.quiet -= 1
                        if (steps[x["id"]] > 0 and op in ("<", "<=", "!=")) or (steps[x["id"]] < 0 and op in (">", ">=", "!=")):
                            if op == "!=" and abs(steps[x["id"]]) != 1:
                                continue
                            return x["id"], op, b
        return None

    def invariant(self, e, mods):
        for n in walk(e):
            if n.get("k") == "var" and n["id"] in mods:
                return False
            if n.get("k") in ("asg", "new", "lambda") or (n.get("k") == "un" and n["op"] in ("++", "--")):
                return False
        return True

    def loop_common(self, L, st, bodies, condinc, setup, mods, is_do, has_break=True):
        cond, inc = condinc or (None, None)
        entry = st

        def head():
            h = entry.copy()
            self.havoc_objects(h, L)
            setup(h)
            return h
        # dry pass: collect the effects of one arbitrary iteration
        L.order = len(self.loops)
        self.loops.append(L)
        try:
            self.quiet += 1
            try:
                h = head()
                dh = h.copy()
                dry_ends = self.iterate(L, h, bodies, cond, inc, is_do, first=True)
            finally:
                self.quiet -= 1
            grow = self.growth(L, entry, dh, dry_ends)
            h = head()
            for k, (d0, c) in grow.items():
                h.shape[k] = (d0 + self.iteration(L, h).scale(c),)
            h.dom.loop_begin(self, h, L, dry_ends, entry)
            ends = self.iterate(L, h, bodies, cond, inc, is_do, first=False)
        finally:
            self.loops.pop()
        out = []
        for e in ends:
            if e.flow in ("ret", "throw"):
                out.append(e)
        fall = [e for e in ends if e.flow in (None, "continue")]
        brk = [e for e in ends if e.flow == "break"]
        # exit state
        x = entry.copy()
        self.havoc_objects(x, L)
        if mods:
            for vid in mods:
                cur = entry.env.get(vid)
                if isinstance(cur, Loc):
                    continue
                if isinstance(cur, Ptr):
                    x.env[vid] = Ptr(None)
                elif isinstance(cur, Iter):
                    x.env[vid] = Iter(cur.loc, False, fresh())
                elif cur is not None or vid in x.env:
                    x.env[vid] = fresh()
        init = L.node.get("i") if L.node.get("k") == "for" else None
        own = isinstance(init, dict) and any(v.get("id") == L.var for v in init.get("v") or ())
        if L.var is not None and not own:
            a0 = self.lin(entry.env[L.var])
            b = L.hi if L.step > 0 else L.lo
            f = x.env[L.var]
            if not brk:
                if abs(L.step) == 1:
                    if L.step > 0:
                        if entry.facts.implies_ge(b - a0):
                            x.env[L.var] = b
                        else:
                            x.env[L.var] = Lin.atom(("max",) + tuple(sorted((b, a0), key=repr)))
                    else:
                        if entry.facts.implies_ge(a0 - (b - 1)):
                            x.env[L.var] = b - 1
                        else:
                            x.env[L.var] = Lin.atom(("min",) + tuple(sorted((b - 1, a0), key=repr)))
                else:
                    x.facts = x.facts.add_ge((f - b) if L.step > 0 else (b - 1 - f))
            else:
                x.facts = x.facts.add_ge((f - a0) if L.step > 0 else (a0 - f))
        elif L.var is None and cond is not None and not brk:
            self.quiet += 1
            try:
                c = self.cond_of(self.rv(cond, x), cond, x)
            finally:
                self.quiet -= 1
            r = self.assume(x, c, False)
            if r:
                x = r[0]
        if L.lo is not None and not brk and abs(L.step) == 1 and not is_do:
            for k, (d0, c) in grow.items():
                if entry.facts.implies_ge(L.hi - L.lo):
                    x.shape[k] = (d0 + (L.hi - L.lo).scale(c),)
            self.uniform(L, entry, fall, x)
        x.dom = entry.dom.copy()
        x.dom = x.dom.loop_end(self, entry, fall + brk, L, is_do)
        for e in fall + brk:
            for k in e.bools:
                pass
        x.flow = None
        if fall or brk or not is_do:
            out.append(x)
        elif cond is None and not brk:
            pass
        return out

    def iteration(self, L, h):
        """Number of iterations completed before the current one."""
        t = Lin.atom(L.it)
        if L.lo is None:
            return t
        if abs(L.step) != 1:
            return t
        return t - L.lo if L.step > 0 else L.hi - 1 - t

    def growth(self, L, entry, dh, ends):
        """Vectors growing by the same constant in every iteration: key -> (entry length, step)."""
        out = {}
        fall = [e for e in ends if e.flow in (None, "continue")]
        if not fall:
            return out
        for k, d0 in entry.shape.items():
            if len(d0) != 1 or d0[0] is None or k in dh.shape:
                continue
            loc = self.loc_named(dh, k)
            if loc is None or not is_vec(loc.t):
                continue
            a = self.dim(dh, loc, 0)
            ds = {self.dim(e, loc, 0) - a for e in fall}
            if len(ds) == 1:
                c = ds.pop()
                if c.is_const():
                    out[k] = (d0[0], c.c)
        return out

    def loc_named(self, st, k):
        """A Loc for a shape key, for objects held in a variable."""
        for v in st.env.values():
            if isinstance(v, Loc) and v.root.id == k[0] and v.sel == k[1]:
                return v
        if self.this is not None and self.this.root.id == k[0]:
            loc = self.this
            if k[1][:len(loc.sel)] == loc.sel:
                for s in k[1][len(loc.sel):]:
                    if s[0] != "f":
                        return None
                    t = self.field_type(loc.t, s[1])
                    if t == "?":
                        return None
                    loc = loc.field(s[1], t)
                return loc
        return None

    def uniform(self, L, entry, fall, x):
        """Arrays all of whose elements get the same, loop-invariant dimensions."""
        if not fall:
            return
        t = Lin.atom(L.it)
        mark = L.it[1]
        for k, v in fall[0].shape.items():
            if not k[1] or k[1][-1][0] != "i" or k[1][-1] == ANY or k[1][-1][1] != t:
                continue
            if any(d is None or not old_val(d, mark) for d in v) or not all(old_val(s[1], mark) for s in k[1][:-1] if s[0] == "i" and s != ANY):
                continue
            if not all(e.shape.get(k) is not None and len(e.shape[k]) == len(v) and all(p is not None and (p == q or e.facts.implies_eq(p - q)) for p, q in zip(e.shape[k], v)) for e in fall[1:]):
                continue
            outer = self.loc_named(x, (k[0], k[1][:-1]))
            if outer is None or not is_vec(outer.t):
                continue
            n = self.dim(x, outer, 0)
            if x.facts.implies_ge(-L.lo) and x.facts.implies_ge(L.hi - n):
                x.shape[(k[0], k[1][:-1] + (ANY,))] = v

    def iterate(self, L, h, bodies, cond, inc, is_do, first):
        states = [h]
        if cond is not None and not is_do:
            nxt = []
            for x in states:
                c = self.cond_of(self.rv(cond, x), cond, x)
                if x.flow is not None:
                    nxt.append(x)
                    continue
                nxt += self.assume(x, c, True)
            states = nxt
        for b in bodies:
            states = self.stmt(b, states)
        for x in states:
            if x.flow == "continue":
                x.flow = None
        if inc is not None:
            for x in states:
                if x.flow is None:
                    self.eval(inc, x)
        if cond is not None and is_do:
            for x in states:
                if x.flow is None:
                    self.rv(cond, x)
        return states

    def havoc_objects(self, h, L):
        """Forget versions, shapes and cells of objects the loop body may modify."""
        for r, sels in self.touched(L.node, h).items():
            h.ver[r.id] = next(_uid)
            for sel in sels:
                d = len(sel)
                self.bump_dims(h, r.id, fields_of(sel), d)
                for k in [k for k in h.shape if k[0] == r.id and len(k[1]) >= d and overlap(k[1][:d], sel)]:
                    del h.shape[k]
                for k in [k for k in h.env if isinstance(k, tuple) and k[0] == "cell" and k[1][0] == r.id and len(k[1][1]) >= d and overlap(k[1][1][:d], sel)]:
                    del h.env[k]

    def touched(self, node, st):
        """Roots the loop may modify -> selector lists (indices ANY) of what is replaced or
        resized."""
        out = {}

        def loc_of(e):
            """(root, selectors) of an lvalue expression, syntactically."""
            tail = []
            while True:
                k = e.get("k")
                if k == "idx":
                    tail.append(ANY)
                    if e.get("bt") == "NTL::zz_pX":
                        tail.append(("f", "rep"))
                    e = e["b"]
                elif k == "mem":
                    tail.append(("f", e["f"]))
                    e = e["b"]
                elif k == "call" and "obj" in e:
                    e = e["obj"]
                elif k == "un" and e["op"] in ("*", "&"):
                    e = e["e"]
                elif k == "cast":
                    e = e["e"]
                elif k == "bin" and e["op"] in "+-":
                    e = e["x"]
                else:
                    break
            tail = tuple(reversed(tail))
            if e.get("k") == "var":
                v = st.env.get(e["id"])
                if isinstance(v, (Loc, Addr, Ptr)):
                    l = v if isinstance(v, Loc) else v.loc
                    if l is not None:
                        return l.root, l.sel + tail
            elif e.get("k") == "this" and self.this is not None:
                return self.this.root, self.this.sel + tail
            return None

        def add(r):
            if r:
                out.setdefault(r[0], set()).add(r[1])

        for n in walk(node):
            k = n.get("k")
            tg = []
            if k == "decl":
                for v in n["v"]:
                    if (v.get("ref") or v.get("ptr")) and not v.get("c") and v.get("i"):
                        tg.append(v["i"])
            elif k == "asg":
                tg.append(n["x"])
            elif k == "un" and n["op"] in ("++", "--"):
                tg.append(n["e"])
            elif k == "call":
                fn = self.prog.fns.get(n.get("fn"))
                if fn is None:
                    continue
                for i, a in enumerate(n.get("a", [])):
                    if i < len(fn.ps) and (fn.ps[i].get("ref") or fn.ps[i].get("ptr")) and not fn.ps[i].get("c"):
                        tg.append(a)
                    if fn.q in ALG:
                        tg.append(a)
                if "obj" in n and not fn.cm and not fn.sm and fn.n not in ("elts", "begin", "end", "operator()", "operator[]", "operator->"):
                    tg.append(n["obj"])
                elif "obj" in n and fn.n == "elts":
                    r = loc_of(n["obj"])
                    if r and not n.get("oc"):
                        add((r[0], r[1] + (ANY,)))
            for t in tg:
                if isinstance(t, dict):
                    add(loc_of(t))
        return out


def residue(b):
    """The representative of a field element stands for the element."""
    return Loc(b.root, b.sel, "long", b.via, b.tn[:-1] + ("long",), b.cst)


def children(n):
    for k, v in n.items():
        if isinstance(v, dict) and "k" in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    if "k" in x:
                        yield x
                    elif "i" in x and isinstance(x["i"], dict):
                        yield x["i"]


def conjuncts(c):
    if c is not None and c.get("k") == "bin" and c["op"] == "&&":
        return conjuncts(c["x"]) + conjuncts(c["y"])
    return [c] if c is not None else []


def flip(op):
    return {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!=", "==": "=="}[op]


def const_of(e):
    if e.get("k") == "int":
        return int(e["v"])
    if "cv" in e:
        return int(e["cv"])
    return None


def contains_flow(body, what):
    """break/continue belonging to this loop body."""
    def rec(n):
        if isinstance(n, list):
            return any(rec(x) for x in n)
        if not isinstance(n, dict):
            return False
        k = n.get("k")
        if k == what:
            return True
        if k in ("for", "while", "do", "rfor", "lambda"):
            return False
        if k == "switch" and what == "break":
            return False
        return any(rec(v) for v in n.values() if isinstance(v, (dict, list)))
    return rec(body)


def overlap(s1, s2):
    """Could two selector lists denote overlapping storage (prefix-wise)?"""
    for a, b in zip(s1, s2):
        if a[0] != b[0]:
            return False
        if a[0] == "f":
            if a[1] != b[1]:
                return False
        elif a != ANY and b != ANY:
            d = a[1] - b[1]
            if d.is_const() and d.c != 0:
                return False
    return True


def old_val(x, mark):
    """Does the (nested) key x mention only symbols that existed at time mark?"""
    if isinstance(x, Lin):
        return all(old_val(a, mark) for a in x.d)
    if isinstance(x, Cond):
        return old_cond(x, mark)
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] in ("u", "phi", "it", "nonneg", "fresh", "ret", "iter") and isinstance(x[1], int):
            return x[1] < mark
        if x and x[0] == "dim" and len(x) == 5:
            try:
                return int(x[1].rsplit("#", 1)[1]) < mark and x[4] < mark and all(old_val(s, mark) for s in x[2])
            except (ValueError, IndexError):
                return False
        if x and x[0] == "cell" and len(x) == 4:
            try:
                return int(x[1].rsplit("#", 1)[1]) < mark and x[3] < mark
            except (ValueError, IndexError):
                return False
        if x and x[0] == "meth" and len(x) == 5:
            return int(x[2].rsplit("#", 1)[1]) < mark and x[4] < mark
        if len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], int) and isinstance(x[0][1], tuple) and isinstance(x[1], int):
            return x[0][0] < mark and x[1] < mark
        return all(old_val(y, mark) for y in x)
    return True


def old_cond(c, mark):
    if c.k == "const":
        return True
    if c.k in ("and", "or"):
        return old_cond(c.a, mark) and old_cond(c.b, mark)
    if c.k == "not":
        return old_cond(c.a, mark)
    if c.k == "cmp":
        return old_val(c.b[0], mark) and old_val(c.b[1], mark)
    return old_val(c.a, mark)


def is_raw_elem(t):
    return False


def same_val(x, y):
    if x is y:
        return True
    if type(x) != type(y):
        return False
    if isinstance(x, Lin):
        return x == y
    if isinstance(x, Cond):
        return x.key() == y.key()
    if isinstance(x, Loc):
        return x.key() == y.key()
    if isinstance(x, Ptr):
        return (x.loc is None) == (y.loc is None) and (x.loc is None or x.loc.key() == y.loc.key()) and x.off == y.off
    if isinstance(x, Addr):
        return x.loc.key() == y.loc.key()
    if isinstance(x, Iter):
        return (x.loc is None and y.loc is None) or (x.loc is not None and y.loc is not None and x.loc.key() == y.loc.key() and x.end == y.end and x.off == y.off)
    return False


# -------------------------------------------------------------------- models
MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def _rest(ex, st, args, e, i0=0):
    a = e.get("a", [])
    return [ex.consume(v, x, st) for v, x in list(zip(args, a))[i0:]]


def m_reserve(ex, st, fn, obj, args, e):
    _rest(ex, st, args, e)
    return None


def install():
    T = ["NTL::zz_p", "NTL::zz_pX", "long", "unsigned long", "NTL::ZZ", "NTL::fftRep", "NTL::ll_type"]

    def rows(ex, st, fn, obj, args, e):
        if isinstance(obj, Loc):
            ex.note_read(st, obj, e, True)
            return ex.dim(st, obj, 0)
        return fresh("nonneg")

    def cols(ex, st, fn, obj, args, e):
        if isinstance(obj, Loc):
            ex.note_read(st, obj, e, True)
            return ex.dim(st, obj, 1)
        return fresh("nonneg")

    def length(ex, st, fn, obj, args, e):
        if isinstance(obj, Loc):
            ex.note_read(st, obj, e, True)
            return ex.dim(st, obj, 0)
        return fresh("nonneg")

    def setdims(ex, st, fn, obj, args, e):
        v = [ex.lin(x) for x in _rest(ex, st, args, e)]
        if isinstance(obj, Loc):
            st.dom.event(ex, st, "setdims", e, loc=obj, dims=v)
            cur = (ex.dim(st, obj, 0), ex.dim(st, obj, 1))
            if len(v) == 2:
                same = all(st.facts.implies_eq(x - y) for x, y in zip(v, cur))
                if not same:
                    ex.note_write(st, obj, e, "resize")
                ex.set_shape(st, obj, v)
        return None

    def setlength(ex, st, fn, obj, args, e):
        v = [ex.lin(x) if isinstance(x, (Lin, Cond)) else x for x in _rest(ex, st, args, e)]
        if isinstance(obj, Loc) and v and isinstance(v[0], Lin):
            st.dom.event(ex, st, "setlength", e, loc=obj, dims=v[:1])
            tgt = obj.field("rep", "NTL::Vec<NTL::zz_p>") if obj.t == "NTL::zz_pX" else obj
            if len(v) > 1:      # new entries get the value, old ones stay
                ex.note_write(st, tgt, e, "rmw")
            elif not st.facts.implies_eq(v[0] - ex.dim(st, tgt, 0)):
                ex.note_write(st, tgt, e, "resize")
            ex.set_shape(st, tgt, v[:1])
        return None

    def refill(ex, st, fn, obj, args, e):
        """vector::assign: the whole content is replaced."""
        v = _rest(ex, st, args, e)
        if isinstance(obj, Loc):
            n = None
            a, b = (v + [None, None])[:2]
            if isinstance(a, Iter):
                if isinstance(b, Iter) and b.end and b.off is None and a.off is None and a.loc is not None and b.loc is not None and a.loc.key() == b.loc.key():
                    n = ex.dim(st, a.loc, 0)
            elif isinstance(a, (Lin, Cond)):
                n = ex.lin(a)
            ex.note_write(st, obj, e, "assign")
            if n is not None:
                ex.set_shape(st, obj, (n,))
        return None

    def pop_back(ex, st, fn, obj, args, e):
        if isinstance(obj, Loc):
            n = ex.dim(st, obj, 0)
            ex.note_write(st, obj, e, "resize")
            ex.set_shape(st, obj, (n - 1,))
        return None

    def elts(ex, st, fn, obj, args, e):
        if isinstance(obj, Loc):
            if obj.t == "NTL::zz_pX":
                obj = obj.field("rep", "NTL::Vec<NTL::zz_p>")
            return Ptr(obj, Lin.const(0))
        return Ptr(None)

    def assign(ex, st, fn, obj, args, e):
        v = args[0]
        if isinstance(v, Loc) and isinstance(obj, Loc) and (v.t == obj.t):
            ex.assign_obj(st, obj, v, e)
        else:
            ex.consume(v, e["a"][0], st)
            if isinstance(obj, Loc):
                ex.note_write(st, obj, e, "assign")
                if obj.t == "NTL::zz_pX" and isinstance(v, Lin) and v.is_const():
                    ex.set_shape(st, obj.field("rep", "NTL::Vec<NTL::zz_p>"), (Lin.const(0 if v.c == 0 else 1),))
        return obj

    def kill(ex, st, fn, obj, args, e):
        if isinstance(obj, Loc):
            ex.note_write(st, obj, e, "assign")
            if is_mat(obj.t):
                ex.set_shape(st, obj, (Lin.const(0), Lin.const(0)))
            elif is_vec(obj.t):
                ex.set_shape(st, obj, (Lin.const(0),))
        return None

    def swap(ex, st, fn, obj, args, e):
        a, b = (obj, args[0]) if obj is not None else (args[0], args[1])
        if isinstance(a, Loc) and isinstance(b, Loc):
            if a.key() == b.key():
                return None
            sa = snapshot(ex, st, a)
            sb = snapshot(ex, st, b)
            st.dom.event(ex, st, "swap", e, a=a, b=b)
            ex.kill_shape(st, a)
            ex.kill_shape(st, b)
            ex.bump(st, a)
            ex.bump(st, b)
            restore(ex, st, a, sb)
            restore(ex, st, b, sa)
            return None
        x = e.get("a", [])
        if len(x) == 2 and all(y.get("k") == "var" for y in x):
            va, vb = args
            ex.assign_lv(x[0], vb, st, e)
            ex.assign_lv(x[1], va, st, e)
            return None
        return NotImplemented

    def move(ex, st, fn, obj, args, e):
        v = args[0]
        if isinstance(obj, Loc) and isinstance(v, Loc):
            ex.assign_obj(st, obj, v, e)
            ex.note_write(st, v, e, "assign")
        return None

    def append(ex, st, fn, obj, args, e):
        _rest(ex, st, args, e)
        if isinstance(obj, Loc):
            n = ex.dim(st, obj, 0)
            ex.note_write(st, obj, e, "append")
            ex.set_shape(st, obj, (n + 1,))
        return None

    def iters(end):
        def f(ex, st, fn, obj, args, e):
            return Iter(obj if isinstance(obj, Loc) else None, end)
        return f

    for t in T + ["NTL::Mat<NTL::zz_p>", "NTL::Mat<NTL::zz_pX>"]:
        pass
    # generic by pattern
    GEN = [
        (re.compile(r"NTL::Mat<.*>::NumRows$"), rows), (re.compile(r"NTL::Mat<.*>::NumCols$"), cols),
        (re.compile(r"(NTL::Vec|std::vector)<.*>::(length|size)$"), length),
        (re.compile(r"NTL::Mat<.*>::SetDims$"), setdims),
        (re.compile(r"((NTL::Vec|NTL::UniqueArray)<.*>::(SetLength|FixLength)|NTL::zz_pX::SetLength|std::vector<.*>::resize)$"), setlength),
        (re.compile(r"(NTL::Vec|NTL::UniqueArray)<.*>::(elts|get)$"), elts), (re.compile(r"std::vector<.*>::data$"), elts),
        (re.compile(r".*::operator=$"), assign),
        (re.compile(r"(NTL::(Mat|Vec)|std::vector|std::__cxx11::list)<.*>::(kill|clear)$"), kill),
        (re.compile(r"(.*::swap|NTL::swap|std::swap)$"), swap),
        (re.compile(r"NTL::(Mat|Vec)<.*>::move$"), move),
        (re.compile(r"(NTL::Vec<.*>::append|std::vector<.*>::(push_back|emplace_back))$"), append),
        (re.compile(r"std::vector<.*>::assign$"), refill), (re.compile(r"std::vector<.*>::pop_back$"), pop_back),
        (re.compile(r"(std::vector<.*>::reserve|NTL::(Vec|zz_pX).*::SetMaxLength)$"), m_reserve),
        (re.compile(r"std::vector<.*>::c?begin$"), iters(False)), (re.compile(r"std::vector<.*>::c?end$"), iters(True)),
    ]
    return GEN


_GEN = install()
_cache = {}


class _Models(dict):
    def get(self, q, d=None):
        if q in self:
            return self[q]
        if q not in _cache:
            _cache[q] = next((f for r, f in _GEN if r.match(q)), None)
        return _cache[q] or d


MODELS = _Models(MODELS)


def snapshot(ex, st, l):
    n = len(l.sel)
    s = [(k[1][n:], v) for k, v in st.shape.items() if k[0] == l.root.id and k[1][:n] == l.sel]
    if not any(not k for k, v in s):
        if is_mat(l.t):
            s.append(((), (ex.dim(st, l, 0), ex.dim(st, l, 1))))
        elif is_vec(l.t):
            s.append(((), (ex.dim(st, l, 0),)))
        elif l.t == "NTL::zz_pX":
            s.append((((("f", "rep"),)), (ex.dim(st, l, 0),)))
    return s


def restore(ex, st, l, s):
    for k, v in s:
        st.shape[(l.root.id, l.sel + tuple(k))] = v


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


@model("NTL::zz_p::LoopHole")
def m_loophole(ex, st, fn, obj, args, e):
    if isinstance(obj, Loc):
        return residue(obj)
    if isinstance(obj, Ptr) and obj.loc is not None:
        return residue(obj.loc.at(obj.off if obj.off is not None else fresh()))
    return NotImplemented


@model("NTL::deg")
def m_deg(ex, st, fn, obj, args, e):
    if len(args) == 1 and isinstance(args[0], Loc) and args[0].t == "NTL::zz_pX":
        ex.note_read(st, args[0], e, True)
        return ex.dim(st, args[0], 0) - 1
    return NotImplemented


@model("NTL::zz_p::modulus")
def m_modulus(ex, st, fn, obj, args, e):
    return Lin.atom(("modulus", st.ver.get("modulus", 0)))


@model("NTL::operator==", "NTL::operator!=")
def m_eq(ex, st, fn, obj, args, e):
    """An object equals itself."""
    if len(args) == 2 and all(isinstance(x, Loc) for x in args) and args[0].root is args[1].root and args[0].sel == args[1].sel:
        for x in args:
            ex.consume(x, e, st)
        return Cond("const", fn.q.endswith("=="))
    return NotImplemented


@model("NTL::FFTRoundUp")
def m_fftup(ex, st, fn, obj, args, e):
    v = [ex.lin(x) for x in _rest(ex, st, args, e)]
    if len(v) != 2:
        return NotImplemented
    if len(v[0].d) == 1 and v[0].c == 0:        # rounding twice
        a, n = next(iter(v[0].d.items()))
        if n == 1 and isinstance(a, tuple) and a and a[0] == "fftup" and a[2] == v[1]:
            return v[0]
    return Lin.atom(("fftup", v[0], v[1]))


@model("NTL::NextPowerOfTwo")
def m_npot(ex, st, fn, obj, args, e):
    v = _rest(ex, st, args, e)
    return Lin.atom(("npot", ex.lin(v[0])))


def _minmax(name):
    def f(ex, st, fn, obj, args, e):
        v = _rest(ex, st, args, e)
        if len(v) == 2 and all(isinstance(x, (Lin, Cond)) for x in v):
            x, y = ex.lin(v[0]), ex.lin(v[1])
            if st.facts.implies_ge(x - y):
                return y if name == "min" else x
            if st.facts.implies_ge(y - x):
                return x if name == "min" else y
            return Lin.atom((name,) + tuple(sorted((x, y), key=repr)))
        return NotImplemented
    return f


MODELS["NTL::min"] = MODELS["std::min"] = _minmax("min")
MODELS["NTL::max"] = MODELS["std::max"] = _minmax("max")


@model("NTL::IsZero")
def m_iszero(ex, st, fn, obj, args, e):
    v = args[0]
    if isinstance(v, Loc):
        ex.consume(v, e, st)
        if v.t == "NTL::zz_pX":
            d = ex.dim(st, v, 0)
            return Cond("cmp", "==", (d, Lin.const(0)))
        return Cond("opq", ("iszero", v.key(), st.ver.get(v.root.id, 0)))
    return NotImplemented


@model("NTL::clear")
def m_clear(ex, st, fn, obj, args, e):
    v = args[0]
    if isinstance(v, Loc):
        if is_mat(v.t):
            d = (ex.dim(st, v, 0), ex.dim(st, v, 1))
            ex.note_write(st, v, e, "fill")
            ex.set_shape(st, v, d)
        elif is_vec(v.t):
            d = (ex.dim(st, v, 0),)
            ex.note_write(st, v, e, "fill")
            ex.set_shape(st, v, d)
        else:
            ex.note_write(st, v, e, "assign")
            if v.t == "NTL::zz_pX":
                ex.set_shape(st, v.field("rep", "NTL::Vec<NTL::zz_p>"), (Lin.const(0),))
        return None
    return NotImplemented


@model("PML::clear")
def m_pclear(ex, st, fn, obj, args, e):
    return m_clear(ex, st, fn, obj, args, e)


@model("NTL::set")
def m_set(ex, st, fn, obj, args, e):
    v = args[0]
    if isinstance(v, Loc):
        ex.note_write(st, v, e, "assign")
        if v.t == "NTL::zz_pX":
            ex.set_shape(st, v.field("rep", "NTL::Vec<NTL::zz_p>"), (Lin.const(1),))
        return None
    return NotImplemented


@model("NTL::SetCoeff")
def m_setcoeff(ex, st, fn, obj, args, e):
    v = args[0]
    i = ex.lin(ex.consume(args[1], e["a"][1], st)) if len(args) > 1 else fresh()
    if len(args) > 2:
        ex.consume(args[2], e["a"][2], st)
    if isinstance(v, Loc):
        st.dom.event(ex, st, "setcoeff", e, loc=v, index=i)
        ex.note_write(st, v, e, "rmw")
    return None


@model("NTL::coeff", "NTL::GetCoeff")
def m_coeff(ex, st, fn, obj, args, e):
    if len(args) == 2 and isinstance(args[0], Loc):
        i = ex.lin(ex.consume(args[1], e["a"][1], st))
        if args[0].t == "NTL::zz_pX":
            ex.note_read(st, args[0].at(i), e)
        else:
            ex.note_read(st, args[0], e)
        return ex.new_tmp(st, e.get("t", "?"))
    return NotImplemented


@model("NTL::LeadCoeff", "NTL::ConstTerm")
def m_lc(ex, st, fn, obj, args, e):
    if isinstance(args[0], Loc):
        ex.note_read(st, args[0], e)
    return ex.new_tmp(st, e.get("t", "?"))


@model("NTL::zz_pX::SetMaxLength")
def m_smax(ex, st, fn, obj, args, e):
    _rest(ex, st, args, e)
    return None


@model("NTL::zz_pX::normalize")
def m_norm(ex, st, fn, obj, args, e):
    if isinstance(obj, Loc):
        st.dom.event(ex, st, "normalize", e, loc=obj)
        rep = obj.field("rep", "NTL::Vec<NTL::zz_p>")
        old = ex.dim(st, rep, 0)
        ex.bump(st, obj)
        ex.kill_shape(st, rep)
        new = ex.dim(st, rep, 0)
        st.facts = st.facts.add_ge(old - new)
    return None


@model("NTL::operator<<", "NTL::operator>>")
def m_shift(ex, st, fn, obj, args, e):
    return NotImplemented


@model("NTL::LeftShift")
def m_lshift(ex, st, fn, obj, args, e):
    return NotImplemented


@model("NTL::trunc")
def m_trunc(ex, st, fn, obj, args, e):
    if len(args) == 3 and isinstance(args[0], Loc) and args[0].t == "NTL::zz_pX":
        ex.consume(args[1], e["a"][1], st)
        n = ex.lin(ex.consume(args[2], e["a"][2], st))
        sd = ex.dim(st, args[1], 0) if isinstance(args[1], Loc) else None
        ex.note_write(st, args[0], e, "assign", args[1] if isinstance(args[1], Loc) else None)
        d = ex.dim(st, args[0], 0)
        st.facts = st.facts.add_ge(n - d)
        if sd is not None:
            st.facts = st.facts.add_ge(sd - d)
        return None
    return NotImplemented


def need_eq(ex, st, x, y):
    """NTL raises an error unless x == y; False if that is certain to happen."""
    if st.facts.implies_ne(x - y):
        st.flow = "throw"
        return False
    st.facts = st.facts.add_eq(x - y)
    return True


def _mulmat(ex, st, fn, obj, args, e):
    if len(args) == 3 and all(isinstance(a, Loc) for a in args) and all(is_mat(a.t) for a in args):
        for a, x in list(zip(args, e["a"]))[1:]:
            ex.consume(a, x, st)
        st.dom.event(ex, st, "matmul", e, args=args)
        if not need_eq(ex, st, ex.dim(st, args[1], 1), ex.dim(st, args[2], 0)):
            return None
        d = (ex.dim(st, args[1], 0), ex.dim(st, args[2], 1))
        ex.note_write(st, args[0], e, "assign")
        ex.set_shape(st, args[0], d)
        return None
    return NotImplemented


MODELS["NTL::mul"] = _mulmat


def _addmat(ex, st, fn, obj, args, e):
    if len(args) == 3 and all(isinstance(a, Loc) for a in args) and (is_mat(args[0].t) or is_vec(args[0].t)) and args[1].t == args[0].t and args[2].t == args[0].t:
        for a, x in list(zip(args, e["a"]))[1:]:
            ex.consume(a, x, st)
        d = (ex.dim(st, args[1], 0), ex.dim(st, args[1], 1)) if is_mat(args[0].t) else (ex.dim(st, args[1], 0),)
        for k in range(len(d)):
            if not need_eq(ex, st, d[k], ex.dim(st, args[2], k)):
                return None
        ex.note_write(st, args[0], e, "assign")
        ex.set_shape(st, args[0], d)
        return None
    return NotImplemented


MODELS["NTL::add"] = MODELS["NTL::sub"] = _addmat


def _sameshape(ex, st, fn, obj, args, e):
    if len(args) == 2 and all(isinstance(a, Loc) for a in args) and is_mat(args[0].t) and is_mat(args[1].t):
        ex.consume(args[1], e["a"][1], st)
        d = (ex.dim(st, args[1], 0), ex.dim(st, args[1], 1))
        if fn.n == "transpose":
            d = (d[1], d[0])
        ex.note_write(st, args[0], e, "assign")
        ex.set_shape(st, args[0], d)
        return None
    return NotImplemented


MODELS["NTL::negate"] = MODELS["NTL::inv"] = MODELS["NTL::transpose"] = _sameshape


@model("NTL::ident")
def m_ident(ex, st, fn, obj, args, e):
    if isinstance(args[0], Loc) and is_mat(args[0].t):
        n = ex.lin(ex.consume(args[1], e["a"][1], st))
        ex.note_write(st, args[0], e, "assign")
        ex.set_shape(st, args[0], (n, n))
        return None
    return NotImplemented


@model("NTL::random")
def m_random(ex, st, fn, obj, args, e):
    if args and isinstance(args[0], Loc):
        v = [ex.lin(x) for x in _rest(ex, st, args, e, 1)]
        ex.note_write(st, args[0], e, "assign")
        if is_mat(args[0].t) and len(v) == 2:
            ex.set_shape(st, args[0], v)
        elif is_vec(args[0].t) and len(v) == 1:
            ex.set_shape(st, args[0], v)
        return None
    return NotImplemented


def _opshape(ex, st, fn, obj, args, e):
    """Operators of NTL on matrices and vectors that return a fresh container."""
    t = e.get("t", "?")
    if not (is_mat(t) or is_vec(t)) or not args:
        return NotImplemented
    xs = [ex.consume(a, x, st) for a, x in zip(args, e.get("a", []))]
    mats = [a for a in args if isinstance(a, Loc) and (is_mat(a.t) or is_vec(a.t))]
    d = None
    if fn.n in ("operator+", "operator-") and mats:
        d = tuple(ex.dim(st, mats[0], k) for k in range(2 if is_mat(mats[0].t) else 1))
    elif fn.n == "operator*" and len(args) == 2:
        if len(mats) == 2:
            a, b = mats
            if is_mat(a.t) and is_mat(b.t):
                d = (ex.dim(st, a, 0), ex.dim(st, b, 1))
            elif is_mat(a.t):
                d = (ex.dim(st, a, 0),)
            elif is_mat(b.t):
                d = (ex.dim(st, b, 1),)
        elif len(mats) == 1:
            d = tuple(ex.dim(st, mats[0], k) for k in range(2 if is_mat(mats[0].t) else 1))
    elif fn.n == "transpose" and len(mats) == 1:
        d = (ex.dim(st, mats[0], 1), ex.dim(st, mats[0], 0))
    elif fn.n == "inv" and len(mats) == 1 and is_mat(mats[0].t):
        d = (ex.dim(st, mats[0], 0), ex.dim(st, mats[0], 1))
    elif fn.n in ("ident_mat_zz_p", "random_mat_zz_p", "random_vec_zz_p"):
        v = [ex.lin(x) for x in xs]
        d = (v[0], v[0]) if fn.n.startswith("ident") else tuple(v)
    if d is None or len(d) != (2 if is_mat(t) else 1):
        return NotImplemented
    r = ex.new_tmp(st, t, fn.n)
    ex.set_shape(st, r, d)
    return r


def _orelse(first, then):
    def f(ex, st, fn, obj, args, e):
        r = first(ex, st, fn, obj, args, e)
        return then(ex, st, fn, obj, args, e) if r is NotImplemented else r
    return f


for _n in ("operator+", "operator-", "operator*", "transpose", "inv", "ident_mat_zz_p", "random_mat_zz_p", "random_vec_zz_p"):
    _q = "NTL::" + _n
    MODELS[_q] = _orelse(MODELS[_q], _opshape) if _q in MODELS else _opshape
