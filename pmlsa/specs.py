"""Conditions on a function's arguments in a form independent of internal numbering.

term  = [[coef, atom], ..., const]
atom  = ["v", i] value of integer parameter i
      | ["dim", where, k] dimension k of an object, where = ["p", i] or ["this"], optionally
        followed by field names
      | ["m", name] value of the argument-less integer method `name` of *this
      | ["mp", i, name] the same for class-type parameter i
      | ["cell", where...] integer field
"""
from .lin import Lin
from .absint import Exec, Loc, Root, St, is_int


class Enc:
    """Translates between Lin terms over entry atoms and portable terms, for one run."""

    def __init__(self, ex, st, func):
        self.ex, self.st, self.func = ex, st, func
        self.roots = {}
        for i, r in enumerate(ex.params):
            if r is not None:
                self.roots[r.name + "#%d" % r.id] = ["p", i]
        if ex.this is not None:
            self.roots["this#%d" % ex.this.root.id] = ["this"]
        self.rid = {}
        for i, r in enumerate(ex.params):
            if r is not None:
                self.rid[r.id] = ["p", i]
        if ex.this is not None:
            self.rid[ex.this.root.id] = ["this"]
        self.back = {tuple(v): k for k, v in self.rid.items()}
        self.ids = {p["id"]: i for i, p in enumerate(func.ps)}
        self.meth = {}

    def add_methods(self, names=("NumRows", "NumCols", "length")):
        """Learn which atoms the dimension queries of *this and of class parameters denote."""
        for key, loc, cls in self.objects():
            for n in names:
                v = self.query(loc, cls, n)
                if v is not None and len(v.d) == 1 and v.c == 0:
                    a, k = next(iter(v.d.items()))
                    if k == 1:
                        self.meth.setdefault(a, key + [n])

    def objects(self):
        out = []
        if self.ex.this is not None and self.func.cls:
            out.append((["m"], self.ex.this, self.func.cls))
        for i, p in enumerate(self.func.ps):
            if p["t"] in self.ex.prog.classes:
                v = self.st.env.get(p["id"])
                if isinstance(v, Loc):
                    out.append((["mp", i], v, p["t"]))
        return out

    def query(self, loc, cls, n):
        fn = declared(self.ex.prog, cls, n)
        if fn is not None and fn.virt and self.ex.prog.overriders(fn.m):
            return Lin.atom(("meth", n, loc.root.name + "#%d" % loc.root.id, loc.sel, self.st.ver.get(loc.root.id, 0)))
        f = method(self.ex.prog, cls, n)
        if f is None:
            return None
        s = self.st.copy()
        ex = self.ex
        ex.quiet += 1
        save = ex.inline
        ex.inline = lambda g, d: True
        try:
            v = ex.inline_call(f, loc, [], {"a": [], "t": f.rt, "l": 0, "k": "call"}, s)
            v = ex.consume(v, {"l": 0}, s) if v is not None else None
        finally:
            ex.quiet -= 1
            ex.inline = save
        return v if isinstance(v, Lin) else None

    def enc_atom(self, a):
        if a in self.meth:
            return self.meth[a]
        if not isinstance(a, tuple):
            return None
        if a[0] == "v" and a[2] in self.ids:
            return ["v", self.ids[a[2]]]
        if a[0] == "dim" and a[4] == 0 and a[1] in self.roots:
            if all(s[0] == "f" or s[1] == Lin.const(0) for s in a[2]):
                return ["dim", self.roots[a[1]] + [s[1] if s[0] == "f" else "#0" for s in a[2]], a[3]]
        if a[0] == "cell" and a[3] == 0 and a[1] in self.roots and all(s[0] == "f" for s in a[2]):
            return ["cell", self.roots[a[1]] + [s[1] for s in a[2]]]
        if a[0] == "modulus" and a[1] == 0:
            return ["modulus"]
        if a[0] == "opq":
            try:
                return ["opq", self.enc_key(a[1])]
            except KeyError:
                return None
        if a[0] in ("min", "max"):
            xs = [self.enc(x) for x in a[1:]]
            return [a[0]] + xs if all(x is not None for x in xs) else None
        if a[0] in ("mul",):
            xs = [self.enc(x) for x in a[1:]]
            return [a[0]] + xs if all(x is not None for x in xs) else None
        if a[0] in ("div", "fdiv", "mod"):
            xs = [self.enc(x) for x in a[1:]]
            return [a[0]] + xs if all(x is not None for x in xs) else None
        if a[0] in ("npot", "pow2"):
            x = self.enc(a[1])
            return [a[0], x] if x is not None else None
        return None

    def enc_key(self, x):
        """Key of an uninterpreted expression, with objects named by parameter."""
        if x is None or isinstance(x, (str, int, bool)):
            return x
        if isinstance(x, Lin):
            e = self.enc(x)
            if e is None:
                raise KeyError
            return {"lin": e}
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 2 and isinstance(x[0][0], int) and isinstance(x[0][1], tuple):
                if x[1] != 0 or x[0][0] not in self.rid or any(s[0] != "f" for s in x[0][1]):
                    raise KeyError
                return {"loc": self.rid[x[0][0]] + [s[1] for s in x[0][1]]}
            if x and x[0] == "this" and len(x) == 2:
                if x[1]:
                    raise KeyError
                return {"this": 1}
            if x and x[0] in ("fresh", "ptr", "iter", "ret"):
                raise KeyError
            if x and x[0] not in ("var", "call", "mem", "idx", "bin", "un", "cast", "cond", "ctor", "int", "float") and len(x) == 2:
                raise KeyError
            return [self.enc_key(y) for y in x]
        raise KeyError

    def dec_key(self, x):
        if isinstance(x, dict):
            if "lin" in x:
                l = self.dec(x["lin"])
                if l is None:
                    raise KeyError
                return l
            if "this" in x:
                return ("this", 0)
            w = x["loc"]
            n = 1 if w[0] == "this" else 2
            return ((self.back[tuple(w[:n])], tuple(("f", f) for f in w[n:])), 0)
        if isinstance(x, list):
            return tuple(self.dec_key(y) for y in x)
        return x

    def enc(self, l):
        out = []
        for a, k in l.d.items():
            e = self.enc_atom(a)
            if e is None:
                return None
            out.append([k, e])
        out.sort(key=str)
        return out + [l.c]

    def loc_of(self, w):
        if w[0] == "this":
            if self.ex.this is None:
                return None, ()
            loc, rest = self.ex.this, w[1:]
            cls = self.func.cls
        else:
            if w[1] >= len(self.func.ps):
                return None, ()
            loc, rest = self.st.env.get(self.func.ps[w[1]]["id"]), w[2:]
            cls = self.func.ps[w[1]]["t"]
        for f in rest:
            if not isinstance(loc, Loc):
                return None
            if f == "#0":
                loc = loc.at(Lin.const(0))
                continue
            t = self.ex.field_type(loc.t, f) if loc.t != "NTL::zz_pX" else "NTL::Vec<NTL::zz_p>"
            if t == "?":
                return None
            loc = loc.field(f, t)
        return loc

    def dec_atom(self, e):
        """Lin for a portable atom, or None when it no longer exists."""
        k = e[0]
        if k == "v":
            if e[1] >= len(self.func.ps):
                return None
            v = self.st.env.get(self.func.ps[e[1]]["id"])
            return v if isinstance(v, Lin) else None
        if k == "dim":
            loc = self.loc_of(e[1])
            return self.ex.dim(self.st, loc, e[2]) if isinstance(loc, Loc) else None
        if k == "cell":
            loc = self.loc_of(e[1])
            return self.ex.load_int(self.st, loc, None) if isinstance(loc, Loc) else None
        if k == "m":
            return self.query(self.ex.this, self.func.cls, e[1]) if self.ex.this is not None else None
        if k == "mp":
            loc = self.st.env.get(self.func.ps[e[1]]["id"])
            return self.query(loc, self.func.ps[e[1]]["t"], e[2]) if isinstance(loc, Loc) else None
        if k == "opq":
            try:
                return Lin.atom(("opq", self.dec_key(e[1])))
            except KeyError:
                return None
        if k == "modulus":
            return Lin.atom(("modulus", 0))
        if k in ("min", "max", "mul"):
            xs = [self.dec(x) for x in e[1:]]
            if any(x is None for x in xs):
                return None
            return Lin.atom((k,) + tuple(sorted(xs, key=repr)))
        if k in ("div", "fdiv", "mod"):
            xs = [self.dec(x) for x in e[1:]]
            return None if any(x is None for x in xs) else Lin.atom((k,) + tuple(xs))
        if k in ("npot", "pow2"):
            x = self.dec(e[1])
            return None if x is None else Lin.atom((k, x))
        return None

    def dec(self, t):
        r = Lin.const(t[-1])
        for k, a in t[:-1]:
            x = self.dec_atom(a)
            if x is None:
                return None
            r = r + x.scale(k)
        return r


def declared(prog, cls, n):
    """Declaration of the argument-less method n of cls or of a base class."""
    for fn in prog.fns.values():
        if fn.cls == cls and fn.n == n and not fn.ps:
            return fn
    for b in prog.classes.get(cls, {}).get("bases", []):
        f = declared(prog, b, n)
        if f is not None:
            return f
    return None


def method(prog, cls, n):
    """Body of the argument-less method n of cls or of a base class."""
    c = prog.classes.get(cls)
    for f in prog.funcs.values():
        if f.cls == cls and f.n == n and not f.ps:
            return f
    if c:
        for b in c["bases"]:
            f = method(prog, b, n)
            if f is not None:
                return f
    return None


def show(func, t):
    def at(e):
        k = e[0]
        if k == "v":
            return func.ps[e[1]]["n"] if e[1] < len(func.ps) else "?"
        if k in ("dim", "cell"):
            w = e[1]
            s = "this" if w[0] == "this" else func.ps[w[1]]["n"]
            s += "".join("." + x for x in (w[1:] if w[0] == "this" else w[2:]))
            return s if k == "cell" else "%s(%s)" % (("rows" if e[2] == 0 else "cols") if "Mat<" in str(func.ps[w[1]]["t"] if w[0] == "p" else "") and len(w) == 2 else "len", s)
        if k == "m":
            return "this." + e[1] + "()"
        if k == "mp":
            return "%s.%s()" % (func.ps[e[1]]["n"], e[2])
        if k == "modulus":
            return "p"
        if k == "opq":
            return "expr(%s)" % names_in(func, e[1])
        return "%s(%s)" % (k, ",".join(show(func, x) for x in e[1:]))
    s = ""
    for k, a in t[:-1]:
        n = at(a)
        s += (" + " if s and k > 0 else " - " if k < 0 and s else "-" if k < 0 else "") + (n if abs(k) == 1 else "%d*%s" % (abs(k), n))
    if t[-1] or not s:
        s += (" + %d" % t[-1] if s and t[-1] > 0 else " - %d" % -t[-1] if s else "%d" % t[-1])
    return s


def names_in(func, x):
    if isinstance(x, dict):
        if "loc" in x:
            w = x["loc"]
            return ("this" if w[0] == "this" else func.ps[w[1]]["n"] if w[1] < len(func.ps) else "?") + "".join("." + y for y in w[1 if w[0] == "this" else 2:])
        if "lin" in x:
            return show(func, x["lin"])
        return "this"
    if isinstance(x, list):
        return " ".join(y for y in (names_in(func, y) for y in x) if y)
    if isinstance(x, str):
        import re
        m = re.match(r"_ZN?K?(?:3PML|3NTL)?(\d+)(\w+)", x)
        return m.group(2)[:int(m.group(1))] if m else x
    return "" if x is None else str(x)
