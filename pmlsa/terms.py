"""Values of loop-free functions as terms over their parameters.

A term is ("p", i) for a parameter, ("k", v) for a constant, ("lin", ...) for integer arithmetic,
("f", name, args) for the result of an operation on terms.  `c = op(a, b)`, `op(c, a, b)` and
`c op= b` all give c the same term, loop-free single-path functions of the library are expanded,
so a convenience form and the form it stands for are equal terms exactly when they deliver the
same operation on the same arguments."""
import json, os

NEW = ("new",)
ANY = ("any",)    # a default argument: any value
_FRESH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fresh.json")
OPS = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "<<": "LeftShift", ">>": "RightShift"}
ALIAS = {"negate": "neg"}
# operations that end the call by raising an error
RAISES = {"LogicError", "Error", "TerminalError", "ArithmeticError", "ResourceError", "InputError", "abort", "exit", "terminate"}
MAXPATH = 16


class Unsup(Exception):
    pass


def base(n):
    return n.rsplit("::", 1)[-1]


class Path:
    def __init__(self):
        self.env = {}      # variable id -> term or ("ref", id)
        self.conds = []    # (term, truth)
        self.ret = None
        self.done = None   # None, "ret", "err"
        self.fields = {}

    def copy(self):
        p = Path()
        p.env, p.conds, p.ret, p.done, p.fields = dict(self.env), list(self.conds), self.ret, self.done, dict(self.fields)
        return p


class Terms:
    def __init__(self, prog):
        self.prog = prog
        with open(_FRESH) as g:
            self.fresh = {(m, i) for m, i in json.load(g)}
        self.memo = {}

    # ---- functions -------------------------------------------------------
    def paths(self, m):
        """Paths of function m, or None when the function is outside the language."""
        if m not in self.memo:
            self.memo[m] = None          # recursion: opaque
            f = self.prog.funcs[m]
            try:
                self.memo[m] = self.run(f)
            except Unsup:
                self.memo[m] = None
        return self.memo[m]

    def run(self, f):
        p = Path()
        if f.ctor:
            raise Unsup
        for i, q in enumerate(f.ps):
            p.env[q["id"]] = ("p", i)
        out = []
        self.cur = f
        for r in self.block([f.body], [p]):
            if r.done != "err":
                out.append(r)
        res = []
        for r in out:
            outs = {}
            for i, q in enumerate(f.ps):
                t = r.env[q["id"]]
                if t != ("p", i) and (q.get("ref") or q.get("ptr")):
                    outs[i] = t
            if "this" in r.env:
                outs["this"] = r.env["this"]
            ret = r.ret
            if ret is not None and ret[0] == "&":
                ret = self.get(r, ret)
            res.append((tuple(r.conds), ret, outs))
        if not res or len(res) > MAXPATH:
            raise Unsup
        return res

    def single(self, m):
        p = self.paths(m) if m in self.prog.funcs else None
        return p[0] if p and len(p) == 1 and not p[0][0] else None

    # ---- statements ------------------------------------------------------
    def block(self, stmts, ps):
        for s in stmts:
            nxt = []
            for p in ps:
                nxt += [p] if p.done else self.stmt(s, p)
            ps = nxt
            if len(ps) > MAXPATH:
                raise Unsup
        return ps

    def stmt(self, s, p):
        k = s["k"]
        if k == "blk":
            return self.block(s["s"], [p])
        if k == "null":
            return [p]
        if k == "decl":
            for v in s["v"]:
                self.declare(v, p)
                if p.done:
                    break
            return [p]
        if k == "expr":
            self.ev(s["e"], p)
            return [p]
        if k == "ret":
            if s.get("e") is not None:
                p.ret = self.rv(s["e"], p)
            if not p.done:
                p.done = "ret"
            return [p]
        if k == "if":
            c = self.cond(s["c"], p)
            if p.done:
                return [p]
            if c is True:
                return self.stmt(s["x"], p)
            if c is False:
                return self.stmt(s["y"], p) if s.get("y") else [p]
            a, b = p, p.copy()
            t, truth = c
            a.conds.append((t, truth))
            b.conds.append((t, not truth))
            return self.stmt(s["x"], a) + (self.stmt(s["y"], b) if s.get("y") else [b])
        if k == "switch":
            return self.switch(s, p)
        if k == "break":
            p.done = "break"
            return [p]
        raise Unsup

    def switch(self, s, p):
        items, marks, default = [], [], None

        def flat(b):
            nonlocal default
            while b["k"] in ("case", "default"):
                if b["k"] == "case":
                    marks.append((b["e"], len(items)))
                else:
                    default = len(items)
                b = b["b"]
            items.append(b)
        body = s["b"]
        for x in body["s"] if body["k"] == "blk" else [body]:
            flat(x)
        v = self.rv(s["c"], p)
        out, rest = [], p
        for e, at in marks:
            t = compare("==", v, self.rv(e, rest))
            if t[0] == "k" and not t[1]:
                continue
            a = rest.copy()
            a.conds.append((t, True))
            rest.conds.append((t, False))
            out += self.block(items[at:], [a])
        out += self.block(items[default:], [rest]) if default is not None else [rest]
        for x in out:
            if x.done == "break":
                x.done = None
        return out

    def declare(self, v, p):
        e = v.get("e", v.get("i"))
        if e is None:
            p.env[v["id"]] = NEW
            return
        if v.get("ref"):
            t = self.ev(e, p)
            p.env[v["id"]] = t
            return
        p.env[v["id"]] = self.rv(e, p)

    # ---- expressions -----------------------------------------------------
    def get(self, p, t):
        """Value of an lvalue reference ("&", id)."""
        while t[0] == "&":
            t = p.env.get(t[1], NEW if t[1] != "this" else ("p", "this"))
        return t

    def rv(self, e, p):
        return self.get(p, self.ev(e, p))

    def set(self, p, lv, t):
        if lv[0] != "&":
            raise Unsup
        while True:
            c = p.env.get(lv[1])
            if c is not None and c[0] == "&":
                lv = c
            else:
                break
        p.env[lv[1]] = t

    def cond(self, e, p):
        t = self.rv(e, p)
        if t[0] == "k":
            return bool(t[1])
        truth = True
        while t[0] == "f" and t[1] == "!":
            t, truth = t[2][0], not truth
        return (t, truth)

    def ev(self, e, p):
        k = e["k"]
        g = getattr(self, "x_" + k, None)
        if g is None:
            raise Unsup
        return g(e, p)

    def x_int(self, e, p):
        try:
            return ("k", int(e["v"]))
        except ValueError:
            return ("k", e["v"])

    def x_str(self, e, p):
        return ("k", str(e["v"]))

    x_float = x_str

    def x_null(self, e, p):
        return ("k", None)

    def x_this(self, e, p):
        return ("&", "this")

    def x_var(self, e, p):
        if e["id"] in p.env:
            return ("&", e["id"])
        if "cv" in e:
            return ("k", int(e["cv"]))
        if e.get("vk") == "g":
            return ("g", e.get("q", e["n"]))
        raise Unsup

    def x_mem(self, e, p):
        return ("f", "." + e["f"], (self.rv(e["b"], p),))

    def x_idx(self, e, p):
        return ("f", "[]", (self.rv(e["b"], p), self.rv(e["i"], p)))

    def x_cast(self, e, p):
        return self.ev(e["e"], p)

    def x_cond(self, e, p):
        c = self.cond(e["c"], p)
        if c in (True, False):
            return self.rv(e["x"] if c else e["y"], p)
        x, y = self.rv(e["x"], p), self.rv(e["y"], p)
        t, truth = c
        return ("f", "?", (t, x, y) if truth else (t, y, x))

    def x_un(self, e, p):
        op = e["op"]
        if op == "&":
            t = self.ev(e["e"], p)
            while t[0] == "&" and p.env.get(t[1], NEW)[0] == "&":
                t = p.env[t[1]]
            return ("addr", t)
        if op == "*":
            t = self.ev(e["e"], p)
            if t == ("&", "this"):
                return t
            if t[0] == "addr":
                return t[1]
            return ("f", "*", (self.get(p, t),))
        if op in ("++", "--"):
            lv = self.ev(e["e"], p)
            old = self.get(p, lv)
            new = arith("+" if op == "++" else "-", old, ("k", 1))
            self.set(p, lv, new)
            return old if e.get("post") else new
        t = self.rv(e["e"], p)
        if op == "-":
            return arith("-", ("k", 0), t)
        if op == "!":
            if t[0] == "k":
                return ("k", int(not t[1]))
            return ("f", "!", (t,))
        return ("f", op, (t,))

    def x_bin(self, e, p):
        op = e["op"]
        if op == ",":
            self.rv(e["x"], p)
            return self.ev(e["y"], p)
        x, y = self.rv(e["x"], p), self.rv(e["y"], p)
        if op in ("&&", "||"):
            for a, b in ((x, y), (y, x)):
                if a[0] == "k" and isinstance(a[1], int):
                    if bool(a[1]) == (op == "||"):
                        return ("k", int(op == "||"))
                    return b
        if op in ("==", "!=") and (x[0] == "addr" or y[0] == "addr"):
            # two names of one object: separate objects unless it is the very same name
            if x[0] == "addr" and y[0] == "addr":
                return ("k", int((x == y) == (op == "==")))
            raise Unsup
        if op in ("+", "-", "*"):
            return arith(op, x, y)
        return compare(op, x, y)

    def x_asg(self, e, p):
        lv = self.ev(e["x"], p)
        r = self.rv(e["y"], p)
        op = e["op"]
        if op != "=":
            r = arith(op[:-1], self.get(p, lv), r)
        if lv[0] == "&":
            self.set(p, lv, r)
        else:
            self.update(e["x"], p, r)
        return lv

    def update(self, lhs, p, r):
        """Store into a part of an object: the object becomes an update of its old value."""
        if lhs["k"] == "idx":
            o = ("f", "[]=", (self.rv(lhs["b"], p), self.rv(lhs["i"], p), r))
            b = lhs["b"]
        elif lhs["k"] == "mem":
            o = ("f", "." + lhs["f"] + "=", (self.rv(lhs["b"], p), r))
            b = lhs["b"]
        else:
            raise Unsup
        lv = self.ev(b, p)
        if lv[0] == "&":
            self.set(p, lv, o)
        else:
            self.update(b, p, o)

    def x_ctor(self, e, p):
        a = [self.rv(x, p) for x in e["a"]]
        if not a:
            return NEW
        if e.get("copy"):
            return a[0]
        return ("f", "new " + e["t"], tuple(a))

    def x_list(self, e, p):
        return ("f", "{}", tuple(self.rv(x, p) for x in e["a"]))

    def x_throw(self, e, p):
        p.done = "err"
        return ("k", None)

    def x_call(self, e, p):
        fn = self.prog.fns[e["fn"]]
        name = base(fn.q)
        if fn.nr or name in RAISES:
            p.done = "err"
            return ("k", None)
        lvs = [self.ev(a, p) for a in e["a"]]
        vals = [self.get(p, v) for v in lvs]
        olv = oval = None
        if e.get("obj") is not None:
            olv = self.ev(e["obj"], p)
            oval = self.get(p, olv)
        opc = e.get("opc")
        if opc == "=":
            tgt = olv if olv is not None else lvs.pop(0)
            node = e["obj"] if olv is not None else e["a"][0]
            v = vals[-1]
            if v[0] == "&":
                v = self.get(p, v)
            if tgt[0] == "&":
                self.set(p, tgt, v)
            else:
                self.update(node, p, v)
            return tgt
        if opc == "[]" or opc == "()" and fn.cm and not fn.repo:
            return ("f", opc, (oval,) + tuple(vals))
        if name in ("move", "forward") and fn.q.startswith("std::"):
            return lvs[0]
        # expansion of single-path library functions
        virt = fn.virt and e.get("obj") is not None and e["obj"].get("k") == "this" or fn.virt
        if not virt and e["fn"] in self.prog.funcs:
            s = self.single(e["fn"])
            if s is not None:
                return self.expand(self.prog.funcs[e["fn"]], s, lvs, vals, olv, oval, e, p)
        return self.leaf(fn, name, opc, lvs, vals, olv, oval, e, p)

    def expand(self, f, s, lvs, vals, olv, oval, e, p):
        m = {i: v for i, v in enumerate(vals)}
        m["this"] = oval

        def sub(t):
            if t[0] == "p":
                if m.get(t[1]) is None:
                    raise Unsup
                return m[t[1]]
            if t[0] == "&":
                raise Unsup
            if t[0] == "f":
                return norm(("f", t[1], tuple(sub(x) for x in t[2])))
            if t[0] == "lin":
                return lin_subst(t, sub)
            if t[0] == "addr":
                raise Unsup
            return t
        conds, ret, outs = s
        r = sub(ret) if ret is not None else ("k", None)
        new = {i: sub(t) for i, t in outs.items()}
        for i, t in new.items():
            lv, node = (olv, e.get("obj")) if i == "this" else (lvs[i], e["a"][i])
            if lv[0] == "&":
                self.set(p, lv, t)
            else:
                self.update(node, p, t)
        if f.d.get("rr") or f.ref.rr:
            # returns a reference: to a parameter when its value is that parameter's
            for i, t in list(new.items()):
                if r == t:
                    return olv if i == "this" else lvs[i]
        return r

    def leaf(self, fn, name, opc, lvs, vals, olv, oval, e, p):
        repo = fn.repo or e["fn"] in self.prog.funcs
        pts = fn.ps
        outs = []
        for i, q in enumerate(pts[:len(vals)]):
            if (q.get("ref") or q.get("ptr")) and not q.get("c") and not q.get("cq"):
                outs.append(i)
        mut = olv is not None and not fn.cm and not fn.sm
        if opc in OPS and not repo:
            args = ([oval] if oval is not None else []) + vals
            if len(args) == 1:
                return norm(("f", "neg" if opc == "-" else opc, tuple(args)))
            return norm(("f", OPS[opc], tuple(args)))
        if opc and opc[:-1] in OPS and opc.endswith("=") and not repo and opc not in ("==", "<=", ">=", "!="):
            tgt, node = (olv, e["obj"]) if olv is not None else (lvs[0], e["a"][0])
            t = norm(("f", OPS[opc[:-1]], (oval if oval is not None else vals[0], vals[-1])))
            if tgt[0] == "&":
                self.set(p, tgt, t)
            else:
                self.update(node, p, t)
            return tgt
        if opc in ("==", "!="):
            args = ([oval] if oval is not None else []) + vals
            return compare(opc, *args)
        ins = []
        for i, v in enumerate(vals):
            if i in outs and ((e["fn"], i) in self.fresh or not repo and i == 0 and pure_out(name)):
                continue
            ins.append(v)
        label = (ALIAS.get(name, name)) if not repo else "%s(%s)" % (fn.q, ",".join(ty(q) for q in pts))
        if not repo:
            label = ALIAS.get(name, name)
        args = ([oval] if olv is not None else []) + ins
        t = norm(("f", label, tuple(args)))
        n = 0
        void = fn.rt == "void"
        for i in outs:
            tt = t if void and len(outs) == 1 and not mut else ("f", label + "#%d" % n, tuple(args))
            n += 1
            if lvs[i][0] == "&":
                self.set(p, lvs[i], tt)
            elif lvs[i][0] == "addr":
                raise Unsup
            else:
                self.update(e["a"][i], p, tt)
        if mut:
            tt = t if void and not outs else ("f", label + "#this", tuple(args))
            if olv[0] == "&":
                self.set(p, olv, tt)
            else:
                self.update(e["obj"], p, tt)
        return t


def ty(q):
    return q["t"].replace("NTL::", "").replace("PML::", "") if isinstance(q, dict) else str(q)


PURE = {"add", "sub", "mul", "negate", "neg", "sqr", "div", "rem", "inv", "power", "conv", "clear", "set", "trunc", "LeftShift",
        "RightShift", "reverse", "transpose", "ident", "random", "GCD", "eval", "diff", "MulTrunc", "InvTrunc", "GetCoeff", "MulMod", "random"}


def pure_out(n):
    return n in PURE


def compare(op, x, y):
    if x[0] == "k" and y[0] == "k" and isinstance(x[1], int) and isinstance(y[1], int):
        v = {"==": x[1] == y[1], "!=": x[1] != y[1], "<": x[1] < y[1], "<=": x[1] <= y[1], ">": x[1] > y[1], ">=": x[1] >= y[1]}.get(op)
        if v is not None:
            return ("k", int(v))
    if op in (">", ">="):
        op, x, y = {">": "<", ">=": "<="}[op], y, x
    if op == "!=":
        return ("f", "!", (("f", "==", tuple(sorted((x, y), key=repr))),))
    if op == "<=":
        return ("f", "!", (("f", "<", (y, x)),))
    if op == "==":
        x, y = sorted((x, y), key=repr)
    return ("f", op, (x, y))


def as_lin(t):
    if t[0] == "k" and isinstance(t[1], int):
        return {(): t[1]}
    if t[0] == "lin":
        return dict(t[1])
    return {(t,): 1}


def mk_lin(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("k", 0)
    if set(d) == {()}:
        return ("k", d[()])
    if len(d) == 1:
        (k, v), = d.items()
        if len(k) == 1 and v == 1:
            return k[0]
    return ("lin", tuple(sorted(d.items(), key=repr)))


def arith(op, x, y):
    if op in ("+", "-"):
        d = as_lin(x)
        for k, v in as_lin(y).items():
            d[k] = d.get(k, 0) + (v if op == "+" else -v)
        return mk_lin(d)
    if op == "*":
        d = {}
        for k1, v1 in as_lin(x).items():
            for k2, v2 in as_lin(y).items():
                k = tuple(sorted(k1 + k2, key=repr))
                d[k] = d.get(k, 0) + v1 * v2
        return mk_lin(d)
    return ("f", op, (x, y))


def lin_subst(t, sub):
    r = ("k", 0)
    for k, v in t[1]:
        m = ("k", v)
        for x in k:
            m = arith("*", m, sub(x))
        r = arith("+", r, m)
    return r


def norm(t):
    if t[1] in ("add",) and len(t[2]) == 2:
        return ("f", t[1], tuple(sorted(t[2], key=repr)))
    return t


def size(t):
    return 1 + (sum(size(x) for x in t[2]) if t[0] == "f" else sum(size(x) for k, v in t[1] for x in k) if t[0] == "lin" else 0)


def freeze(t):
    """Term as a JSON value and back."""
    if t is None or t[0] in ("p", "k", "new", "g"):
        return list(t) if t else None
    if t[0] == "f":
        return ["f", t[1], [freeze(x) for x in t[2]]]
    if t[0] == "lin":
        return ["lin", [[[freeze(x) for x in k], v] for k, v in t[1]]]
    raise Unsup


def thaw(j):
    if j is None or j[0] in ("p", "k", "new", "g"):
        return tuple(j) if j else None
    if j[0] == "f":
        return ("f", j[1], tuple(thaw(x) for x in j[2]))
    return ("lin", tuple((tuple(thaw(x) for x in k), v) for k, v in j[1]))


# operation names that differ in meaning when one word is exchanged
OPPOSITE = [("left", "right"), ("Left", "Right"), ("row", "col"), ("Row", "Col"), ("add", "sub"), ("plus", "minus"), ("first", "last"), ("even", "odd"), ("min", "max"), ("forward", "backward"), ("mul", "add"), ("mul", "sub")]


def opposed(a, b):
    a, b = a.split("(")[0], b.split("(")[0]
    a, b = base(a), base(b)
    return any(a.replace(x, y) == b or a.replace(y, x) == b for x, y in OPPOSITE) if a != b else False


def diff(want, got, fields=()):
    """None when equal, a reason when certainly different operations or arguments, "?" otherwise."""
    if want == got or want == ANY:
        return None
    if want is None or got is None:
        return "?"
    if want[0] == "f" and got[0] == "f":
        if want[1] == got[1]:
            if len(want[2]) != len(got[2]):
                return "?"
            rs = [diff(x, y, fields) for x, y in zip(want[2], got[2])]
            if want[1] in ("add", "==") and len(rs) == 2 and any(rs):
                # unordered operands: try the other pairing
                r2 = [diff(x, y, fields) for x, y in zip(want[2], got[2][::-1])]
                if not any(r2):
                    return None
                if "?" in r2 or "?" in rs:
                    return "?"
            if not any(rs):
                return None
            if sorted(want[2], key=repr) == sorted(got[2], key=repr) and not commutes(want[1]):
                return "operands of %s exchanged" % base(want[1].split("(")[0])
            bad = [r for r in rs if r not in (None, "?")]
            if bad and "?" not in rs:
                return bad[0] if len(want[2]) == 1 else "in %s: %s" % (base(want[1].split("(")[0]), bad[0])
            return "?"
        if want[1].startswith(".") and got[1].startswith(".") and want[1][1:] in fields and got[1][1:] in fields and want[2] == got[2]:
            return "member %s instead of %s" % (got[1][1:], want[1][1:])
        if opposed(want[1], got[1]) and want[2] == got[2]:
            return "%s instead of %s" % (base(got[1].split("(")[0]), base(want[1].split("(")[0]))
        return "?"
    for x, y, what in ((want, got, "%s where %s is meant"), (got, want, "%s where %s is meant")):
        if y[0] == "f" and y[2] and y[2][0] == x and base(y[1].split("(")[0]).split("#")[0] in CHANGES and changes(y):
            if x is want or base(y[1].split("(")[0]).split("#")[0] != "trunc":
                return what % (NAME(got), NAME(want))
    atoms = ("p", "k", "new")
    if want[0] in atoms and got[0] in atoms:
        return "%s instead of %s" % (NAME(got), NAME(want))
    iw, ig = as_lin(want), as_lin(got)
    if all_int(want) and all_int(got):
        ks = {k for k in set(iw) | set(ig) if iw.get(k, 0) != ig.get(k, 0)}
        aw = {x for k in iw for x in k}
        ag = {x for k in ig for x in k}
        # a different integer polynomial in quantities both sides know
        if ks and (ag <= aw | {a for a in ag if a[0] == "p"}):
            return "%s instead of %s" % (NAME(got), NAME(want))
    return "?"


CHANGES = {"transpose", "RightShift", "LeftShift", "reverse", "negate", "trunc"}


def changes(t):
    """a wrapped operand that is another value: not a shift by 0, not a truncation at an order the caller names"""
    b = base(t[1].split("(")[0]).split("#")[0]
    if b == "trunc":
        return len(t[2]) == 2 and bool(as_lin(t[2][1])) and not [a for m in as_lin(t[2][1]) for a in m if a[0] != "f" or base(a[1].split("(")[0]) not in ("deg", "length")]
    return len(t[2]) == 1 or t[2][1] != ("k", 0)


COMMUTE = {"add", "max", "min", "==", "GCD", "&&", "||", "!=", "NumBits", "swap", "&", "|", "^", "{}"}


def commutes(label):
    head = label.split("(")[0]
    b = base(head).split("#")[0]
    if b in COMMUTE:
        return True
    if b.startswith("mul") or b == "*":
        # matrix products do not commute, products of field elements and polynomials do
        return label.count("Mat<") < 2
    return "(" not in label and b not in ("sub", "div", "rem", "-", "/", "%", "<", "LeftShift", "RightShift", "trunc", "power")


def all_int(t):
    return t[0] in ("p", "k", "lin") or t[0] == "f" and t[1] in ("deg", "NumRows", "NumCols", "length", "size")


def NAME(t):
    return show(t, CTX[0])


CTX = [None]


def show(t, ps=None):
    if t is None:
        return "nothing"
    if t[0] == "p":
        return "this" if t[1] == "this" else ps[t[1]]["n"] if ps and t[1] < len(ps) else "arg%s" % t[1]
    if t[0] == "k":
        return str(t[1])
    if t[0] == "new":
        return "(new)"
    if t[0] == "f":
        return "%s(%s)" % (t[1].split("(")[0].replace("PML::", ""), ", ".join(show(x, ps) for x in t[2]))
    if t[0] == "lin":
        return " + ".join("%s%s" % ("" if v == 1 and k else str(v) + ("*" if k else ""), "*".join(show(x, ps) for x in k)) for k, v in t[1])
    return str(t)
