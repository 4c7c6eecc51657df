"""Polynomials are handed back normalised.

A flow-sensitive typestate over polynomial places (a variable, or an element or member of one).
Touching the coefficient array of a polynomial directly (SetLength, a store through rep, operator[]
or a coefficient pointer) makes the place raw; normalize(), whole assignment and delivering into it
as the result of an operation make it normal again.  Loops are followed to a fixpoint; elements
indexed by loop counters stand for the current iteration and are summarised when the loop ends.
Functions are summarised by what they leave raw in their reference parameters and their value."""
import re
from .load import walk

POLY = {"NTL::zz_pX", "PML::zz_pXY", "NTL::zz_pEX", "NTL::ZZX"}
ELEM = {"rep"}
NORMAL = {"normalize", "StripZeroes"}
RAWM = {"SetLength", "FixLength", "QuickSetLength", "SetLength1", "append", "swap", "move", "emplace_back", "push_back", "resize"}
CONSTM = {"length", "MaxLength", "fixed", "allocated"}
KEEP = {"SetMaxLength"}
READS = {"coeff", "GetCoeff", "ConstTerm", "length", "[]", "operator[]", "swap"}


def clean(t):
    t = (t or "").replace("const ", "").strip()
    while t.endswith("&") or t.endswith(" "):
        t = t[:-1]
    return t


class State:
    def __init__(self):
        self.raw = {}      # place -> frozenset of sites
        self.live = True

    def copy(self):
        s = State()
        s.raw, s.live = dict(self.raw), self.live
        return s


def merge(a, b):
    if not a.live:
        return b
    if not b.live:
        return a
    s = a.copy()
    for k, v in b.raw.items():
        s.raw[k] = s.raw.get(k, frozenset()) | v
    return s


def same(a, b):
    return a.live == b.live and a.raw == b.raw


class Norm:
    def __init__(self, prog, fresh=()):
        self.prog = prog
        self.fresh = fresh
        self.sum = {}          # mangled -> {slot: frozenset(sites)}
        self.busy = set()
        self.sites = {}        # site -> function
        self.sized = set()     # sites that only set a length
        self.uses = {}         # (function, callee) -> sites of raw operands handed to it

    # ---- functions
    def summary(self, m):
        if m in self.sum:
            return self.sum[m]
        if m in self.busy or m not in self.prog.funcs:
            return {}
        self.busy.add(m)
        self.sum[m] = Walk(self, self.prog.funcs[m]).run()
        self.busy.discard(m)
        return self.sum[m]


class Walk:
    def __init__(self, N, f):
        self.N, self.f, self.prog = N, f, N.prog
        self.alias = {}        # variable id -> place (references and coefficient pointers)
        self.ptr = {}          # pointer variable id -> polynomial place whose coefficients it points to
        self.exits = []
        self.brk = []
        self.cont = []
        self.pid = {p["id"]: i for i, p in enumerate(f.ps)}
        self.active = []       # variables modified by the loops around the current statement
        self.n = 0

    def run(self):
        s = State()
        s = self.stmt(self.f.body, s)
        if s.live:
            self.exits.append((s, None))
        out = {}
        for s, ret in self.exits:
            for place, sites in s.raw.items():
                if place[0] == "this" and not self.f.cm:
                    out["this"] = out.get("this", frozenset()) | sites
                i = self.pid.get(place[0])
                if i is not None:
                    p = self.f.ps[i]
                    if p.get("ref") and not p.get("c"):
                        out[i] = out.get(i, frozenset()) | sites
            if ret:
                out["ret"] = out.get("ret", frozenset()) | ret
        return out

    # ---- places
    def place(self, e):
        """(root, path...) of an lvalue, or None."""
        k = e["k"]
        if k == "var":
            if e["id"] in self.alias:
                return self.alias[e["id"]]
            return (e["id"],)
        if k == "this":
            return ("this",)
        if k == "un" and e["op"] == "*":
            return self.place(e["e"])
        if k == "mem":
            b = self.place(e["b"])
            return b + (("f", e["f"]),) if b else None
        if k == "idx":
            b = self.place(e["b"])
            return b + (("i", self.index(e["i"])),) if b else None
        if k == "call" and e.get("opc") in ("[]", "()") and e.get("obj") is not None:
            b = self.place(e["obj"])
            return b + tuple(("i", self.index(a)) for a in e["a"]) if b else None
        if k == "call" and e.get("opc") in ("*", "->") and e.get("obj") is not None:
            return self.place(e["obj"])
        if k == "cast":
            return self.place(e["e"])
        return None

    def index(self, e):
        k = e["k"]
        if k == "int":
            return str(e["v"])
        if k == "var":
            return "v%d" % e["id"]
        if k == "bin":
            return "(%s%s%s)" % (self.index(e["x"]), e["op"], self.index(e["y"]))
        if k == "cast":
            return self.index(e["e"])
        if k == "un" and e["op"] in ("++", "--"):
            return self.index(e["e"]) + "~"
        return "%s:%s" % (k, e.get("n") or e.get("fn") or e.get("f") or "") + "".join(self.index(x) for x in e.get("a", []))

    def poly_of(self, e):
        """The polynomial place whose coefficient storage the lvalue e designates, if any
        (the polynomial's rep, or one of its coefficients)."""
        while e is not None:
            k = e["k"]
            if k == "mem" and e["f"] in ELEM and clean(e["b"].get("t") or typ(e["b"])) in POLY:
                return e["b"]
            if k == "mem" and e["f"] in ELEM and e["b"]["k"] == "this" and self.f.cls in POLY:
                return e["b"]
            if k == "idx":
                if clean(e.get("bt")) in POLY:
                    return e["b"]
                e = e["b"]
            elif k == "mem":
                e = e["b"]
            elif k == "call" and e.get("opc") == "[]" and e.get("obj") is not None:
                if clean(e.get("ot")) in POLY:
                    return e["obj"]
                e = e["obj"]
            elif k == "call" and e.get("obj") is not None and base(self.prog, e) in ("LoopHole", "elts"):
                e = e["obj"]
            elif k in ("cast", "un"):
                e = e["e"]
            elif k == "bin" and e["op"] in ("+", "-"):
                e = e["x"]
            elif k == "var":
                if e["id"] in self.ptr:
                    return ("place", self.ptr[e["id"]])
                return None
            else:
                return None
        return None

    # ---- marks
    def mark(self, s, poly, e, kind):
        pl = poly[1] if isinstance(poly, tuple) else self.place(poly)
        if pl is None:
            return
        site = (self.f.m, e.get("l", self.f.line))
        self.N.sites[site] = self.f
        if kind in ("SetLength", "clear"):
            self.N.sized.add(site)
        s.raw[pl] = frozenset([site])

    def lead(self, s, poly):
        """A non-zero constant stored into a polynomial only resized so far: taken as its leading coefficient."""
        pl = poly[1] if isinstance(poly, tuple) else self.place(poly)
        if pl in s.raw and all(x in self.N.sized for x in s.raw[pl]):
            del s.raw[pl]
            return True
        return False

    def kill(self, s, pl, deep=True):
        if pl is None:
            return
        for k in list(s.raw):
            if k == pl or deep and k[:len(pl)] == pl or covers(pl, k, self.active):
                del s.raw[k]

    def under(self, s, pl):
        if pl is None:
            return frozenset()
        out = frozenset()
        for k, v in s.raw.items():
            if k[:len(pl)] == pl or pl[:len(k)] == k:
                out |= v
        return out

    # ---- expressions: evaluates e for effect, returns nothing
    def ev(self, e, s):
        if not isinstance(e, dict) or not s.live:
            return
        k = e["k"]
        if k in ("var", "int", "str", "float", "null", "this", "fnref"):
            return
        if k == "asg":
            self.ev(e["y"], s)
            self.ev(e["x"], s)
            self.assign(e["x"], e["y"], e, s, e["op"] != "=")
            return
        if k == "un":
            self.ev(e["e"], s)
            if e["op"] in ("++", "--"):
                p = self.poly_of(e["e"])
                if p is not None and e["e"]["k"] != "var":
                    self.mark(s, p, e, "store")
            return
        if k == "bin" and e["op"] in ("&&", "||"):
            self.ev(e["x"], s)
            t = s.copy()
            self.ev(e["y"], t)
            r = merge(s, t)
            s.raw, s.live = r.raw, r.live
            return
        if k == "cond":
            self.ev(e["c"], s)
            a, b = s.copy(), s.copy()
            self.ev(e["x"], a)
            self.ev(e["y"], b)
            r = merge(a, b)
            s.raw, s.live = r.raw, r.live
            return
        if k == "call":
            self.call(e, s)
            return
        if k == "throw":
            s.live = False
            return
        if k == "lambda":
            t = self.stmt(e["body"], s.copy())
            r = merge(s, t)
            s.raw = r.raw
            return
        for v in e.values():
            if isinstance(v, dict):
                self.ev(v, s)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and "k" in x:
                        self.ev(x, s)

    def assign(self, x, y, e, s, compound):
        p = self.poly_of(x)
        if p is not None and not (x["k"] == "var"):
            if not compound and nonzero(y) and self.lead(s, p):
                return
            self.mark(s, p, e, "store")
            return
        pl = self.place(x)
        if pl is None:
            return
        if x["k"] == "var" and (x.get("t") or "").rstrip().endswith("*"):
            q = self.pointee(y)
            if q is not None:
                self.ptr[x["id"]] = q
            return
        src = self.value(y, s)
        self.kill(s, pl)
        if src:
            s.raw[pl] = src

    def value(self, y, s):
        """Raw sites of the value of expression y."""
        while y["k"] in ("cast",) or y["k"] == "ctor" and y.get("copy") and len(y["a"]) == 1:
            y = y["e"] if y["k"] == "cast" else y["a"][0]
        if y["k"] == "call":
            n = base(self.prog, y)
            if n in ("move", "forward") and y["a"]:
                return self.value(y["a"][0], s)
            r = self.N.summary(y["fn"]).get("ret", frozenset()) if y["fn"] in self.prog.funcs else frozenset()
            if y.get("opc") in ("[]", "()"):
                return self.under(s, self.place(y))
            return r
        if y["k"] == "cond":
            return self.value(y["x"], s) | self.value(y["y"], s)
        return self.under(s, self.place(y))

    def pointee(self, y):
        """Polynomial place a coefficient pointer expression points into."""
        while y["k"] in ("cast", "bin"):
            y = y["e"] if y["k"] == "cast" else y["x"]
        if y["k"] == "var":
            return self.ptr.get(y["id"])
        if y["k"] == "un" and y["op"] == "&":
            p = self.poly_of(y["e"])
        elif y["k"] == "call" and base(self.prog, y) == "elts" and y.get("obj") is not None:
            p = self.poly_of(y["obj"])
        else:
            return None
        if p is None:
            return None
        return p[1] if isinstance(p, tuple) else self.place(p)

    def call(self, e, s):
        fn = self.prog.fns[e["fn"]]
        n = fn.n
        if e.get("obj") is not None:
            self.ev(e["obj"], s)
        for a in e["a"]:
            self.ev(a, s)
        if not s.live:
            return
        if fn.nr or n in ("LogicError", "Error", "TerminalError", "ArithmeticError", "ResourceError", "InputError", "abort", "exit", "terminate"):
            s.live = False
            return
        opc = e.get("opc")
        obj = e.get("obj")
        if opc and opc.endswith("=") and opc not in ("==", "!=", "<=", ">="):
            x = obj if obj is not None else e["a"][0]
            self.assign(x, e["a"][-1], e, s, opc != "=")
            return
        if obj is not None:
            ot = clean(e.get("ot"))
            if ot in POLY and n in NORMAL:
                self.kill(s, self.place(obj), deep=False)
                return
            if ot in POLY and n in KEEP:
                return
            if ot in POLY and n in RAWM and not fn.cm:
                if n in ("SetLength",) and len(e["a"]) == 1 and e["a"][0]["k"] == "int" and str(e["a"][0]["v"]) == "0":
                    self.kill(s, self.place(obj))
                    return
                if n in ("swap", "move"):
                    self.transfer(obj, e["a"][0], s, n == "swap")
                    return
                self.mark(s, obj, e, n)
                return
            p = self.poly_of(obj)
            if p is not None and not fn.cm and n not in KEEP and n != "elts" and opc not in ("[]",):
                # a non-const operation on the coefficient vector or on a coefficient
                if n in ("SetLength", "kill") and (not e["a"] or e["a"][0]["k"] == "int" and str(e["a"][0]["v"]) == "0"):
                    if not isinstance(p, tuple):
                        self.kill(s, self.place(p))
                elif n not in ("LoopHole",):
                    self.mark(s, p, e, n)
            elif p is None and n in ("swap", "move") and e["a"]:
                self.transfer(obj, e["a"][0], s, n == "swap")
        if n == "swap" and len(e["a"]) == 2 and obj is None:
            self.transfer(e["a"][0], e["a"][1], s, True)
            return
        body = e["fn"] in self.prog.funcs
        summ = self.N.summary(e["fn"]) if body and not fn.virt else {}
        for i, q in enumerate(fn.ps[:len(e["a"])]):
            a = e["a"][i]
            if q.get("c") or not (q.get("ref") or q.get("ptr")):
                if n not in READS and any(t in (q["t"] or "") for t in ("zz_pX", "zz_pXY")):
                    self.use(e, fn, a, s)
                continue
            p = self.poly_of(a)
            if p is not None and (q.get("ptr") or a["k"] != "var"):
                # delivers into the coefficients of a polynomial
                if (n == "set" or n == "conv" and nonzero(e["a"][-1])) and self.lead(s, p):
                    continue
                self.mark(s, p, e, n)
                continue
            pl = self.place(a)
            if pl is None:
                continue
            r = summ.get(i)
            t = clean(q["t"])
            if r:
                self.kill(s, pl) if t in POLY else None
                s.raw[pl] = r
            elif t in POLY or (e["fn"], i) in self.N.fresh or not body:
                if n not in ("SetCoeff",):
                    self.kill(s, pl)

    def use(self, e, fn, a, s):
        r = self.under(s, self.place(a))
        if r:
            k = (self.f.m, e["fn"])
            self.N.uses[k] = self.N.uses.get(k, frozenset()) | r

    def transfer(self, x, y, s, both):
        a, b = self.place(x), self.place(y)
        ra, rb = self.under(s, a), self.under(s, b)
        self.kill(s, a)
        if both:
            self.kill(s, b)
        if rb and a:
            s.raw[a] = rb
        if both and ra and b:
            s.raw[b] = ra

    # ---- statements
    def stmt(self, st, s):
        if st is None or not s.live:
            return s
        k = st["k"]
        if k == "blk":
            for x in st["s"]:
                s = self.stmt(x, s)
            return s
        if k == "decl":
            for v in st["v"]:
                self.decl(v, s)
            return s
        if k == "expr":
            self.ev(st["e"], s)
            return s
        if k == "ret":
            ret = None
            if st.get("e") is not None:
                self.ev(st["e"], s)
                if s.live:
                    ret = self.value(st["e"], s)
            if s.live:
                self.exits.append((s.copy(), ret))
            s.live = False
            return s
        if k == "if":
            self.ev(st["c"], s)
            a, b = s.copy(), s
            a = self.stmt(st["x"], a)
            b = self.stmt(st.get("y"), b)
            return merge(a, b)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(st, s)
        if k == "break":
            if self.brk:
                self.brk[-1].append(s.copy())
            s.live = False
            return s
        if k == "continue":
            if self.cont:
                self.cont[-1].append(s.copy())
            s.live = False
            return s
        if k == "switch":
            self.ev(st["c"], s)
            self.brk.append([])
            body = st["b"]["s"] if st["b"]["k"] == "blk" else [st["b"]]
            cur, has = None, False
            entry = s.copy()
            for x in body:
                lab = False
                while x["k"] in ("case", "default"):
                    has |= x["k"] == "default"
                    lab = True
                    x = x["b"]
                if lab:
                    cur = entry.copy() if cur is None else merge(cur, entry.copy())
                if cur is not None:
                    cur = self.stmt(x, cur)
            outs = self.brk.pop()
            if cur is not None:
                outs.append(cur)
            if not has:
                outs.append(entry)
            r = None
            for o in outs:
                r = o if r is None else merge(r, o)
            return r if r is not None else s
        if k in ("case", "default", "label"):
            return self.stmt(st["b"], s)
        self.ev(st, s)
        return s

    def decl(self, v, s):
        e = v.get("e", v.get("i"))
        t = v.get("t", "")
        if e is None:
            return
        self.ev(e, s)
        if v.get("ref"):
            y = e
            while y["k"] == "cast":
                y = y["e"]
            p = self.poly_of(y)
            if p is not None and not v.get("c") and not v.get("cq"):
                # a reference to coefficients: stores through it are not followed further
                self.mark(s, p, v if "l" in v else e, "reference")
                return
            pl = self.place(y)
            if pl is not None:
                self.alias[v["id"]] = pl
            return
        if t.rstrip().endswith("*") or v.get("ptr"):
            q = self.pointee(e)
            if q is not None:
                self.ptr[v["id"]] = q
            return
        src = self.value(e, s) if e["k"] in ("var", "ctor", "call", "cast", "idx", "mem") else frozenset()
        self.kill(s, (v["id"],))
        if src:
            s.raw[(v["id"],)] = src

    def loop(self, st, s):
        k = st["k"]
        if k == "for" and st.get("i"):
            s = self.stmt(st["i"], s)
        if k == "rfor":
            self.ev(st["r"], s)
        mod = modified(st)
        head = s
        out = None
        for _ in range(4):
            self.brk.append([])
            self.cont.append([])
            b = head.copy()
            if k in ("for", "while") and st.get("c"):
                self.ev(st["c"], b)
            after = b.copy()
            self.active.append(mod)
            b = self.stmt(st["b"], b)
            self.active.pop()
            for c in self.cont.pop():
                b = merge(b, c)
            if k == "for" and st.get("n"):
                self.ev(st["n"], b)
            if k == "do":
                self.ev(st["c"], b)
                after = b.copy()
            brk = self.brk.pop()
            swept = sweeps(head, b, mod)
            b = summarise(b, mod)
            out = after
            if k != "do" and swept:
                # every iteration normalises its own element: elements raw before the loop are normal after it
                for key in swept:
                    out.raw.pop(key, None)
            out = summarise(out, mod)
            for c in brk:
                out = merge(out, summarise(c, mod))
            new = merge(head.copy(), b)
            for key in swept:
                new.raw.pop(key, None)
            if same(new, head):
                break
            head = new
        if k != "do":
            out = merge(summarise(head.copy(), mod), out)
        return out


def nonzero(e):
    while e["k"] in ("cast", "ctor", "call") and (e["k"] == "cast" or len(e["a"]) == 1 and not e.get("obj")):
        e = e["e"] if e["k"] == "cast" else e["a"][0]
    return e["k"] == "int" and str(e["v"]) != "0"


def typ(e):
    return e.get("t", "")


def base(prog, e):
    return prog.fns[e["fn"]].n if e.get("fn") in prog.fns else ""


def modified(st):
    ids = set()
    for n in walk(st):
        if n.get("k") == "asg" and n["x"]["k"] == "var":
            ids.add(n["x"]["id"])
        elif n.get("k") == "un" and n["op"] in ("++", "--") and n["e"]["k"] == "var":
            ids.add(n["e"]["id"])
        elif n.get("k") == "decl":
            for v in n["v"]:
                ids.add(v["id"])
    if st["k"] == "rfor":
        ids.add(st["v"]["id"])
    return ids


def mentions(key, mod):
    return any(isinstance(x, tuple) and x[0] == "i" and any(int(m) in mod for m in re.findall(r"v(\d+)", x[1])) for x in key[1:])


def summarise(s, mod):
    if not any(mentions(k, mod) for k in s.raw):
        return s
    r = State()
    r.live = s.live
    for k, v in s.raw.items():
        if mentions(k, mod):
            k = (k[0],) + tuple(("i", "*") if isinstance(x, tuple) and x[0] == "i" and any(int(m) in mod for m in re.findall(r"v(\d+)", x[1])) else x for x in k[1:])
        r.raw[k] = r.raw.get(k, frozenset()) | v
    return r


def covers(pl, k, active):
    """pl, indexed by variables, names one of the elements k speaks of; the loop around it counts as a sweep over them."""
    if len(pl) != len(k) or pl[0] != k[0]:
        return False
    star = False
    for x, y in zip(pl[1:], k[1:]):
        if x == y:
            continue
        if y == ("i", "*") and isinstance(x, tuple) and x[0] == "i" and any(int(v) in a for v in re.findall(r"v(\d+)", x[1]) for a in active):
            star = True
            continue
        return False
    return star


def sweeps(head, b, mod):
    """Elements raw when an iteration starts and normal on every way through it."""
    if not b.live:
        return []
    return [k for k in head.raw if any(x == ("i", "*") for x in k[1:]) and k not in b.raw]


def slots(f):
    """Where f hands back polynomials: reference parameters it may change, its value, its object."""
    out = [i for i, p in enumerate(f.ps) if p.get("ref") and not p.get("c") and "zz_pX" in (p["t"] or "")]
    if "zz_pX" in (f.rt or "") and "&" not in (f.rt or "") and "Multipoint" not in f.rt:
        out.append("ret")
    if f.cls and not f.cm and not getattr(f, "sm", False):
        out.append("this")
    return out


def findings(prog, fresh, funcs):
    """(function, slot) -> raw sites handed back; (function, callee) -> raw operands."""
    N = Norm(prog, fresh)
    out = {}
    bad = {}
    for f in funcs:
        try:
            r = N.summary(f.m)
        except RecursionError:
            bad[f.m] = "analysis budget exhausted"
            continue
        for s in slots(f):
            out[(f.m, s)] = r.get(s, frozenset())
    return N, out, bad
