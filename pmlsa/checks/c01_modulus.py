"""Typestate of the current modulus: on every exit of every public function the modulus in
force is the one that was in force on entry."""
import re
from ..load import walk, Broken
from ..report import Result
from ..api import public
from ..absint import children

RULE = ("Typestate over the statement tree of every function: any call that installs another modulus (init, FFTInit, "
        "context restore, or a callee that does so) must be undone by a scope-bound saver or an explicit restore on every "
        "normal and exceptional exit")
FAM = ("zz_p", "ZZ_p", "zz_pE", "ZZ_pE", "GF2E")
INIT = re.compile(r"NTL::(%s)::(init|FFTInit|UserFFTInit)$" % "|".join(FAM))
CLS = re.compile(r"NTL::(%s)(Push|Bak|Context)$" % "|".join(FAM))
METH = re.compile(r"NTL::(%s)(Bak|Context)::(save|restore)$" % "|".join(FAM))
E = "entry"


class Interp:
    def __init__(self, prog, summ, func):
        self.prog, self.summ, self.func = prog, summ, func
        self.sites = []

    # state: (cur: tuple per family, objs: tuple of (varid, kind, fam, saved, scopedepth))
    def start(self):
        return (tuple((E,) * len(FAM)), ())

    def set(self, st, fam, v):
        cur = list(st[0])
        cur[FAM.index(fam)] = v
        return (tuple(cur), st[1])

    def get(self, st, fam):
        return st[0][FAM.index(fam)]

    def unwind(self, st, n):
        """Destroy objects beyond the first n."""
        while len(st[1]) > n:
            vid, kind, fam, saved = st[1][-1]
            if kind in ("Push", "Bak") and saved is not None:
                st = self.set(st, fam, saved)
            st = (st[0], st[1][:-1])
        return st

    def obj(self, st, e):
        if e is None:
            return None
        while e.get("k") in ("cast", "un") and "e" in e:
            e = e["e"]
        if e.get("k") == "var":
            for i, o in enumerate(st[1]):
                if o[0] == e["id"]:
                    return i
        return None

    def construct(self, st, vid, t, init):
        m = CLS.match(t)
        fam, kind = m.group(1), m.group(2)
        args = [a for a in (init or {}).get("a", []) if not a.get("defarg")]
        cur = self.get(st, fam)
        if kind == "Push":
            st = (st[0], st[1] + ((vid, kind, fam, cur),))
            if args:
                self.sites.append(args[0].get("l"))
                i = self.obj(st, args[0])
                v = st[1][i][3] if i is not None and st[1][i][3] is not None else ("other", args[0].get("l"))
                st = self.set(st, fam, v)
            return st
        if kind == "Context":
            saved = None
            if args:
                i = self.obj(st, args[0])
                saved = st[1][i][3] if i is not None else ("other", args[0].get("l"))
            return (st[0], st[1] + ((vid, kind, fam, saved),))
        return (st[0], st[1] + ((vid, kind, fam, None),))

    # expressions: sequence of effects
    def expr(self, e, st, throws):
        """set of states after e; throwing states are added to throws"""
        if e is None:
            return {st}
        k = e.get("k")
        if k == "lambda":
            r = self.stmt(e["body"], {st})
            return {st} | r["fall"] | r["ret"]
        if k == "cond":
            out = set()
            for s in self.expr(e["c"], st, throws):
                out |= self.expr(e["x"], s, throws) | self.expr(e["y"], s, throws)
            return out
        if k == "bin" and e["op"] in ("&&", "||"):
            out = set()
            for s in self.expr(e["x"], st, throws):
                out |= {s} | self.expr(e["y"], s, throws)
            return out
        states = {st}
        for c in children(e):
            nxt = set()
            for s in states:
                nxt |= self.expr(c, s, throws)
            states = nxt
        if k == "throw":
            throws |= states
            return set()
        if k in ("call", "ctor") and e.get("fn"):
            nxt = set()
            for s in states:
                nxt |= self.call(e, s, throws)
            return nxt
        return states

    def call(self, e, st, throws):
        fn = self.prog.fns.get(e["fn"])
        if fn is None:
            return {st}
        m = INIT.match(fn.q)
        if m:
            self.sites.append(e.get("l"))
            return {self.set(st, m.group(1), ("init", e.get("l")))}
        m = METH.match(fn.q)
        if m:
            fam, kind, op = m.groups()
            i = self.obj(st, e.get("obj"))
            if op == "save":
                if i is None:
                    return {st}
                o = list(st[1])
                o[i] = o[i][:3] + (self.get(st, fam),)
                return {(st[0], tuple(o))}
            self.sites.append(e.get("l"))
            v = st[1][i][3] if i is not None else ("restore", e.get("l"))
            if v is None:
                v = ("restore", e.get("l"))
            st = self.set(st, fam, v)
            if i is not None and kind == "Bak":
                o = list(st[1])
                o[i] = o[i][:3] + (None,)
                st = (st[0], tuple(o))
            return {st}
        if fn.nr:
            if fn.q.startswith("NTL::"):
                return set()          # aborts the process in this build of NTL
        if fn.q in ("NTL::LogicError", "NTL::Error", "NTL::ResourceError", "NTL::ArithmeticError", "NTL::InputError", "NTL::TerminalError", "exit", "abort"):
            return set()
        if CLS.match(e.get("t", "")) and e.get("k") == "ctor":
            # a temporary saver dies at the end of the full expression
            return {st}
        out = set()
        for t in {e["fn"]} | self.prog.overriders(e["fn"]):
            s = self.summ(t)
            if s is None:
                out.add(st)
                continue
            norm, thr = s
            out |= {self.apply(st, x) for x in norm}
            throws |= {self.apply(st, x) for x in thr}
        return out

    def apply(self, st, eff):
        cur = tuple(c if x == E else x for c, x in zip(st[0], eff))
        return (cur, st[1])

    def stmt(self, s, states):
        R = {"fall": set(), "ret": set(), "throw": set(), "break": set(), "continue": set()}
        if s is None:
            R["fall"] = set(states)
            return R

        def merge(r, keys=("ret", "throw", "break", "continue")):
            for k in keys:
                R[k] |= r[k]
        k = s["k"]
        if k == "blk":
            cur = set(states)
            depths = {len(x[1]) for x in states} or {0}
            n = min(depths)
            for t in s["s"]:
                r = self.stmt(t, cur)
                merge(r)
                cur = r["fall"]
            R["fall"] = {self.unwind(x, n) for x in cur}
            for f in ("ret", "throw", "break", "continue"):
                R[f] = {self.unwind(x, n) for x in R[f]}
            return R
        if k == "decl":
            cur = set(states)
            for v in s["v"]:
                nxt = set()
                for x in cur:
                    if CLS.match(v["t"]) and not v.get("ref") and not v.get("ptr"):
                        nxt.add(self.construct(x, v["id"], v["t"], v.get("i")))
                    else:
                        nxt |= self.expr(v.get("i"), x, R["throw"])
                cur = nxt
            R["fall"] = cur
            return R
        if k == "expr":
            for x in states:
                R["fall"] |= self.expr(s["e"], x, R["throw"])
            return R
        if k == "ret":
            for x in states:
                R["ret"] |= self.expr(s.get("e"), x, R["throw"])
            return R
        if k in ("break", "continue"):
            R[k] = set(states)
            return R
        if k == "if":
            cur = set(states)
            n = min({len(x[1]) for x in states} or {0})
            if s.get("init"):
                r = self.stmt(s["init"], cur)
                merge(r)
                cur = r["fall"]
            nxt = set()
            for x in cur:
                nxt |= self.expr(s["c"], x, R["throw"])
            for b in (s["x"], s.get("y")):
                r = self.stmt(b, nxt)
                merge(r)
                R["fall"] |= r["fall"]
            R["fall"] = {self.unwind(x, n) for x in R["fall"]}
            return R
        if k in ("for", "while", "do", "rfor"):
            n = min({len(x[1]) for x in states} or {0})
            cur = set(states)
            if s.get("i") and k == "for":
                r = self.stmt(s["i"], cur)
                merge(r)
                cur = r["fall"]
            if k == "rfor":
                nx = set()
                for x in cur:
                    nx |= self.expr(s["r"], x, R["throw"])
                cur = nx
            seen, exits = set(), set()
            todo = cur
            if k != "do":
                exits |= cur
            for _ in range(40):
                new = todo - seen
                if not new:
                    break
                seen |= new
                h = set()
                for x in new:
                    h |= self.expr(s.get("c"), x, R["throw"]) if k in ("for", "while") else {x}
                r = self.stmt(s["b"], h)
                merge(r, ("ret", "throw"))
                after = set()
                for x in r["fall"] | r["continue"]:
                    y = self.expr(s.get("n") if k == "for" else s.get("c") if k == "do" else None, x, R["throw"])
                    after |= y
                exits |= after | r["break"]
                todo = after
            R["fall"] = {self.unwind(x, n) for x in exits}
            return R
        if k == "switch":
            h = set()
            for x in states:
                h |= self.expr(s["c"], x, R["throw"])
            out = set(h)
            body = s["b"]["s"] if s["b"]["k"] == "blk" else [s["b"]]
            cur = set()
            for b in body:
                while b is not None and b["k"] in ("case", "default"):
                    cur |= h
                    b = b["b"]
                r = self.stmt(b, cur)
                merge(r, ("ret", "throw", "continue"))
                out |= r["break"]
                cur = r["fall"]
            R["fall"] = out | cur
            return R
        if k == "try":
            r = self.stmt(s["b"], states)
            merge(r, ("ret", "break", "continue"))
            R["fall"] |= r["fall"]
            hs = [c for c in s.get("h", []) if isinstance(c, dict)]
            if not hs:
                R["throw"] |= r["throw"]
            for c in hs:
                r2 = self.stmt(c.get("b", c), r["throw"])
                merge(r2)
                R["fall"] |= r2["fall"]
            return R
        if k in ("label", "case", "default"):
            return self.stmt(s.get("b"), states)
        R["fall"] = set(states)
        return R


def run(prog, tier):
    res = Result("C01", RULE)
    memo, active = {}, set()

    def summ(m):
        """(effects on normal exits, effects on throwing exits); an effect is a tuple per family."""
        if m in memo:
            return memo[m]
        f = prog.funcs.get(m)
        if f is None or m in active:
            return None
        active.add(m)
        I = Interp(prog, summ, f)
        st = {I.start()}
        thr = set()
        for i in f.inits:
            nx = set()
            for x in st:
                nx |= I.expr(i.get("e"), x, thr)
            st = nx
        r = I.stmt(f.body, st)
        norm = {I.unwind(x, 0)[0] for x in r["fall"] | r["ret"]}
        thr = {I.unwind(x, 0)[0] for x in r["throw"] | thr}
        if len(I.start()[1]):
            raise Broken("state")
        active.discard(m)
        memo[m] = (norm, thr)
        sites[m] = I.sites
        return memo[m]
    sites = {}
    api = {f.m for f in public(prog)}
    for f in prog.funcs.values():
        summ(f.m)
    nsites = sum(len(s) for s in sites.values())
    same = tuple((E,) * len(FAM))
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        s = memo.get(f.m)
        if f.m not in api or s is None:
            continue
        bad = [("normal", x) for x in s[0] if x != same] + [("exceptional", x) for x in s[1] if x != same]
        if bad:
            how, x = bad[0]
            tok = next(t for t in x if t != E)
            fam = FAM[[t != E for t in x].index(True)]
            res.bad("%s|%s|%s" % (f.sig(), fam, how), f.where(tok[1] if isinstance(tok[1], int) else None),
                    "%s can leave through a %s exit with the %s modulus installed at line %s still in force instead of the caller's" % (f.sig(), how, fam, tok[1]))
        else:
            res.ok("%s %s: modulus on every exit = modulus on entry" % (f.where(), f.sig()))
    res.info["functions_analysed"] = len(memo)
    res.info["modulus_changing_sites"] = ["%s:%s" % (prog.funcs[m].rel, l) for m, ls in sites.items() for l in sorted(set(ls))]
    if nsites < 1:
        raise Broken("C01: only %d modulus-changing sites found" % nsites)
    res.floor(700, "public functions")
    return res
