"""No hidden state: static storage, mutable members, const removal."""
from ..load import walk, Broken
from ..report import Result
from ..api import public, frozen

RULE = ("Storage and effect lint over every parsed unit: no variable with static or thread storage duration that can change or "
        "whose value is fixed at run time, no mutable member, no cast or pointer that removes const, and every method that took "
        "a const object still does")
PTRCLS = ("std::unique_ptr<", "std::shared_ptr<", "NTL::UniquePtr<", "NTL::UniqueArray<", "NTL::SmartPtr<", "NTL::CloneablePtr<", "NTL::Lazy<", "NTL::LazyTable<")


def run(prog, tier):
    res = Result("C02", RULE)
    for (q, file, l), g in sorted(prog.globals.items()):
        w = "%s:%d" % (file.replace("/repo/", ""), l)
        if g.get("decl"):
            continue
        what = "static local %s of %s" % (g["n"], g["infn"].replace("PML::", "")) if g.get("infn") else "global %s" % q.replace("PML::", "")
        if g.get("c") and g.get("cinit") and not g.get("ref") and (not g.get("ptr") or g.get("cptr") is not None):
            res.ok("%s %s: constant" % (w, what))
        elif g.get("c") and g.get("cinit"):
            res.ok("%s %s: constant" % (w, what))
        else:
            res.bad("static|%s" % (g.get("infn", "") + "::" + q), w, "%s has static storage and %s: its value outlives the call" %
                    (what, "is computed at run time on first use" if g.get("c") else "can be modified"))
    nf = 0
    for q, c in sorted(prog.classes.items()):
        for f in c["fields"]:
            nf += 1
            w = "%s:%d" % (c["file"].replace("/repo/", ""), f["l"])
            if f.get("mut"):
                res.bad("mutable|%s::%s" % (q, f["n"]), w, "member %s::%s is mutable: const operations can change the object" % (q.replace("PML::", ""), f["n"]))
            else:
                res.ok("%s member %s::%s is not mutable" % (w, q, f["n"]))
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        bad = False
        for n in walk([f.body, f.inits]):
            if n.get("k") == "cast" and n.get("dropconst"):
                res.bad("constcast|%s" % f.sig(), f.where(n["l"]), "%s casts away const" % f.sig())
                bad = True
            if f.cm and n.get("k") in ("asg", "call", "un"):
                t = target_through_pointer(prog, f, n)
                if t:
                    res.bad("deepconst|%s|%s" % (f.sig(), t), f.where(n["l"]), "const method %s writes through the pointer member %s" % (f.sig(), t))
                    bad = True
        if not bad:
            res.ok("%s %s: no const removal, no write through a pointer member of a const object" % (f.where(), f.sig()))
    # methods that promised not to change the object
    byname = {}
    for m, fn in prog.fns.items():
        if fn.cls:
            byname.setdefault((fn.cls, fn.n, tuple(p["t"] for p in fn.ps)), set()).add(fn.cm)
    for cls, n, ps in frozen()["const_sigs"]:
        v = byname.get((cls, n, tuple(ps)))
        if v is None:
            continue
        if v == {False}:
            res.bad("nonconst|%s::%s" % (cls, n), cls, "%s::%s no longer takes a const object" % (cls.replace("PML::", ""), n))
        else:
            res.ok("%s::%s is const" % (cls, n))
    res.info["members"] = nf
    res.info["functions_analysed"] = len(prog.funcs)
    if nf < 60 or len(prog.funcs) < 800:
        raise Broken("C02: only %d members and %d functions found" % (nf, len(prog.funcs)))
    return res


def is_ptr_member(n):
    return n.get("k") == "mem" and n["b"].get("k") == "this" and (n.get("t", "").endswith("*") or n.get("t", "").startswith(PTRCLS))


def target_through_pointer(prog, f, n):
    """Name of a pointer member of *this through which node n writes, if any."""
    tg = []
    if n["k"] == "asg":
        tg = [n["x"]]
    elif n["k"] == "un" and n["op"] in ("++", "--"):
        tg = [n["e"]]
    elif n["k"] == "call":
        fn = prog.fns.get(n.get("fn"))
        if fn is None:
            return None
        tg = [a for i, a in enumerate(n.get("a", [])) if i < len(fn.ps) and fn.ps[i].get("ref") and not fn.ps[i].get("c")]
        if "obj" in n and not fn.cm and not fn.sm and not fn.ctor and fn.n not in ("operator->", "operator*", "get", "elts", "begin", "end"):
            tg.append(n["obj"])
    for e in tg:
        through = False
        while isinstance(e, dict):
            if is_ptr_member(e):
                return e["f"] if through else None
            k = e.get("k")
            if k == "idx":
                through = True
                e = e["b"]
            elif k == "un" and e["op"] == "*":
                through = True
                e = e["e"]
            elif k == "mem":
                through = True
                e = e["b"]
            elif k == "call" and "obj" in e:
                through = True
                e = e["obj"]
            elif k == "cast":
                e = e["e"]
            else:
                break
    return None
