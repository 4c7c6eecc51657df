"""Parses /repo's current sources with the clang-based extractor and merges the
per-unit facts into one Program (functions keyed by mangled name)."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PML_REPO", "/repo")
NTLX = REPO + "/ntl-extras"


class Broken(Exception):
    """The analysis itself could not be carried out (vanished anchor, parse failure...)."""


class Fn:
    """Reference to a function (declared or defined, in or outside the repository)."""
    __slots__ = ("m", "q", "n", "ps", "rt", "cls", "cm", "sm", "virt", "ctor", "dtor", "nr", "repo", "rr")

    def __init__(self, d):
        self.m, self.q, self.ps, self.rt = d["m"], d["q"], d["ps"], d["rt"]
        self.n = self.q.rsplit("::", 1)[-1]
        self.cls = d.get("cls")
        for k in ("cm", "sm", "virt", "ctor", "dtor", "nr", "repo", "rr"):
            setattr(self, k, bool(d.get(k)))

    def __repr__(self):
        return self.q


class Func:
    """A function with a body."""

    def __init__(self, d, fref):
        self.d = d
        self.ref = fref
        self.m, self.q, self.n = d["m"], d["q"], d["n"]
        self.file, self.line = d["file"], d["line"]
        self.ps, self.rt, self.body = d["ps"], d["rt"], d["body"]
        self.cls = d.get("cls")
        self.cm = bool(d.get("cm"))
        self.ctor = bool(d.get("ctor"))
        self.inits = d.get("inits", [])

    @property
    def rel(self):
        return os.path.relpath(self.file, REPO)

    def where(self, line=None):
        return "%s:%d" % (self.rel, line or self.line)

    def sig(self):
        return "%s(%s)" % (self.q.replace("PML::", ""), ", ".join(short(p["t"]) + ("&" if p.get("ref") else "*" if p.get("ptr") else "") for p in self.ps))

    def __repr__(self):
        return self.sig()


def short(t):
    return t.replace("NTL::", "").replace("PML::", "").replace("std::", "")


class Program:
    def __init__(self):
        self.funcs = {}      # mangled -> Func
        self.fns = {}        # mangled -> Fn
        self.decls = {}      # mangled -> declaration dict (first seen)
        self.classes = {}
        self.globals = {}
        self.units = []
        self.errors = []

    def by_name(self, n):
        return [f for f in self.funcs.values() if f.n == n or f.q == n]

    def overriders(self, m):
        """Mangled names of functions overriding method m (transitively)."""
        if not hasattr(self, "_ov"):
            self._ov = {}
            for mm, d in list(self.decls.items()) + [(f.m, f.d) for f in self.funcs.values()]:
                for b in d.get("overrides", []):
                    self._ov.setdefault(b, set()).add(mm)
        out, todo = set(), [m]
        while todo:
            for x in self._ov.get(todo.pop(), ()):
                if x not in out:
                    out.add(x)
                    todo.append(x)
        return out


def ntl_dirs():
    with open(NTLX + "/Makefile") as f:
        for line in f:
            m = re.match(r"DIRS *= *(.*)", line)
            if m:
                return m.group(1).split()
    raise Broken("module list (DIRS) not found in ntl-extras/Makefile")


def _extract(tool, src, out, flags):
    p = subprocess.run([tool, "-root=" + NTLX + "/", "-o", out, src, "--"] + flags,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return src, p.returncode, p.stderr.decode(errors="replace")


def _resolve(node, tab, unit=0):
    """Function references by mangled name; declaration ids made unique across units."""
    if isinstance(node, dict):
        if isinstance(node.get("id"), int):
            node["id"] += unit * 10000000
        for key in ("fn", "mfn"):
            if key in node:
                node[key] = tab[node[key]]
        for v in node.values():
            if isinstance(v, (dict, list)):
                _resolve(v, tab, unit)
    elif isinstance(node, list):
        for v in node:
            if isinstance(v, (dict, list)):
                _resolve(v, tab, unit)


def load(verbose=False):
    tool = VERIF + "/build/extract"
    r = subprocess.run(["bash", VERIF + "/tool/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or not os.path.exists(tool):
        raise Broken("extractor does not build: " + r.stdout.decode()[-500:])
    dirs = ntl_dirs()
    tmp = tempfile.mkdtemp(prefix="pmlsa.")
    try:
        inc = tmp + "/inc"
        os.mkdir(inc)
        heads = []
        for d in dirs:
            for o in glob.glob("%s/%s/*.orig" % (NTLX, d)):
                if not os.path.exists(o[:-5] + ".h"):
                    shutil.copy(o, inc + "/" + os.path.basename(o)[:-5] + ".h")
            heads += sorted(glob.glob("%s/%s/*.h" % (NTLX, d)))
        srcs = [s for d in dirs for s in sorted(glob.glob("%s/%s/src/*.cpp" % (NTLX, d)))]
        if len(srcs) < 60:
            raise Broken("only %d library sources found" % len(srcs))
        allh = tmp + "/all_headers.cpp"
        with open(allh, "w") as f:
            for h in heads:
                f.write('#include "%s"\n' % h)
        flags = ["-w", "-U__clang__", "-D__assume__(x)=", "-std=c++11", "-O0"] + \
            ["-I%s/%s" % (NTLX, d) for d in dirs] + ["-I" + inc]
        prog = Program()
        with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            jobs = [pool.submit(_extract, tool, s, "%s/%d.json" % (tmp, i), flags) for i, s in enumerate(srcs + [allh])]
            res = [j.result() for j in jobs]
        for i, (src, rc, err) in enumerate(res):
            name = os.path.relpath(src, REPO) if src != allh else "<all headers>"
            out = "%s/%d.json" % (tmp, i)
            if rc or not os.path.exists(out):
                prog.errors.append("%s: %s" % (name, err[-300:]))
                continue
            with open(out) as f:
                d = json.load(f)
            tab = [x["m"] for x in d["fns"]]
            for x in d["fns"]:
                if x["m"] not in prog.fns:
                    prog.fns[x["m"]] = Fn(x)
            for x in d["funcs"]:
                if x["m"] in prog.funcs:
                    continue
                _resolve(x, tab, i)
                prog.funcs[x["m"]] = Func(x, prog.fns[x["m"]])
            for x in d["decls"]:
                _resolve(x, tab, i)
                prog.decls.setdefault(x["m"], x)
            for x in d["classes"]:
                prog.classes.setdefault(x["q"], x)
            for x in d["globals"]:
                _resolve(x, tab, i)
                prog.globals.setdefault((x["q"], x["file"], x["l"]), x)
            prog.units.append(name)
        if prog.errors:
            raise Broken("%d unit(s) do not parse: %s" % (len(prog.errors), prog.errors[0]))
        # tidy: where the generated threshold headers were read from
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def walk(n):
    """All dict nodes below n, in source order."""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)
