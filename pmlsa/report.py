"""Results of a check: obligations with verdicts, the evidence file, the VIOLATION lines."""
import json, multiprocessing, os, sys, time, traceback
from .load import VERIF, Broken

KNOWN = VERIF + "/known-findings.txt"


class Result:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.proved, self.unknown, self.viol = [], [], []
        self.info = {}
        self.t0 = time.time()

    def ok(self, what):
        self.proved.append(what)

    def unk(self, what, why=""):
        self.unknown.append("%s -- %s" % (what, why) if why else what)

    def bad(self, key, where, msg):
        """key identifies the finding independently of line numbers."""
        if all(v[0] != key for v in self.viol):
            self.viol.append((key, where, msg))

    def floor(self, n, what="rule instances"):
        got = len(self.proved) + len(self.unknown) + len(self.viol)
        if got < n:
            raise Broken("%s: only %d %s found, %d were confirmed by hand" % (self.prop, got, what, n))


def known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property="):
                head, _, what = line[len("known: property="):].partition(" | ")
                p, _, key = head.partition(" key=")
                out[(p, key)] = what
    return out


def finish(res, tier, level="other"):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    k = known()
    new, old = [], []
    for v in res.viol:
        (old if (res.prop, v[0]) in k else new).append(v)
    n = len(res.proved) + len(res.unknown) + len(res.viol)
    cov = {
        "explanation": "%s. %d obligations analysed on this run: %d established, %d not decided by the analysis, %d violated (%d of them listed as known findings)."
        % (res.rule.rstrip("."), n, len(res.proved), len(res.unknown), len(res.viol), len(old)),
        "obligations": n, "discharged": len(res.proved), "undecided": len(res.unknown),
        "samples": res.proved[:12], "undecided_list": res.unknown[:60],
        "findings": [{"key": a, "where": b, "what": c} for a, b, c in res.viol],
    }
    cov.update(res.info)
    ev = {"property": res.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - res.t0, 2), "violations": len(new)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, res.prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, where, msg in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (res.prop, where, k[(res.prop, key)]))
    print("%s: %d obligations, %d established, %d undecided, %d violated" % (res.prop, n, len(res.proved), len(res.unknown), len(new)))
    if new:
        rp = "%s/evidence/%s.violations.txt" % (VERIF, res.prop)
        with open(rp, "w") as f:
            for key, where, msg in new:
                f.write("%s\n  rule: %s\n  %s\n  key: %s\n" % (where, res.rule, msg, key))
        for key, where, msg in new:
            print("  %s: %s" % (where, msg))
        print("VIOLATION property=%s replay=%s" % (res.prop, rp))
        return 1
    return 0


ASSUME = [
    "the clang 18 front end resolves names, overloads and types of the sources as the build does (same flags, module list read from ntl-extras/Makefile)",
    "NTL 11.5.1 functions behave as documented; their effects are modelled in pmlsa/absint.py",
    "distinct reference parameters denote distinct objects unless the property says otherwise",
]

_job = None


def _call(i):
    from .absint import _uid
    _uid.n = 0
    try:
        return i, _job[0](_job[1][i])
    except Exception as e:      # an engine failure on one obligation leaves it undecided
        return i, ("engine", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-400:])


def pmap(fn, items, cost=None):
    """fn over items in forked workers; results in order."""
    global _job
    items = list(items)
    if not items:
        return []
    _job = (fn, items)
    n = min(os.cpu_count() or 4, 8)
    order = sorted(range(len(items)), key=lambda i: -(cost(items[i]) if cost else 0))
    out = [None] * len(items)
    ctx = multiprocessing.get_context("fork")
    sys.setrecursionlimit(8000)
    with ctx.Pool(n) as pool:
        for i, r in pool.imap_unordered(_call, order, chunksize=1):
            out[i] = r
    return out
