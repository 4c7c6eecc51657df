from ..load import Broken
from ..report import Result
from ..api import public, frozen, reach_back, path_to
from ..effects import users


def confine(prog, pid, rule, kinds, floor):
    """Public functions outside the frozen set may not reach an effect of the given kinds."""
    res = Result(pid, rule)
    api = public(prog)
    for kind in kinds:
        allowed = set(frozen()["effects"][kind])
        us = users(prog, kind)
        reach, nxt = reach_back(prog, us)
        res.info["direct_%s_users" % kind] = len(us)
        res.info["public_%s_users_allowed" % kind] = len(allowed)
        bad = [f for f in api if f.m in reach and f.m not in allowed]
        # report each offending source once, with the functions that are innermost
        offenders = {f.m for f in bad}
        for f in api:
            if f.m in allowed:
                continue
            if f.m not in reach:
                res.ok("%s %s reaches no %s source" % (f.where(), f.sig(), kind))
                continue
            inner = nxt.get(f.m)
            if inner in offenders:
                continue     # explained by the callee's own report
            chain = path_to(prog, f.m, nxt)
            last = f.m
            while last in nxt:
                last = nxt[last]
            line, src = us[last]
            res.bad("%s|%s|%s" % (kind, f.sig(), src), prog.funcs[last].where(line),
                    "%s now reaches %s (%s); call path: %s" % (f.sig(), src, kind, chain))
    res.floor(floor, "public functions")
    return res
