"""Derives the operation every loop-free form delivers (run by hand, reviewed)."""
import json, os
from . import load, forms
from .terms import Terms, Unsup, freeze, size, show

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "forms.json")


def main():
    prog = load.load()
    T, by = Terms(prog), forms.candidates(prog)
    pairs, table = [], {}
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if "_output/" in f.file or "/util/" in f.file or f.ctor or f.n.startswith("~") or f.n == "operator<<" and "ostream" in f.rt:
            continue
        g = forms.partner(prog, by, f)
        if g is not None and T.paths(f.m):
            pairs.append([f.m, g.m])
            continue
        r = forms.results(T, f.m)
        if not r:
            continue
        try:
            row = {}
            for k, ts in r.items():
                if any(size(t) > 120 for t in ts):
                    continue
                row[k] = sorted({json.dumps(freeze(t)) for t in ts})
        except Unsup:
            continue
        row = {k: [json.loads(x) for x in v] for k, v in row.items()}
        if row:
            table[f.m] = row
    with open(OUT, "w") as o:
        json.dump({"pairs": pairs, "table": table}, o, indent=0, sort_keys=True)
        o.write("\n")
    print(len(pairs), "pairs", len(table), "forms")


main()
