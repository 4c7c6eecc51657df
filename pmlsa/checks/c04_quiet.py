"""Computations write to no stream and touch no file."""
from ._confine import confine
RULE = ("Call-graph effect analysis: a public function outside the frozen list of printing functions reaches no standard stream, "
        "C stdio call or file object")


def run(prog, tier):
    return confine(prog, "C04", RULE, ("io",), 700)
