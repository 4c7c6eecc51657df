"""Randomness and clock confined to the operations documented as randomised."""
from ._confine import confine
RULE = ("Call-graph effect analysis (virtual calls resolved to every override, lambdas included): a public function outside the "
        "frozen list of randomised operations reaches no random generator, reseeding, clock, process or environment query")


def run(prog, tier):
    return confine(prog, "C03", RULE, ("random", "clock"), 700)
