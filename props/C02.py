"""Memory safety and assertions, on every obligation of C04-C24, with assertions enabled."""
from engine import events, run

LEVEL = "proof"
RULE = "no event (out-of-bounds, uninitialised, dangling or null access, integer division by zero, failed assertion, trap) with a satisfiable path condition"
KINDS = run.MEM_EVENTS + ("abort", "trap")


def check(a):
    import sys
    return events.check(a, sys.modules[__name__], KINDS, flags=[f for f in run.FLAGS if f != "-DNDEBUG"],
                        keep=lambda pid, o: a.tier != "quick" or o.T != "float")
