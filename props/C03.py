"""No operation loses precision by going through a narrower type."""
import sys
from engine import events

LEVEL = "proof"
RULE = ("no conversion, inside the library, of a value that depends on the inputs from double to float, from floating point to an integral type, from a 64-bit to a narrower integer, "
        "or from a 64-bit integer to floating point, on any feasible path")
ASSUMPTIONS = ["conversions the caller asks for (converting constructors) are exempt, and so is the rounding of each arithmetic operation itself"]
KINDS = ("fp-narrow", "fp-to-int", "int-narrow", "int-to-fp")


def keep(pid, o):
    return o.T in ("double", "long", "std::size_t") and "convert" not in o.name and not (pid == "C22" and o.T != "double")


def check(a):
    return events.check(a, sys.modules[__name__], KINDS, keep=keep, inside=True)
