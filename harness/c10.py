from harness.common import ACTION_KEY, case, wide
from harness.monitors import SidePots

PROPERTY = "C10"
M = [SidePots]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player instead of being computed from the cards (the evaluator "
    "itself is decided by C15-C18)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "showdown")
    T = S + ("split pot", "side pot")
    cs = [
        case("heads-up", M, T, n=2, streets=2, acts="xxx", tail=5, blinds="sym", antes="sym"),
        case("heads-up uneven antes", M, T, n=2, streets=1, acts="xx", tail=3, blinds="sym",
             antes="any", button=1),
        case("three all in", M, T, n=3, streets=1, acts="R", tail=3, button="sym", lo=1),
        case("three seats antes", M, T, n=3, streets=1, acts="Rp", tail=3, antes="any", lo=1),
        case("three seats folds", M, T, n=3, streets=1, acts="RxpC", tail=2, blinds=(1, 2), lo=1,
             button=1),
        case("big blind ante", M, T, n=3, streets=1, acts="Rpp", tail=2, blinds=(1, 2), antes="bb",
             lo=1),
        case("four all in", M, T, n=4, streets=1, acts="R", tail=4, button=2),
    ]
    cs += wide(M, ("hand over",))
    if tier == "thorough":
        cs += [case("three seats b%d" % b, M, T, n=3, streets=2, acts="xxxx", tail=6,
                    blinds=(1, 2), antes="sym", lo=1, button=b) for b in range(3)]
        cs += [case("four seats", M, T, n=4, streets=1, acts="Rppp", tail=4, antes=1, lo=1),
               case("five all in", M, T, n=5, streets=1, acts="R", tail=5,
                    stacks=(7, 11, 11, 20, 35), button=2)]
    return cs
