from harness.common import ACTION_KEY, case, wide
from harness.monitors import Stakes

PROPERTY = "C02"
M = [Stakes]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player instead of being computed from the cards (the evaluator "
    "itself is decided by C15-C18)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over",)
    A = S + ("all in from blinds or antes",)
    cs = [
        case("any bets heads-up", M, A, n=2, streets=2, acts="aaa", tail=5, blinds="any",
             antes="any"),
        case("any bets pot limit", M, A, n=2, streets=2, acts="aaa", tail=5, blinds="sym",
             raises="pot", button=1),
        case("any bets fixed limit", M, A, n=2, streets=2, acts="aaa", tail=5, blinds="sym",
             raises=["fixed", "fixed"]),
        case("three seats deal", M, A[1:], n=3, streets=1, acts="", tail=0, blinds="any", antes="any",
             button="sym"),
        case("three seats deal and calls", M, A, n=3, streets=1, acts="", tail=3, blinds="any", antes="any",
             button=1, lo=1),
        case("three seats", M, S, n=3, streets=2, acts="xxx", tail=7, blinds=(1, 2), antes=1, lo=1),
        case("any bets three seats", M, A, n=3, streets=1, acts="aa", tail=4, blinds=(1, 2)),
        case("four all in", M, S, n=4, streets=1, acts="R", tail=4, button=2),
    ]
    cs += wide(M, ("hand over",))
    if tier == "thorough":
        cs += [case("three seats b%d" % b, M, A, n=3, streets=1, acts="xxxx", tail=4, blinds="sym",
                    antes="sym", button=b) for b in range(3)]
        cs += [case("any bets three seats long", M, A, n=3, streets=2, acts="aaa", tail=7,
                    blinds=(1, 2), antes="sym"),
               case("four seats", M, S, n=4, streets=2, acts="xxxx", tail=8, blinds=(1, 2),
                    stacks=(10, 20, 30, 40))]
    return cs
