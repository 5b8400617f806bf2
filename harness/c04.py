from harness.common import ACTION_KEY, case, wide
from harness.monitors import Nearest

PROPERTY = "C04"
M = [Nearest]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player instead of being computed from the cards (the evaluator "
    "itself is decided by C15-C18)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "bet rounded", "folded")
    R = S + ("raised",)
    cs = [
        case("no limit", M, R, n=2, streets=2, acts="aaa", tail=5, blinds="any", antes="sym"),
        case("pot limit", M, R, n=2, streets=2, acts="aaa", tail=5, blinds="sym", raises="pot"),
        case("fixed limit", M, R, n=2, streets=2, acts="aaa", tail=5, blinds="sym",
             raises=["fixed", "fixed"]),
        case("no blinds", M, R, n=2, streets=2, acts="aaaa", tail=5, antes="sym"),
        case("capped", M, R, n=2, streets=2, acts="xaaa", tail=5, blinds=(1, 2), cap=1),
        case("three seats", M, R, n=3, streets=1, acts="xxa", tail=4, blinds=(1, 2), lo=1,
             strengths=False),
        case("three seats two bets", M, R, n=3, streets=1, acts="aa", tail=4, blinds=(5, 10),
             strengths=False),
    ]
    cs += wide(M, ("hand over",), letter="a")
    if tier == "thorough":
        cs += [case("three seats b%d" % b, M, R, n=3, streets=2, acts="naaa", tail=7,
                    blinds=(1, 2), button=b, strengths=False) for b in range(3)]
        cs += [case("heads-up long", M, R, n=2, streets=3, acts="aaaaa", tail=7, blinds="sym",
                    antes="sym"),
               case("four seats", M, R, n=4, streets=1, acts="xxaa", tail=5, blinds=(1, 2),
                    stacks=(10, 20, 30, 40), strengths=False)]
    return cs
