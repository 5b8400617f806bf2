from harness.common import ACTION_KEY, case
from harness.monitors import FoldWin

PROPERTY = "C09"
M = [FoldWin]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player instead of being computed from the cards (the evaluator "
    "itself is decided by C15-C18)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "fold win")
    cs = [
        case("heads-up", M, S, n=2, streets=3, acts="xxxxxx", tail=5, blinds="sym", antes="sym"),
        case("heads-up uneven antes", M, S, n=2, streets=2, acts="xxxx", tail=5, blinds="any",
             antes="any", button=1),
        case("three seats", M, S, n=3, streets=1, acts="xxx", tail=4, blinds="sym", button=1),
        case("three seats fold", M, S, n=3, streets=2, acts="nnpFF", tail=0, blinds=(1, 2),
             antes="any", button=2),
        case("four seats", M, S, n=4, streets=2, acts="RppFFF", tail=6, blinds=(1, 2), antes="bb",
             button=1),
    ]
    cs += [
        case("six seats fold", M, S, n=6, streets=2, acts="nxFFFFFFFF", tail=0, blinds=(1, 2), antes="bb",
             button=4, lo=3),
        case("a street later", M, S, n=3, streets=3, acts="CCCRnFFF", tail=0, blinds=(1, 2), antes=1,
             lo=1, button=2),
        case("last street fold", M, S, n=3, streets=4, acts="CCCCCCCCCRFF", tail=0, blinds=(1, 2),
             lo=1, button=1),
        case("nine seats fold", M, S, n=9, streets=1, acts="RFFFFnFFFF", tail=0, blinds=(1, 2),
             button=7, stacks=(90, 80, 70, 60, 50, 40, 0, 20, 10)),
        case("all fold to the big blind", M, S, n=4, streets=1, acts="FFF", tail=0, blinds="sym",
             antes=1, lo=1, button=3),
    ]
    cs += [
        case("second hand after a fold", M, S + ("second hand",), n=2, streets=2, first="RRF", acts="xxx",
             tail=4, blinds=(1, 2), lo=4),
        case("second hand after a showdown", M, S + ("second hand",), n=3, streets=2,
             first="RCC" + "CRCC" + "C" * 4, acts="xFF", tail=4, blinds=(1, 2), antes="bb", stacks=(30, 50, 40),
             strengths=[1, 2, 1], button=1),
    ]
    if tier == "thorough":
        cs += [case("three seats b%d" % b, M, S, n=3, streets=2, acts="xxxxF", tail=6,
                    blinds=(1, 2), antes="sym", lo=1, button=b) for b in range(3)]
        cs += [case("four seats long", M, S, n=4, streets=1, acts="xxxpFFF", tail=6, blinds=(1, 2),
                    antes="sym"),
               case("five seats", M, S, n=5, streets=2, acts="xxxppFFFF", tail=8, blinds=(1, 2),
                    stacks=(3, 40, 30, 40, 8), button=2)]
    return cs
