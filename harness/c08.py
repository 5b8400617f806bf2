from harness.common import ACTION_KEY, case, wide
from harness.monitors import Ending

PROPERTY = "C08"
M = [Ending]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order (the property does not "
    "depend on the cards)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "showdown")
    N = S + ("fold win",)
    kw = dict(strengths=False)
    cs = [
        case("heads-up", M, N, n=2, streets=3, acts="xxxxxx", tail=5, blinds="sym", antes="sym",
             **kw),
        case("heads-up button 1", M, N, n=2, streets=2, acts="xxxx", tail=5, blinds="any",
             button=1, **kw),
        case("pot limit", M, N, n=2, streets=2, acts="xxxxx", tail=4, blinds="sym", raises="pot",
             cap=2, **kw),
        case("three seats", M, N, n=3, streets=1, acts="xxx", tail=4, blinds="sym", button=1, **kw),
        case("three seats streets", M, N, n=3, streets=2, acts="xxxx", tail=6, blinds=(1, 2), lo=1,
             button=2, **kw),
        case("four seats", M, N, n=4, streets=2, acts="xxxx", tail=6, blinds=(1, 2),
             stacks=(10, 20, 30, 40), button=1, **kw),
        case("bets on two streets and a fold", M, ("hand over", "next street"), n=3, streets=2,
             acts="RCCnnRpp", tail=4, lo=1, **kw),
    ]
    cs += wide(M, ("hand over",), strengths=False)
    if tier == "thorough":
        cs += [case("three seats b%d" % b, M, N, n=3, streets=2, acts="xxxxx", tail=6,
                    blinds=(1, 2), antes="sym", lo=1, button=b, **kw) for b in range(3)]
        cs += [case("five seats", M, N, n=5, streets=2, acts="xxxxx", tail=8, blinds=(1, 2),
                    stacks=(3, 40, 30, 40, 8), button=2, **kw),
               case("heads-up long", M, N, n=2, streets=4, acts="xxxxxxxx", tail=8, blinds="sym",
                    antes="sym", **kw)]
    return cs
