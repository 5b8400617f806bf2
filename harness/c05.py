from harness.common import ACTION_KEY, case
from harness.monitors import Cap

PROPERTY = "C05"
M = [Cap]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order (the property does not "
    "depend on the cards)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "cap reached")
    N = S + ("next street",)
    kw = dict(strengths=False)
    cs = [
        case("fixed limit", M, N, n=2, streets=2, acts="xxxxx", tail=4, blinds="sym",
             raises=["fixed", "fixed"], cap=[2, 1], **kw),
        case("fixed limit any bets", M, S, n=2, streets=2, acts="aaaaa", tail=4, blinds=(1, 2),
             raises=[4, 2], cap=[2, 1], **kw),
        case("no limit", M, N, n=2, streets=2, acts="xxxxxx", tail=4, blinds="any", cap=[2, 1],
             **kw),
        case("no raises", M, N, n=2, streets=2, acts="aaaa", tail=4, blinds="sym", cap=0, **kw),
        case("pot limit", M, N, n=2, streets=2, acts="xxxxx", tail=4, blinds="sym", raises="pot",
             cap=2, **kw),
        case("three seats", M, S, n=3, streets=1, acts="nnnnx", tail=4, blinds=(1, 2), lo=1,
             raises=2, cap=2, **kw),
        case("three seats streets", M, N, n=3, streets=2, acts="nnnnn", tail=6, blinds=(1, 2),
             stacks=(30, 30, 7), raises=[4, 2], cap=[1, 2], **kw),
        case("last of three streets", M, S, n=3, streets=3, acts="CCCCCCnnnx", tail=4,
             blinds=(1, 2), stacks=(40, 9, 50), raises=[2, 2, 4], cap=[4, 3, 2], button=1, **kw),
        case("no limit last street", M, S, n=2, streets=4, acts="CCCCCCxxxx", tail=4,
             blinds=(1, 2), lo=1, cap=[1, 2, 3, 2], **kw),
        case("raises on all of three streets", M, N, n=2, streets=3, acts="nnnnnnnnn", tail=6, blinds=(1, 2),
             stacks=(60, 70), raises=[2, 2, 4], cap=[1, 2, 2], **kw),
        case("raises on all of four streets", M, N, n=2, streets=4, acts="n" * 12, tail=8,
             blinds=(1, 2), stacks=(60, 700), cap=[2, 1, 1, 2], button=1, **kw),
        case("six seats", M, S, n=6, streets=2, acts="nnnnn", tail=12, blinds=(1, 2),
             stacks=(10, 20, 3, 40, 5, 60), raises=[2, 4], cap=[2, 1], button=4, **kw),
        case("pot limit five seats", M, S, n=5, streets=1, acts="nnRnn", tail=5, blinds=(1, 2),
             stacks=(100, 90, 80, 300, 60), raises="pot", cap=2, button=3, **kw),
    ]
    cs += [
        case("second hand after a fold", M, S + ("second hand",), n=2, streets=2, first="RRF", acts="nnxx",
             tail=4, blinds=(1, 2), lo=4, cap=2, **kw),
        case("second hand after a showdown", M, S + ("second hand",), n=3, streets=2,
             first="RCC" + "CRCC" + "C" * 4, acts="nnxx", tail=8, blinds=(1, 2), antes=1, stacks=(30, 50, 40),
             raises=[2, 4], button=1, cap=2, **kw),
    ]
    if tier == "thorough":
        cs += [case("three seats no limit b%d" % b, M, S, n=3, streets=1, acts="xxxxx", tail=4,
                    blinds="sym", button=b, cap=2, lo=1, **kw) for b in range(3)]
        cs += [case("four seats", M, N, n=4, streets=2, acts="nnnnnn", tail=8, blinds=(1, 2),
                    stacks=(10, 20, 30, 40), raises=[2, 4], cap=[3, 2], **kw),
               case("cap of three", M, N, n=2, streets=2, acts="xxxxxxxx", tail=4, blinds="sym",
                    cap=3, **kw)]
    return cs
