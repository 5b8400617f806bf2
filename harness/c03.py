from harness.common import ACTION_KEY, case, wide
from harness.monitors import Sizes

PROPERTY = "C03"
M = [Sizes]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order (the property does not "
    "depend on the cards)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "offer later in the hand")
    C = S + ("raising closed",)
    kw = dict(strengths=False)
    cs = [
        case("no limit heads-up", M, C, n=2, streets=2, acts="xxxx", tail=4, blinds="any",
             antes="sym", **kw),
        case("pot limit heads-up", M, C, n=2, streets=2, acts="xxxx", tail=4, blinds="any",
             raises="pot", antes="sym", **kw),
        case("fixed limit heads-up", M, C, n=2, streets=2, acts="xxxx", tail=4, blinds="sym",
             raises=["fixed", "fixed"], cap=[2, 1], **kw),
        case("mixed limits", M, C, n=2, streets=3, acts="xxxx", tail=6, blinds=(1, 2),
             raises=["fixed", "pot", "inf"], cap=[2, 1, 3], **kw),
        case("no limit after fixed limit", M, C, n=2, streets=2, acts="xxxx", tail=4, blinds="sym",
             raises=["fixed", "inf"], **kw),
        case("no limit three seats", M, C, n=3, streets=1, acts="xxx", tail=4, blinds="sym", lo=1,
             **kw),
        case("pot limit three seats", M, C, n=3, streets=1, acts="xxxx", tail=4, blinds=(1, 2),
             lo=1, raises="pot", cap=2, **kw),
        case("fixed limit three seats", M, C, n=3, streets=2, acts="xxx", tail=6, blinds=(1, 2),
             lo=1, raises=[2, 4], cap=[1, 1], **kw),
    ]
    cs += wide(M, ("hand over",), strengths=False)
    if tier == "thorough":
        cs += [case("no limit three seats b%d" % b, M, C, n=3, streets=1, acts="xxxxx", tail=4,
                    blinds="sym", antes="sym", button=b, **kw) for b in range(3)]
        cs += [case("no limit four seats", M, C, n=4, streets=1, acts="xxxx", tail=6,
                    blinds=(1, 2), lo=1, **kw),
               case("streets", M, C, n=3, streets=3, acts="xxxxxx", tail=8, blinds=(1, 2),
                    stacks=(60, 100, 150), raises=["pot", "inf", 4], **kw)]
    return cs
