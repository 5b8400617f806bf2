from harness.common import ACTION_KEY, case, wide
from harness.monitors import Streets

PROPERTY = "C07"
M = [Streets]
BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order (the property does not "
    "depend on the cards)",
    "starting stacks and the button are set on the dealer before the deal"]


def cases(tier):
    S = ("hand over", "showdown")
    N = S + ("next street", "fold win")
    kw = dict(strengths=False)
    B = lambda *b: dict(num_community_cards=list(b))  # noqa: E731
    cs = [
        case("heads-up", M, N, n=2, streets=3, acts="xxxxxx", tail=5, blinds="sym", cfg=B(1, 2, 1),
             **kw),
        case("heads-up holdem board", M, N, n=2, streets=4, acts="xxxx", tail=8, blinds="any",
             antes="sym", cfg=B(0, 3, 1, 1), button=1, **kw),
        case("any bets", M, N, n=2, streets=3, acts="aaaa", tail=5, blinds="sym", cfg=B(0, 2, 1),
             **kw),
        case("three seats", M, N, n=3, streets=3, acts="xxxx", tail=8, blinds=(1, 2), lo=1,
             cfg=B(0, 3, 1), **kw),
        case("four seats", M, N, n=4, streets=2, acts="xxxx", tail=6, blinds=(1, 2),
             stacks=(10, 20, 30, 40), button=1, **kw),
    ]
    cs += [case("no new cards %d seats b%d" % (n, b), M, S, n=n, streets=4, acts="xxx" if n == 2 else "xx", tail=4 * n, lo=1,
                blinds=(1, 2), button=b, cfg=B(*board), **kw)
           for n, b, board in ((2, 0, (0, 0, 2, 0)), (2, 1, (1, 0, 0, 0)), (3, 0, (0, 1, 0, 1)))]
    cs += wide(M, ("hand over",), strengths=False)
    if tier == "thorough":
        cs += [case("three seats b%d" % b, M, N, n=3, streets=2, acts="xxxxx", tail=6,
                    blinds=(1, 2), antes="sym", lo=1, button=b, **kw) for b in range(3)]
        cs += [case("five seats", M, N, n=5, streets=2, acts="xxxxx", tail=8, blinds=(1, 2),
                    stacks=(3, 40, 30, 40, 8), button=2, **kw),
               case("heads-up long", M, N, n=2, streets=4, acts="xxxxxxxx", tail=8, blinds="sym",
                    antes="sym", cfg=B(0, 3, 1, 1), **kw)]
    return cs
