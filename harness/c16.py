import itertools

from harness.c15 import ODD_ORDER, SHORT_DECK
from harness.hands import card, evaluator, real_card

PROPERTY = "C16"
BOUNDS = "52-card deck and five-card hands: given boards and hole cards with two (thorough: three) " \
    "cards unknown, hold'em and Omaha; small decks: up to 6 cards, all unknown; two orders of the " \
    "cards each; 0 to all hole cards required; boards that are too short"
ASSUMPTIONS = ["all cards are different cards of the deck"]
OUTSIDE = "what a hand made of given cards is worth (C15)"


def distinct(ctx, xs):
    conds = []
    for i in range(len(xs)):
        for j in range(i):
            (a, s), (b, t) = xs[i], xs[j]
            same = ctx.all([a == b, s == t])
            conds.append(same == False)  # noqa: E712
    ctx.assume(ctx.all(conds))


def deal(ctx, suits, ranks, hole, board, fixed):
    """hole and board cards; the first of each are given, the others unknown"""
    out, places = [], []
    for name, n, given in (("hole", hole, fixed[0]), ("board", board, fixed[1])):
        cards = []
        for i in range(n):
            if i < len(given):
                x, s = given[i]
            else:
                x = ctx.bits("%s_rank%d" % (name, i), 0, ranks - 1)
                s = ctx.bits("%s_suit%d" % (name, i), 0, suits - 1) if suits > 1 else 0
            places.append((x, s))
            cards.append((x, s))
        out.append(cards)
    distinct(ctx, places)
    return [[card(ctx, x, s, ranks, suits) for x, s in cs] for cs in out]


def best(ctx, suits, ranks, k, hole, board, mandatory, fixed=((), ()), order=None):
    order = list(order) if order else None
    ev = evaluator(suits, ranks, k, True, order, mandatory)
    base = evaluator(suits, ranks, k, True, order)
    h, b = deal(ctx, suits, ranks, hole, board, fixed)
    if mandatory:
        combs = [list(p) + list(q) for p in itertools.combinations(h, mandatory)
                 for q in itertools.combinations(b, k - mandatory)]
    else:
        combs = [list(c) for c in itertools.combinations(h + b, k)]
    scores = [base.table.lookup(c) for c in combs]
    for hh, bb in ((h, b), (h[::-1], b[1:] + b[:1])):
        hc, bc = list(hh), list(bb)
        got = ev.evaluate(hc, bc)
        ctx.check(len(hc) == hole and len(bc) == board and
                  all([x is y for x, y in zip(hc + bc, hh + bb)]), "cards are left as they were")
        for s in scores:
            ctx.check(ctx.solved(lambda: got <= s), "no allowed hand is better")
        if scores:
            ctx.check(ctx.solved(lambda: some([got == s for s in scores])), "the hand is an allowed one")
            ctx.cover("hand")
        else:
            ctx.cover("no hand yet")
        ctx.log("rank", got)


def some(conds):
    r = False
    for c in conds:
        r = r or c
    return r


def case(name, bounds, **kw):
    n = kw["hole"] - kw["mandatory"] >= 0 and (
        kw["board"] >= kw["k"] - kw["mandatory"] if kw["mandatory"] else
        kw["hole"] + kw["board"] >= kw["k"])
    return dict(name=name, fn=best, params=kw, covers=("hand",) if n else ("no hand yet",),
                bounds=bounds)


def small(suits, ranks, k, hole, board, mandatory, order=None):
    return case("%d+%d cards of %dx%d, %d-card hands, %d from hole%s" % (
        hole, board, suits, ranks, k, mandatory, ", custom order" if order else ""), "all deals",
        suits=suits, ranks=ranks, k=k, hole=hole, board=board, mandatory=mandatory, order=order)


def holdem(name, given, hole=2, mandatory=0, mine=()):
    return case(name, "52-card deck; board begins with %s, hole cards begin with %s, all others "
                "unknown (rank from the ace down, suit)" % (given, mine),
                suits=4, ranks=13, k=5, hole=hole, board=5, mandatory=mandatory,
                fixed=(mine, given))


PAIRED = ((0, 1), (0, 2), (3, 1), (6, 1), (8, 2))
THREE_FLUSH = ((4, 0), (5, 0), (6, 0), (9, 1), (12, 2))
TRIPS = ((7, 0), (7, 1), (7, 3), (2, 0), (11, 0))
ON_BOARD = ((0, 3), (1, 3), (2, 3), (3, 3), (4, 3))
LOW_RUN = ((0, 0), (12, 0), (11, 2), (10, 0), (9, 1))


def cases(tier):
    out = [
        holdem("hold'em, paired board", PAIRED),
        holdem("hold'em, three of a suit and in a row", THREE_FLUSH),
        holdem("hold'em, trips on board", TRIPS),
        holdem("hold'em, royal flush on board", ON_BOARD),
        holdem("hold'em, low run on board", LOW_RUN),
        holdem("hold'em, unknown river", THREE_FLUSH[:4], mine=((3, 1),)),
        holdem("omaha, two unknown hole cards", THREE_FLUSH, hole=4, mandatory=2,
               mine=((0, 0), (4, 1))),
        holdem("nine cards, any may be used", THREE_FLUSH, hole=4, mine=((0, 0), (4, 1), (6, 3))),
        holdem("five hole cards, two to be used", PAIRED, hole=5, mandatory=2,
               mine=((0, 0), (3, 3), (4, 1), (6, 3))),
        small(2, 9, 1, 6, 3, 0), small(4, 6, 3, 2, 0, 0), small(4, 6, 3, 2, 2, 0, order=ODD_ORDER),
        small(3, 5, 3, 2, 2, 1, order=SHORT_DECK),
        small(2, 6, 3, 2, 3, 0), small(2, 4, 2, 2, 2, 0), small(3, 4, 3, 2, 2, 1),
        small(2, 4, 2, 2, 2, 1), small(2, 5, 4, 4, 0, 4), small(2, 4, 4, 4, 2, 4),
        small(1, 6, 1, 1, 3, 0), small(2, 3, 2, 1, 1, 0), small(3, 4, 3, 2, 1, 1),
        small(1, 5, 1, 2, 2, 1), small(3, 4, 3, 2, 0, 2),
    ]
    if tier == "thorough":
        for b in (PAIRED, THREE_FLUSH, TRIPS, ON_BOARD, LOW_RUN):
            n = "%s" % (b,)
            out += [
                holdem("hold'em, unknown river, board " + n, b[:4]),
                holdem("hold'em, one hole card and the river unknown, board " + n, b[:4],
                       mine=((8, 3),)),
                holdem("omaha, board " + n, b, hole=4, mandatory=2, mine=((1, 0), (1, 1))),
                holdem("omaha, unknown river, board " + n, b[:4], hole=4, mandatory=2,
                       mine=((1, 0), (1, 1), (12, 3))),
                holdem("three hole cards, three must be used, board " + n, b, hole=3, mandatory=3,
                       mine=((2, 3),)),
            ]
        out += [small(2, 5, 2, 3, 3, 1), small(4, 4, 3, 2, 3, 0), small(3, 5, 4, 3, 2, 0),
                small(3, 5, 3, 3, 2, 1), small(3, 5, 3, 3, 2, 2), small(2, 6, 5, 2, 4, 0),
                small(2, 6, 5, 3, 3, 2), small(4, 3, 2, 2, 3, 2), small(4, 13, 1, 2, 1, 0),
                small(4, 13, 2, 2, 1, 0)]
    return out
