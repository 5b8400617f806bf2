from harness.common import error
from harness.hands import CATEGORIES, Hand, evaluator, group_category, offsets, patterns, size
from harness.c15 import ODD_ORDER, SHORT_DECK

PROPERTY = "C17"
BOUNDS = "all integers as rank, without bound, and all hands of the deck; the quick tier has ten " \
    "decks and hand sizes, the thorough tier all of 1-4 suits and 1-13 ranks, 1-5 cards, with and " \
    "without low straights"
ASSUMPTIONS = []
OUTSIDE = "ranks that are not integers"


def translate(ev, r):
    try:
        return ev.get_rank_class(r)
    except error.InvalidHandRankError:
        return None


def classes(ctx, suits, ranks, k, low=True, order=None):
    """every rank: the categories' ranges, measured on real hands"""
    ev = evaluator(suits, ranks, k, low, order)
    off = offsets(ev, suits, ranks, k, low)
    names = sorted(off, key=lambda c: off[c])
    r = ctx.int("rank")
    got = translate(ev, r)
    if got is not None:
        ctx.cover("rank")
    else:
        ctx.cover("no rank")
    last = names[-1]
    worst = off[last] + size(last, suits, ranks, k, low) - 1
    for c in names:
        n = size(c, suits, ranks, k, low)
        if got != c:
            mine = r >= off[c] and r < off[c] + n
            ctx.check(mine == False, "a rank is reported as the category of its hand")  # noqa: E712
    if got is None:
        ctx.check(r < 0 or r > worst, "no hand's rank is rejected")
    else:
        ctx.check(r >= 0, "negative ranks are rejected")
        ctx.check(r <= ev.table.max_rank, "ranks worse than the worst hand are rejected")
        ctx.check(got in names, "a rank's category exists in the deck")
        q = ctx.int("other")
        g = translate(ev, q)
        if g is not None:
            ctx.check(names.index(got) <= names.index(g) or q < r,
                      "a better rank is never reported as a worse category")
    ctx.log("category", got)


def hands(ctx, suits, ranks, k, low=True, order=None):
    """every hand: its rank translates to what its cards form"""
    ev = evaluator(suits, ranks, k, low, order)
    p = ctx.choice("pattern", patterns(suits, ranks, k))
    h = Hand(ctx, suits, ranks, p)
    score = ev.evaluate(h.cards, [])
    fl = h.flush(ctx)
    st = h.run_possible() and (h.run() or h.wheel(ctx, low))
    if fl:
        cat = "straight flush" if st else "flush"
    else:
        cat = "straight" if st else group_category(p)
    ctx.cover(cat)
    got = translate(ev, score)
    ctx.check(got == cat, "a hand's rank is reported as what its cards form")
    ctx.log("category", got)


def pair(suits, ranks, k, low=True, order=None):
    name = "%dx%d deck, %d-card hands%s%s" % (suits, ranks, k, "" if low else ", no low straight",
                                              ", custom order" if order else "")
    kw = dict(suits=suits, ranks=ranks, k=k, low=low, order=order)
    return [dict(name="every rank of the " + name, fn=classes, params=kw,
                 covers=("rank", "no rank"), bounds="all integers"),
            dict(name="every hand of the " + name, fn=hands, params=kw,
                 covers=[c for c in CATEGORIES if size(c, suits, ranks, k, low)],
                 bounds="all hands of the deck")]


def cases(tier):
    out = pair(4, 13, 5)
    out += pair(4, 9, 5, order=SHORT_DECK) + pair(4, 6, 5, order=ODD_ORDER)
    if tier == "quick":
        for a in ((4, 5, 5), (2, 3, 2), (1, 3, 1), (4, 13, 3, False), (3, 7, 4), (2, 8, 5, False),
                  (1, 7, 3)):
            out += pair(*a)
        return out
    for s in range(4, 0, -1):
        for r in range(13, 0, -1):
            for k in range(5, 0, -1):
                for low in (True, False):
                    if s * r >= k and patterns(s, r, k) and (s, r, k, low) != (4, 13, 5, True):
                        out += pair(s, r, k, low)
    return out
