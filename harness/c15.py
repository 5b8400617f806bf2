import itertools

from harness.hands import (CATEGORIES, Hand, evaluator, group_category, offsets, patterns, place,
                           size)

PROPERTY = "C15"
BOUNDS = "every hand of the deck; 4 orders of its cards in the quick tier, all in the thorough " \
    "tier; quick: ten decks and hand sizes with the 52-card deck and five-card hands among them, " \
    "thorough: every deck of 1-4 suits and 1-13 ranks, 1-5 card hands, with and without low straight"
ASSUMPTIONS = ["all cards of a hand are different cards of the deck"]
OUTSIDE = "the order of the categories among one another (C18)"

SHORT_DECK = ["sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc"]
ODD_ORDER = ["hc", "pa", "tp", "tk", "st", "fl", "fh", "fk", "sf"]


def orders(k, n):
    """some or all orders in which the cards may come"""
    if n is None:
        return list(itertools.permutations(range(k)))
    ident = list(range(k))
    out = [ident, ident[::-1], ident[1:] + ident[:1], ident[:k // 2][::-1] + ident[k // 2:]]
    uniq = []
    for o in out:
        if o not in uniq:
            uniq.append(o)
    return uniq[:n]


def ranking(ctx, suits, ranks, k, low=True, order=None, n=4):
    ev = evaluator(suits, ranks, k, low, order)
    off = offsets(ev, suits, ranks, k, low)
    p = ctx.choice("pattern", patterns(suits, ranks, k))
    perms = orders(k, n)
    hand = Hand(ctx, suits, ranks, p)
    cards = hand.cards
    got = [ev.evaluate([cards[i] for i in o], []) for o in perms]
    fl = hand.flush(ctx)
    if fl:
        fl = True
    run, wheel = False, False
    if hand.run_possible():
        if hand.run():
            run = True
        elif hand.wheel(ctx, low):
            wheel = True
    st = run or wheel
    cat = "straight flush" if st and fl else "flush" if fl else "straight" if st else group_category(p)
    ctx.cover(cat)
    want = off[cat] + place(hand, run, wheel, low)
    for g in got:
        ctx.check(g == want, "hands of a category are ranked by the rules")
    ctx.log("rank", got[0])
    spans = sorted([(off[c], size(c, suits, ranks, k, low)) for c in off])
    for (a, m), (b, _) in zip(spans, spans[1:]):
        ctx.check(a + m <= b, "a better category beats a worse one")


def covers(suits, ranks, k, low):
    return [c for c in CATEGORIES if size(c, suits, ranks, k, low)]


def case(suits, ranks, k, low=True, order=None, n=4):
    name = "%dx%d deck, %d-card hands" % (suits, ranks, k)
    if not low:
        name += ", no low straight"
    if order:
        name += ", custom order" if order is SHORT_DECK else ", reversed order"
    return dict(name=name, fn=ranking,
                params=dict(suits=suits, ranks=ranks, k=k, low=low, order=order, n=n),
                covers=covers(suits, ranks, k, low),
                bounds="all hands of the deck, %s orders of the cards" % (n or "all"))


def cases(tier):
    if tier == "quick":
        return [case(4, 13, 5), case(4, 9, 5, order=SHORT_DECK), case(4, 5, 5), case(2, 3, 2),
                case(1, 3, 1), case(4, 13, 3, low=False), case(3, 7, 4), case(2, 8, 5, low=False),
                case(1, 7, 3), case(4, 6, 5, order=ODD_ORDER)]
    out = [case(4, 13, 5, n=None), case(4, 9, 5, order=SHORT_DECK), case(4, 6, 5, order=ODD_ORDER)]
    for s in range(4, 0, -1):
        for r in range(13, 0, -1):
            for k in range(5, 0, -1):
                for low in (True, False):
                    if s * r >= k and patterns(s, r, k) and (s, r, k, low) != (4, 13, 5, True):
                        out.append(case(s, r, k, low, n=1 if s * r > 40 and k > 4 else 2))
    return out
