from harness.common import error
from harness.hands import (CATEGORIES, SHORT, Hand, choose, evaluator, frequency, group_category,
                           offsets, patterns, size)
from harness.common import Evaluator
from harness.c15 import ODD_ORDER, SHORT_DECK

PROPERTY = "C18"
BOUNDS = "all hands of the deck; quick: the common decks and the corner cases of few suits, few " \
    "ranks and small hands, thorough: every deck of 1-4 suits and 1-13 ranks, 1-5 card hands, with " \
    "and without low straight; custom orders: every order that differs from the usual one by a swap or a " \
    "rotation, with any text of two characters in one place"
ASSUMPTIONS = ["all cards of a hand are different cards of the deck"]
OUTSIDE = "orders with repeated entries beyond the nine"

USUAL = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]


def beats(ctx, suits, ranks, k, low, order, ev):
    """one unknown hand against every other category"""
    off = offsets(ev, suits, ranks, k, low)
    freq = {c: frequency(c, suits, ranks, k, low) for c in CATEGORIES}
    p = ctx.choice("pattern", patterns(suits, ranks, k))
    h = Hand(ctx, suits, ranks, p)
    score = ev.evaluate(h.cards, [])
    fl = h.flush(ctx)
    st = h.run_possible() and (h.run() or h.wheel(ctx, low))
    if fl:
        mine = "straight flush" if st else "flush"
    else:
        mine = "straight" if st else group_category(p)
    ctx.cover(mine)
    for c in off:
        n = size(c, suits, ranks, k, low)
        better = worse = False
        if order is not None:
            pos = [SHORT[o] for o in order]
            better, worse = pos.index(mine) < pos.index(c), pos.index(mine) > pos.index(c)
        else:
            better, worse = freq[mine] < freq[c], freq[mine] > freq[c]
        if better:
            ctx.check(ctx.solved(lambda: score < off[c]), label(order, mine, c))
        if worse:
            ctx.check(ctx.solved(lambda: score >= off[c] + n), label(order, mine, c))
    ctx.log("rank", score)


def label(order, a, b):
    if order is not None:
        return "the custom order is kept"
    return "rarer categories beat more common ones (%s)" % " / ".join(sorted([a, b]))


def rarity(ctx, suits, ranks, k, low=True):
    ev = evaluator(suits, ranks, k, low)
    beats(ctx, suits, ranks, k, low, None, ev)


def shares(ctx, suits, ranks, k, low=True):
    """the shown percentages; the configuration is all there is to it"""
    ev = evaluator(suits, ranks, k, low)
    total = choose(suits * ranks, k)
    shown = {}
    for part in str(ev).split(" > "):
        name, share = part[:-1].rsplit(" (", 1)
        ctx.check(name not in shown, "a category is shown once")
        shown[name] = share
    for c in CATEGORIES:
        f = frequency(c, suits, ranks, k, low)
        if f or c in shown:
            ctx.check(shown.get(c) == "{:.4%}".format(f / total), "shown percentages are the true shares")
    ctx.cover("shares")


def custom(ctx, suits, ranks, k, kind):
    """the usual order with two places swapped, or rotated"""
    i = ctx.choice("i", list(range(9)))
    order = list(USUAL)
    if kind == "swap":
        j = ctx.choice("j", list(range(9)))
        ctx.assume(i < j)
        order[i], order[j] = order[j], order[i]
    else:
        order = order[i:] + order[:i]
    ev = Evaluator(suits, ranks, k, order=order)
    beats(ctx, suits, ranks, k, True, order, ev)


def incomplete(ctx, suits, ranks, k):
    """any text in one place of the order"""
    i = ctx.choice("i", list(range(9)))
    t = ctx.text("t", 2)
    order = list(USUAL)
    order[i] = t
    failed = False
    try:
        Evaluator(suits, ranks, k, order=order)
    except error.InvalidOrderError:
        failed = True
    if failed:
        ctx.cover("rejected")
        ctx.check(t != USUAL[i], "a complete order is accepted")
    else:
        ctx.cover("accepted")
        ctx.check(t == USUAL[i], "an order that leaves a category out is rejected")


def shorter(ctx, suits, ranks, k):
    i = ctx.choice("i", list(range(9)))
    order = USUAL[:i] + USUAL[i + 1:]
    try:
        Evaluator(suits, ranks, k, order=order)
        ctx.check(False, "an order that leaves a category out is rejected")
    except error.InvalidOrderError:
        ctx.cover("rejected")


def label_of(suits, ranks, k, low):
    return "%dx%d deck, %d-card hands%s" % (suits, ranks, k, "" if low else ", no low straight")


def pair(suits, ranks, k, low=True):
    name = label_of(suits, ranks, k, low)
    kw = dict(suits=suits, ranks=ranks, k=k, low=low)
    return [dict(name="rarity, " + name, fn=rarity, params=kw,
                 covers=[c for c in CATEGORIES if size(c, suits, ranks, k, low)],
                 bounds="all hands of the deck"),
            dict(name="shares, " + name, fn=shares, params=kw, covers=("shares",),
                 bounds="the configuration")]


def cases(tier):
    out = pair(4, 13, 5)
    small = dict(suits=4, ranks=6, k=5)
    for kind in ("swap", "rotate"):
        out.append(dict(name="custom orders, " + kind, fn=custom, params=dict(small, ranks=6, k=3, kind=kind),
                        covers=("straight flush", "high card"), bounds="all hands, all such orders"))
    out.append(dict(name="an order with any text in one place", fn=incomplete, params=small,
                    covers=("accepted", "rejected"), bounds="any two characters"))
    out.append(dict(name="an order that is too short", fn=shorter, params=small,
                    covers=("rejected",), bounds="each category left out"))
    if tier == "quick":
        for a in ((4, 9, 5), (4, 8, 5), (4, 6, 5), (4, 5, 5), (2, 3, 2), (1, 3, 1), (4, 13, 3, False),
                  (4, 13, 4), (4, 13, 2), (3, 7, 4), (3, 13, 5), (2, 8, 5, False), (1, 7, 3),
                  (3, 4, 5), (4, 4, 5), (4, 2, 5), (2, 5, 5), (3, 3, 3), (4, 3, 3), (1, 5, 5)):
            out += pair(*a)
        return out
    for s in range(4, 0, -1):
        for r in range(13, 0, -1):
            for k in range(5, 0, -1):
                for low in (True, False):
                    if s * r >= k and patterns(s, r, k) and (s, r, k, low) != (4, 13, 5, True):
                        out += pair(s, r, k, low)
    return out
