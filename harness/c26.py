from clubs import configs

from harness.c13 import SHUFFLE, Ids, Shuffler, once, pick, with_shuffler
from harness.c15 import ODD_ORDER, SHORT_DECK, ranking
from harness.c24 import compare
from harness.common import ACTION_KEY, INF, Deck, Dealer, Evaluator, StrengthStub, base_config, copy_obs
from harness.hands import _EVALS, CATEGORIES, best_hand, choose, frequency, size

PROPERTY = "C26"
BOUNDS = "two tables made from one configuration and played by turns with arbitrary bets, against the same " \
    "table alone; evaluators of two kinds made one after the other; decks side by side; " + ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order (decks: an arbitrary permutation)",
    "hand strengths are arbitrary integers per table and player"]
OUTSIDE = "threads; the web server process of the browser view"


def fresh_config(kind, n, streets, stack):
    if kind == "ready":
        return dict((k, list(v) if isinstance(v, list) else v)
                    for k, v in configs.NO_LIMIT_HOLDEM_TWO_PLAYER.items())
    if kind == "limit":
        return base_config(n, streets, blinds=[1, 2] + [0] * (n - 2), antes=[0] * (n - 1) + [1],
                           raise_sizes=[2, 4][:streets], num_raises=[1, 2][:streets],
                           start_stack=stack, order=list(ODD_ORDER))
    return base_config(n, streets, blinds=[1, 2] + [0] * (n - 2), antes=0, raise_sizes=["inf"] * streets,
                       num_raises=[INF] * streets, start_stack=stack)


def same_config(ctx, a, b):
    for k in b:
        x, y = a[k], b[k]
        if isinstance(y, list):
            ctx.check(isinstance(x, list) and len(x) == len(y), "the configuration is left as it was")
            for u, v in zip(x, y):
                ctx.check(u == v, "the configuration is left as it was")
        else:
            ctx.check(x == y, "the configuration is left as it was")


def seat_at(ctx, config, st):
    d = Dealer(**config)
    d.evaluator.evaluate = StrengthStub(st)
    return d


def deal(d):
    o = d.reset()
    d.evaluator.evaluate.hole = d.hole_cards
    return copy_obs(o)


def tables(ctx, kind, n=2, streets=1, bets=2, other=2, tail=4):
    stack = ctx.int("stack", 3) if kind != "ready" else 200
    st = [ctx.int("rank%d" % i, 0, 12) for i in range(n)]
    st2 = list(range(n))
    b = [ctx.int("bet%d" % i) for i in range(bets)]
    alone = seat_at(ctx, fresh_config(kind, n, streets, stack), st)
    log = [(deal(alone), None, None)]
    for k in range(bets + tail):
        if log[-1][0]["action"] == -1:
            ctx.cover("hand over")
            break
        o, p, dn = alone.step(b[k] if k < bets else log[-1][0]["call"])
        log.append((copy_obs(o), list(p), list(dn)))
        ctx.flush()
    config = configs.NO_LIMIT_HOLDEM_TWO_PLAYER if kind == "ready" else fresh_config(kind, n, streets, stack)
    x = seat_at(ctx, config, st)
    y = seat_at(ctx, config, st2)
    yo = deal(y)
    same = "another table has no influence"
    compare(ctx, deal(x), log[0][0], n, same)
    for k in range(1, len(log)):
        if yo["action"] != -1:
            bet = ctx.int("other%d" % k) if k <= other else yo["call"]
            yo, yp, yd = y.step(bet)
        elif k % 2:
            yo = deal(y) if bool(min_of(y.stacks) > 0) else y.reset(reset_stacks=True)
        o, p, dn = x.step(b[k - 1] if k <= bets else log[k - 1][0]["call"])
        compare(ctx, copy_obs(o), log[k][0], n, same)
        for i in range(n):
            ctx.check(p[i] == log[k][1][i], same + " on payouts")
            ctx.check(bool(dn[i]) == bool(log[k][2][i]), same + " on who is done")
        ctx.flush()
    same_config(ctx, config, fresh_config(kind, n, streets, stack))
    ctx.log("stacks", x.stacks)


def min_of(xs):
    m = xs[0]
    for v in xs[1:]:
        m = v if v < m else m
    return m


def decks(ctx, suits, ranks, top):
    SHUFFLE.order = Shuffler(ctx, suits, ranks)
    n = suits * ranks
    ids = Ids(suits, ranks)
    a, b = Deck(suits, ranks), Deck(suits, ranks)
    before = [ids.of(c) for c in b.cards]
    taken, cards = [], []
    for k in range(top):
        i, c = pick(ctx, "top%d" % k, suits, ranks, taken)
        taken.append(i)
        cards.append(c)
    a.trick(cards)
    a.shuffle()
    a.draw(2)
    ctx.check([ids.of(c) for c in b.cards] == before, "another deck is left as it was")
    c = Deck(suits, ranks)
    ctx.check(SHUFFLE.order.last == n, "a new deck is not tricked")
    once(ctx, [ids.of(v) for v in c.cards], n, "a new deck is complete")
    b.shuffle()
    ctx.check(SHUFFLE.order.last == n, "another deck is not tricked")
    once(ctx, [ids.of(v) for v in b.cards], n, "another deck is complete")
    a.shuffle()
    order = [ids.of(v) for v in a.cards]
    ctx.check(order[:top] == taken, "a tricked deck stays tricked")
    ctx.check([v for v in cards] == cards and len(cards) == top, "the list of cards is left as it was")
    ctx.cover("decks")


def evaluators(ctx, first, second, n=1):
    """evaluators of two kinds made after one another both rank by the rules"""
    made = {}
    kinds = (first, second)
    for i, (s, r, k, low, order) in enumerate(kinds):
        ev = made[i] = Evaluator(s, r, k, 0, low_end_straight=low, order=order)
        for c in CATEGORIES:                      # use it
            h = best_hand(c, s, r, k, low)
            if h is not None:
                ev.evaluate(h, [])
                ev.get_rank_class(0)
    i = ctx.choice("which", [0, 1])
    s, r, k, low, order = kinds[i]
    # the order of categories, where it is given
    if order:
        names = dict(sf="straight flush", fk="four of a kind", fh="full house", fl="flush",
                     st="straight", tk="three of a kind", tp="two pair", pa="pair", hc="high card")
        last = -1
        for o in order:
            h = best_hand(names[o], s, r, k, low)
            if h is not None and size(names[o], s, r, k, low):
                v = made[i].evaluate(h, [])
                ctx.check(v > last, "every evaluator has its own order")
                last = v
    if s != 3:          # C18's known finding: three of a kind is miscounted there
        order_kept(ctx, s, r, k, low, order, made[i])
    key = (s, r, k, low, tuple(order or ()), 0)
    old = _EVALS.get(key)
    _EVALS[key] = made[i]
    try:
        ranking(ctx, s, r, k, low, order, n)
    finally:
        if old is None:
            del _EVALS[key]
        else:
            _EVALS[key] = old


def order_kept(ctx, s, r, k, low, order, ev):
    """the best hands of the categories rank as their rarity or the order says, and are called by their names"""
    worth = {}
    for c in CATEGORIES:
        h = best_hand(c, s, r, k, low)
        if h is not None and size(c, s, r, k, low):
            worth[c] = ev.evaluate(h, [])
            ctx.check(ev.get_rank_class(worth[c]) == c, "every evaluator has its own categories")
    if not order:
        freq = {c: frequency(c, s, r, k, low) for c in worth}
        total = choose(s * r, k)
        for c in worth:
            ctx.check("%s (%s)" % (c, "{:.4%}".format(freq[c] / total)) in str(ev),
                      "every evaluator shows its own shares")
            for o in worth:
                if freq[c] < freq[o]:
                    ctx.check(worth[c] < worth[o], "every evaluator has its own order")


def cases(tier):
    H = ("hand over",)
    cs = [
        dict(name="no limit", fn=tables, params=dict(kind="nolimit", n=2, streets=1, bets=2), covers=H,
             bounds="2 seats, 1 street, 2 arbitrary bets at each table, any starting stack"),
        dict(name="limit", fn=tables, params=dict(kind="limit", n=3, streets=2, bets=2, other=1, tail=8),
             covers=H, bounds="3 seats, 2 streets, fixed limit, any starting stack"),
        dict(name="ready-made", fn=tables, params=dict(kind="ready", n=2, streets=4, bets=2, tail=8),
             covers=H, bounds="NO_LIMIT_HOLDEM_TWO_PLAYER, 2 arbitrary bets at each table"),
        dict(name="decks of 6", fn=with_shuffler(decks), params=dict(suits=2, ranks=3, top=2),
             covers=("decks",), bounds="2x3 decks, two tricked cards, every shuffle"),
        dict(name="decks of 52", fn=with_shuffler(decks), params=dict(suits=4, ranks=13, top=1),
             covers=("decks",), bounds="52 cards, one tricked card, every shuffle"),
    ]
    P = [((4, 9, 5, True, None), (4, 9, 5, True, SHORT_DECK)),
         ((4, 9, 5, True, ODD_ORDER), (4, 9, 5, True, None)),
         ((4, 6, 5, True, None), (4, 6, 5, False, None)),
         ((4, 7, 4, False, None), (4, 7, 4, True, None)),
         ((3, 7, 4, True, None), (4, 7, 4, True, None)),
         ((2, 6, 3, True, None), (2, 7, 3, True, None)),
         ((2, 6, 4, True, None), (2, 6, 5, True, None)),
         ((4, 13, 5, True, None), (4, 13, 3, True, None))]
    if tier == "thorough":
        P += [(b, a) for a, b in P]
        cs += [dict(name="no limit longer", fn=tables,
                    params=dict(kind="nolimit", n=2, streets=2, bets=3, other=2, tail=5), covers=H,
                    bounds="2 seats, 2 streets, 3 arbitrary bets"),
               dict(name="no limit three seats", fn=tables,
                    params=dict(kind="nolimit", n=3, streets=1, bets=2, other=1, tail=5), covers=H,
                    bounds="3 seats, 2 arbitrary bets")]
    for a, b in P:
        cs.append(dict(name="evaluators %s %s" % tuple(
            "%dx%d/%d%s%s" % (s, r, k, "" if low else " no low", " order" if o else "")
            for s, r, k, low, o in (a, b)), fn=evaluators, params=dict(first=a, second=b), covers=(),
            bounds="every hand of either deck"))
    return cs
