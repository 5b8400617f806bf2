from harness.common import (ACTION_KEY, INF, Dealer, Deck, Evaluator, StrengthStub, base_config,
                            copy_obs, error, sym_stacks)
from harness.c24 import compare

PROPERTY = "C23"
BOUNDS = "two tables built from the two ways of writing a configuration play the same bets; " + ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player",
    "starting stacks are set on the dealer before the deal"]
OUTSIDE = "decks with fewer cards than a hand needs; fractional bet sizes; tables of more than ten seats"

MAIN = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]


def forms(ctx, field, n=2, streets=2, acts="aa", tail=5, value=None, spell=None, start=False, **cfg):
    """one value against the list of it (or another spelling of the same value)"""
    v = value if value is not None else ctx.int("value", 0)
    k = streets if field in ("raise_sizes", "num_raises", "num_community_cards") else n
    w = spell if spell is not None else v
    as_list = [w] * k
    keep = list(as_list)
    one = base_config(n, streets, **dict(cfg, **{field: v}))
    two = base_config(n, streets, **dict(cfg, **{field: as_list}))
    if start:
        one["start_stack"] = two["start_stack"] = ctx.int("start", 1)
    a, b = Dealer(**one), Dealer(**two)
    if not start:
        st = sym_stacks(ctx, n, 1)
        a.stacks, b.stacks = list(st), list(st)
    rk = [ctx.int("rank%d" % i, 0, a.evaluator.table.max_rank) for i in range(n)]
    a.evaluator.evaluate = StrengthStub(rk)
    b.evaluator.evaluate = StrengthStub(rk)
    oa, ob = copy_obs(a.reset()), copy_obs(b.reset())
    a.evaluator.evaluate.hole = a.hole_cards
    b.evaluator.evaluate.hole = b.hole_cards
    compare(ctx, oa, ob, n, "one value means the list of it")
    for j, letter in enumerate(acts + "C" * tail):
        bet = oa["call"] if letter == "C" else ctx.int("bet%d" % j)
        oa, pa, da = a.step(bet)
        ob, pb, db = b.step(bet)
        compare(ctx, copy_obs(oa), copy_obs(ob), n, "one value means the list of it")
        for i in range(n):
            ctx.check(pa[i] == pb[i], "one value means the list of it: payouts")
            ctx.check(bool(da[i]) == bool(db[i]), "one value means the list of it: done")
        ctx.flush()
        if all(da) and oa["action"] == -1:
            ctx.cover("hand over")
            break
    ctx.check(len(as_list) == k and all([x is y for x, y in zip(as_list, keep)]),
              "the configuration lists are left as they were")
    ctx.log("stacks", oa["stacks"])


FIELDS = ("blinds", "antes", "raise_sizes", "num_raises", "num_community_cards")


def lengths(ctx, n, streets):
    """lists of every length up to two too many, with arbitrary entries"""
    field = ctx.choice("field", list(FIELDS))
    need = n if field in ("blinds", "antes") else streets
    m = ctx.choice("length", list(range(max(n, streets) + 3)))
    vals = [ctx.int("v%d" % i, 0, 3) if field == "num_community_cards" else ctx.int("v%d" % i, 0)
            for i in range(m)]
    refused = False
    try:
        Dealer(**base_config(n, streets, **{field: vals}))
    except error.InvalidConfigError:
        refused = True
    ctx.check(refused == (m != need), "lists of the wrong length are refused, others accepted")
    ctx.cover("refused" if refused else "accepted")


SIZES = [("inf", True), ("pot", True), (INF, True), (None, False), ("half", False), ("", False),
         ("POT", False), (2.5, False), ("5", False), ((1, 2), False), (-INF, False), (b"pot", False)]


def raise_sizes(ctx, streets):
    """known and unknown raise sizes at any street"""
    at = ctx.choice("street", list(range(streets)))
    val, ok = ctx.choice("size", SIZES + [("symbolic", True)])
    if val == "symbolic":
        val = ctx.int("amount", 0)
    kind = ctx.choice("form", ["list", "one"])
    sizes = [ctx.int("other%d" % i, 0) for i in range(streets)]
    sizes[at] = val
    refused = False
    try:
        Dealer(**base_config(2, streets, raise_sizes=sizes if kind == "list" else val))
    except error.InvalidRaiseSizeError:
        refused = True
    ctx.check(refused == (not ok), "exactly the unknown raise sizes are refused")
    ctx.cover("refused" if refused else "accepted")


def decks(ctx):
    """all numbers of suits and ranks"""
    s, r = ctx.int("suits"), ctx.int("ranks")
    bad_r = r < 1 or r > 13
    bad_s = s < 1 or s > 4
    got = None
    try:
        d = Deck(s, r)
    except error.InvalidRankError:
        got = "rank"
        ctx.check(bad_r, "decks of 1-13 ranks are accepted")
    except error.InvalidSuitError:
        got = "suit"
        ctx.check(bad_s, "decks of 1-4 suits are accepted")
    if got is None:
        ctx.check(not bad_r and not bad_s, "impossible decks are refused")
        ctx.check(len(d) == r * s, "the deck has one card per rank and suit")
        ctx.cover("accepted")
    else:
        ctx.cover(got)


def hand_sizes(ctx, via_dealer=False):
    """all numbers of cards per hand"""
    k = ctx.int("cards")
    got = False
    try:
        if via_dealer:
            Dealer(**base_config(2, 1, num_cards_for_hand=k))
        else:
            Evaluator(4, 13, k)
    except error.InvalidHandSizeError:
        got = True
    ctx.check(got == (k < 1 or k > 5), "exactly hands of 1-5 cards are supported")
    ctx.cover("refused" if got else "accepted")


def orders(ctx):
    """custom orders with each category replaced by arbitrary other ones"""
    drop = ctx.choice("drop", list(range(len(MAIN) + 1)))
    rot = ctx.choice("rotate", [0, 4])
    order = MAIN[rot:] + MAIN[:rot]
    if drop < len(MAIN):
        by = ctx.choice("by", [None, "xx", MAIN[0], MAIN[8]])
        name = order.pop(drop)
        if by is not None:
            order.append(by)
        ok = by == name
    else:
        ok = True
    refused = False
    try:
        Evaluator(4, 13, 2, order=order)
    except error.InvalidOrderError:
        refused = True
    ctx.check(refused == (not ok), "exactly orders that leave a category out are refused")
    ctx.cover("refused" if refused else "accepted")


def render_mode(ctx):
    d = Dealer(**base_config(2, 1))
    d.reset()
    mode = ctx.choice("mode", ["ascii", "text", "", "svg", "Human", None])
    refused = False
    try:
        d.render(mode=mode)
    except error.InvalidRenderModeError:
        refused = True
    ctx.check(refused == (mode != "ascii"), "unknown render modes are refused")
    ctx.cover("refused" if refused else "accepted")


def cases(tier):
    RA = ("refused", "accepted")

    def f(name, field, **p):
        return dict(name=name, fn=forms, params=dict(p, field=field), covers=("hand over",),
                    bounds="%s: any value, %s" % (field, p))
    cs = [
        f("blinds", "blinds", acts="a", streets=1),
        f("antes", "antes", acts="aa", streets=1, blinds=[1, 2]),
        f("antes at three seats", "antes", n=3, acts="", tail=3, streets=1, blinds=[0, 1, 2]),
        f("raise sizes", "raise_sizes", acts="aa", blinds=[1, 2]),
        f("raise caps", "num_raises", acts="aaa", streets=2, blinds=[1, 2]),
        f("pot limit", "raise_sizes", acts="aa", value="pot", blinds=[1, 2]),
        f("no limit", "raise_sizes", acts="aa", value=INF, spell="inf", blinds=[1, 2]),
        f("no cap", "num_raises", acts="aa", value=INF, spell="inf", blinds=[1, 2]),
        f("board", "num_community_cards", acts="a", value=2, streets=3, blinds=[1, 2]),
        f("starting stack", "antes", acts="a", streets=1, start=True),
        dict(name="list lengths", fn=lengths, params=dict(n=3, streets=2), covers=RA,
             bounds="every list, 0-5 entries, arbitrary values"),
        dict(name="raise size kinds", fn=raise_sizes, params=dict(streets=2), covers=RA,
             bounds="%d kinds of raise sizes" % (len(SIZES) + 1)),
        dict(name="decks", fn=decks, params={}, covers=("rank", "suit", "accepted"),
             bounds="any integers"),
        dict(name="hand sizes", fn=hand_sizes, params={}, covers=RA, bounds="any integer"),
        dict(name="hand sizes of games", fn=hand_sizes, params=dict(via_dealer=True), covers=RA,
             bounds="any integer"),
        dict(name="orders", fn=orders, params={}, covers=RA, bounds="one category replaced"),
        dict(name="render modes", fn=render_mode, params={}, covers=RA, bounds="6 modes"),
    ]
    if tier == "thorough":
        cs += [
            f("blinds three seats", "blinds", n=3, acts="aa", tail=4, streets=1),
            f("raise sizes longer", "raise_sizes", acts="aaa", blinds=[1, 2]),
            f("raise caps three seats", "num_raises", n=3, acts="aaa", streets=1, blinds=[0, 1, 2]),
            f("pot limit longer", "raise_sizes", acts="aaa", value="pot", blinds=[1, 2]),
            dict(name="list lengths longer", fn=lengths, params=dict(n=4, streets=4), covers=RA,
                 bounds="every list, 0-6 entries, arbitrary values"),
        ]
    return cs
