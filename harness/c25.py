import itertools

from clubs import configs

from harness.c15 import SHORT_DECK
from harness.c16 import deal, some
from harness.c24 import posted
from harness.common import ACTION_KEY, Dealer, INF, play
from harness.hands import RANKS, SUITS, evaluator
from harness.monitors import Cap, Conserve, Ending, FoldWin, SidePots, Sizes, Streets, Turns

PROPERTY = "C25"
BOUNDS = "every ready-made configuration: any bets at the first decisions, then calls to the end, with the " \
    "configured stacks; hands: given and unknown cards; " + ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order",
    "while betting, the hands' strengths are arbitrary integers per player (two seats) or given ones with "
    "ties (more seats)"]
OUTSIDE = "which size of stacks, blinds and antes a game is played for (taken from the names' documentation: 1-2 " \
    "blinds, 2-4 with a big blind ante of 1, antes of 1), the size of the three player Kuhn deck"

HOLDEM = dict(streets=4, board=[0, 3, 1, 1], hole=2, suits=4, ranks=13, k=5, must=0, order=None)
LIMIT = dict(HOLDEM, raises=[2, 2, 4, 4], cap=[3, 4, 4, 4])
NOLIMIT = dict(HOLDEM, raises="inf", cap=INF)
OMAHA = dict(HOLDEM, raises="pot", cap=INF, hole=4, must=2)
SHORT = dict(NOLIMIT, ranks=9, order=SHORT_DECK)
KUHN = dict(streets=1, board=[0], hole=1, suits=1, ranks=3, k=1, must=0, order=None, raises=[1],
            cap=[1], antes=1, blinds=(0, 0), stack=10)
LEDUC = dict(streets=2, board=[0, 1], hole=1, suits=2, ranks=3, k=2, must=0, order=None,
             raises=[2, 2], cap=[2, 2], antes=1, blinds=(0, 0), stack=10)

GAMES = [("KUHN_TWO_PLAYER", dict(KUHN, n=2)), ("KUHN_THREE_PLAYER", dict(KUHN, n=3)),
         ("LEDUC_TWO_PLAYER", dict(LEDUC, n=2))]
for _n, _seats in ((2, "TWO"), (6, "SIX"), (9, "NINE")):
    for _name, _g in (("LIMIT_HOLDEM", LIMIT), ("NO_LIMIT_HOLDEM", NOLIMIT),
                      ("POT_LIMIT_OMAHA", OMAHA), ("SHORT_DECK", SHORT)):
        GAMES.append(("%s_%s_PLAYER" % (_name, _seats),
                      dict(_g, n=_n, blinds=(1, 2), antes=0, stack=200)))
GAMES.append(("NO_LIMIT_HOLDEM_BB_ANTE_NINE_PLAYER",
              dict(NOLIMIT, n=9, blinds=(2, 4), antes=[0, 1] + [0] * 7, stack=200)))

MONITORS = (Conserve, Sizes, Cap, Turns, Streets, Ending, FoldWin, SidePots)


def named(name):
    return dict(getattr(configs, name))


def game(ctx, name, acts, tail, **r):
    n = r["n"]
    config = named(name)
    strengths = True if n == 2 else [[40, 7, 90, 7, 55, 7, 3, 60, 3][i] for i in range(n)]
    if r["ranks"] == 3 and n > 2:
        strengths = [1, 0, 2]
    g = play(ctx, MONITORS, n=n, streets=r["streets"], acts=acts, tail=tail, raises=r["raises"],
             cap=r["cap"], blinds=r["blinds"], antes=r["antes"], stacks=[r["stack"]] * n, button=1,
             strengths=strengths, cfg=dict(num_community_cards=r["board"]), config=config)
    posted(ctx, g, g.raw_reset, g.start, g.blinds, g.antes, 1)
    d = g.dealer
    ctx.check(len(d.hole_cards) == n, "as many players as the name says")
    for h in d.hole_cards:
        ctx.check(len(h) == r["hole"], "every player gets the game's hole cards")
    seen = sorted(str(c) for h in d.hole_cards for c in h) + \
        [str(c) for c in d.community_cards] + [str(c) for c in d.deck.cards]
    want = [q + chr([9824, 9829, 9830, 9827][s]) for q in RANKS[13 - r["ranks"]:]
            for s in range(r["suits"])]
    ctx.check(sorted(seen) == sorted(want), "the game is played with its deck")
    fresh = Dealer(**config)
    ctx.check(fresh.reset()["button"] == 1 and total_of(fresh) == n * r["stack"],
              "everybody starts with the game's stack")


def total_of(d):
    t = d.pot
    for s in d.stacks:
        t = t + s
    return t


def showdown(ctx, name, fixed=((), ()), **r):
    """a hand is the best one the game allows"""
    ev = Dealer(**named(name)).evaluator
    k, must = r["k"], r["must"]
    base = evaluator(r["suits"], r["ranks"], k, True, r["order"])
    hole, board = r["hole"], sum(r["board"])
    h, b = deal(ctx, r["suits"], r["ranks"], hole, board, fixed)
    if must:
        combs = [list(p) + list(q) for p in itertools.combinations(h, must)
                 for q in itertools.combinations(b, k - must)]
    else:
        combs = [list(c) for c in itertools.combinations(h + b, k)]
    scores = [base.table.lookup(c) for c in combs]
    got = ev.evaluate(h, b)
    for s in scores:
        ctx.check(ctx.solved(lambda: got <= s), "no allowed hand is better")
    ctx.check(ctx.solved(lambda: some([got == s for s in scores])), "the hand is an allowed one")
    ctx.cover("hand")


# rank from the ace down, suit
BOARDS = [((0, 1), (0, 2), (3, 1), (6, 1), (8, 2)), ((4, 0), (5, 0), (6, 0), (7, 1), (8, 2)),
          ((2, 0), (2, 1), (2, 3), (5, 0), (8, 0)), ((0, 0), (8, 1), (7, 0), (6, 2), (4, 0))]
MINE = [((0, 0), (4, 1)), ((3, 0), (3, 3)), ((5, 1), (5, 2)), ((5, 3), (0, 2))]


def cases(tier):
    out = []
    for name, r in GAMES:
        n = r["n"]
        acts = {2: "aaa", 3: "aaa", 6: "aa", 9: "aa"}[n]
        if tier == "thorough":
            acts += "a" if n > 2 else "aa"
        # every street raised up to the cap, then any bet; or any bets on the last street only
        if r["cap"] == INF:
            late = "C" * n * (r["streets"] - 1) + "aa"
        else:
            late = ("C" * (n - 1)).join("R" * c for c in r["cap"]) + "a"
        for what, acts in (("", acts), (" late", late)):
            p = dict(r, name=name, acts=acts, tail=n * (r["streets"] + 1))
            out.append(dict(name=name + what, fn=game, params=p, covers=("hand over",),
                            bounds="%s: bets %s, then calls" % (name, acts)))
        if n == 2 or tier == "thorough":
            small = r["ranks"] == 3
            boards = range(1) if small else range(4) if tier == "thorough" else range(2)
            for i in boards:
                fixed = ((), ()) if small else (MINE[i] if r["hole"] == 4 else (), BOARDS[i])
                out.append(dict(name="%s hand %d" % (name, i), fn=showdown,
                                params=dict(r, name=name, fixed=fixed), covers=("hand",),
                                bounds="hole cards %s.., board %s, others unknown" % fixed))
    return out
