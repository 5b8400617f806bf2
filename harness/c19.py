import itertools

from harness.common import ACTION_KEY, Game

PROPERTY = "C19"
BOUNDS = "up to three seats and six completions of the board (whole decks: up to 1176 completions, of which up to " \
    "three have arbitrary ranks), asked at every decision and after " \
    "the last; every player's strength on every completion is an arbitrary rank; " + ACTION_KEY
ASSUMPTIONS = ["random.shuffle is replaced by a stand-in that keeps the deck in order",
               "the hand evaluation is replaced by an arbitrary rank per player and board (what "
               "it really is: C15, C16)"]
OUTSIDE = "arbitrary ranks on more completions; rounding of the quotients beyond that of one division"


class Boards(object):
    """an arbitrary rank for every player and set of board cards"""

    def __init__(self, ctx, dealer, free=None):
        self.ctx, self.dealer, self.worst = ctx, dealer, dealer.evaluator.table.max_rank
        # boards of other cards than these (places in the deck) have fixed ranks
        self.free = free
        self.place = dict((str(c), i) for i, c in enumerate(dealer.deck.full_deck))

    def rank(self, player, board):
        names = sorted(str(c) for c in board)
        if self.free is not None:
            at = [self.place[x] for x in names]
            if not all([i in self.free for i in at]):
                return min((sum(at) * (player + 3) + 5 * player + at[-1]) % 7, self.worst)
        name = "".join(names)
        return self.ctx.int("rank%d_%s" % (player, name), 0, self.worst)

    def __call__(self, hole_cards, community_cards):
        for p, h in enumerate(self.dealer.hole_cards):
            if len(h) == len(hole_cards) and all([a is b for a, b in zip(h, hole_cards)]):
                return self.rank(p, list(community_cards))
        raise AssertionError("evaluated cards that belong to no player")


def snapshot(d):
    return [list(d.stacks), list(d.street_commits), d.pot, list(d.active),
            d.action, d.button, len(d.deck)] + \
        [str(c) for h in d.hole_cards for c in h] + [str(c) for c in d.community_cards] + \
        [str(c) for c in d.deck.cards]


def same(ctx, a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if isinstance(x, list):
            if len(x) != len(y):
                return False
            conds += [p == q for p, q in zip(x, y)]
        else:
            conds.append(x == y)
    return ctx.all(conds)


def shares(ctx, g, stub):
    d = g.dealer
    n = g.n
    before = snapshot(d)
    got = list(d.win_probabilities())
    ctx.check(same(ctx, before, snapshot(d)), "asking does not change the hand")
    out = [str(c) for h in g.obs_holes for c in h] + [str(c) for c in g.obs["community_cards"]]
    left = [c for c in d.deck.full_deck if str(c) not in out]
    need = sum(g.community) - len(g.obs["community_cards"])
    won = [0] * n
    for extra in itertools.combinations(left, need):
        board = list(g.obs["community_cards"]) + list(extra)
        rk = [stub.rank(p, board) if g.in_hand[p] else None for p in range(n)]
        for p in range(n):
            if g.in_hand[p]:
                best = ctx.all([rk[p] <= r for r in rk if r is not None])
                won[p] = won[p] + (1 if best else 0)
    total = 0
    for w in won:
        total = total + w
    ctx.check(len(got) == n, "one probability per player")
    for p in range(n):
        ctx.check(0 <= got[p] <= 1, "probabilities are between 0 and 1")
        if not g.in_hand[p]:
            ctx.check(got[p] == 0, "folded players win nothing")
            continue
        ctx.check(ctx.all([exact(ctx, got[p], won[p], total)]), "the exact share of all completions")
    ctx.check(abs(sum(got) - 1) < 1e-9, "the shares add up to 1")
    ctx.log("shares", ["%.12f" % x for x in got])


def exact(ctx, share, won, total):
    """share == won / total; won and total are settled on the path by now"""
    w = concrete(won)
    t = concrete(total)
    return share == w / t


def concrete(v):
    return v.__index__()


def ask(ctx, n, streets, acts, when, deck, tail=0, community=None, blinds=(1, 2), stacks=None, button=0, free=None):
    st = stacks or [50 + 10 * i for i in range(n)]
    g = Game(ctx, n, streets, blinds=list(blinds) + [0] * (n - 2), stacks=st, button=button,
             strengths=False,
             cfg=dict(num_suits=deck[0], num_ranks=deck[1],
                      num_community_cards=community or [0] + [1] * (streets - 1)))
    d = g.dealer
    stub = Boards(ctx, d, free)
    d.evaluator.evaluate = stub
    g.reset()
    g.obs_holes = [list(h) for h in d.hole_cards]
    if 0 in when:
        shares(ctx, g, stub)
    for i, letter in enumerate(acts + "C" * tail):
        g.act(letter)
        if g.over:
            ctx.cover("hand over")
        if i + 1 in when or (g.over and "end" in when):
            if sum(g.in_hand) < n:
                ctx.cover("somebody folded")
            shares(ctx, g, stub)
        if g.over:
            break


def case(name, covers=(), **kw):
    return dict(name=name, fn=ask, params=kw, covers=covers, bounds=str(kw))


def cases(tier):
    out = [
        case("two seats, before the board", n=2, streets=3, acts="", when=(0,), deck=(1, 6)),
        case("two seats, on the way", n=2, streets=3, acts="CCCC", when=(2, 4), deck=(1, 5)),
        case("three seats, any folds", n=3, streets=2, acts="ppp", when=(1, 2, 3), deck=(1, 6),
             covers=("somebody folded",)),
        case("three seats, before the board", n=3, streets=2, acts="", when=(0,), deck=(1, 6)),
        case("at the end", n=2, streets=2, acts="xx", tail=4, when=("end",), deck=(1, 4),
             covers=("hand over", "somebody folded")),
        case("all in", n=2, streets=3, acts="R", tail=4, when=(1, "end"), deck=(1, 5),
             stacks=[7, 9], covers=("hand over",)),
        case("three seats, two board cards at once", n=3, streets=2, acts="p", when=(1,), deck=(1, 6),
             community=[0, 2]),
        case("a whole deck, one card to come", n=2, streets=2, acts="", when=(0,), deck=(4, 13),
             free=(2, 26, 51)),
        case("a whole deck, turn and river", n=3, streets=3, acts="pCC", when=(1, 3), deck=(4, 13),
             free=(3, 51), button=1),
        case("a whole deck, on the turn", n=2, streets=4, acts="CCCC", when=(4,), deck=(4, 13),
             community=[0, 3, 1, 1], free=(2, 3, 4, 5, 50, 51)),
    ]
    if tier == "thorough":
        out += [
            case("two seats, two suits", n=2, streets=3, acts="pp", when=(0, 2), deck=(2, 3)),
            case("two seats, ten completions", n=2, streets=3, acts="", when=(0,), deck=(1, 7)),
            case("three seats, two to come", n=3, streets=3, acts="pp", when=(2,), deck=(1, 6)),
            case("four seats, any folds", n=4, streets=2, acts="pppp", when=(2, 4), deck=(1, 7)),
            case("three seats, at the end", n=3, streets=2, acts="xxx", tail=6, when=("end",),
                 deck=(1, 5), covers=("hand over", "somebody folded")),
        ]
    return out
