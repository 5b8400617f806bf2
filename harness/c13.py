from harness.common import SHUFFLE, Card, Dealer, Deck, StrengthStub, base_config, count

PROPERTY = "C13"
BOUNDS = "every shuffle outcome (an arbitrary permutation per shuffle) of the listed decks; " \
    "arbitrary tricked cards and draw sizes"
ASSUMPTIONS = [
    "random.shuffle puts its list into some order: it is replaced by a stand-in that applies an "
    "arbitrary permutation"]
OUTSIDE = "tricking a card twice; the quality of the randomness"


RANKS, SUITS = "23456789TJQKA", "SHDC"


def number(card, suits, ranks):
    """place of a card in the sorted deck"""
    if isinstance(card, Slot):
        return card.number
    text = str(card)
    return (RANKS.index(text[0]) - (13 - ranks)) * suits + \
        [9824, 9829, 9830, 9827].index(ord(text[1]))


class Slot(object):
    """the unknown card at one place of a shuffled list"""

    def __init__(self, number, suits, ranks):
        self.number = number
        self.deck = [Card(r + s) for r in RANKS[13 - ranks:] for s in SUITS[:suits]]

    @property
    def _int(self):
        return [int(c) for c in self.deck][self.number]

    def __int__(self):
        return self._int

    def __eq__(self, other):
        return self._int == int(other)

    def __str__(self):
        return "card"


class Shuffler(object):
    """an arbitrary permutation for every shuffle"""

    def __init__(self, ctx, suits, ranks):
        self.ctx = ctx
        self.suits, self.ranks = suits, ranks
        self.calls = 0
        self.last = None

    def __call__(self, x):
        ctx, n, size = self.ctx, len(x), self.suits * self.ranks
        have = [number(c, self.suits, self.ranks) for c in x]
        new = [ctx.int("shuffle%d_%d" % (self.calls, i), 0, size - 1,
                       like=have[i] if isinstance(have[i], int) else 0) for i in range(n)]
        conds = [new[i] != new[j] for i in range(n) for j in range(i)]
        if n < size:
            if all([isinstance(h, int) for h in have]):
                conds += [p != k for k in range(size) if k not in have for p in new]
            else:
                conds += [count([p == h for h in have]) == 1 for p in new]
        ctx.assume(ctx.all(conds))
        self.calls += 1
        self.last = n
        if ctx.symbolic:
            x[:] = [Slot(p, self.suits, self.ranks) for p in new]
        else:
            cards = list(x)
            x[:] = [cards[have.index(p)] for p in new]


class Ids(object):
    def __init__(self, suits, ranks):
        self.suits, self.ranks = suits, ranks

    def of(self, card):
        return number(card, self.suits, self.ranks)


def once(ctx, cards, size, label):
    """cards is the whole deck in some order"""
    ctx.check(len(cards) == size, label)
    ctx.check(ctx.all([a >= 0 for a in cards] + [a < size for a in cards] +
                      [a != cards[j] for i, a in enumerate(cards) for j in range(i)]), label)


def with_shuffler(fn):
    def run(ctx, **kw):
        SHUFFLE.order = None
        try:
            fn(ctx, **kw)
        finally:
            SHUFFLE.order = None
    return run


def draws(ctx, suits, ranks, counts, again=True):
    SHUFFLE.order = Shuffler(ctx, suits, ranks)
    d = Deck(suits, ranks)
    n = suits * ranks
    ids = Ids(suits, ranks)
    for rnd in range(2 if again else 1):
        order = [ids.of(c) for c in d.cards]
        once(ctx, order, n, "a shuffled deck has every card once")
        got = []
        for k in range(counts):
            m = ctx.int("draw%d_%d" % (rnd, k), -1, n + 2) if rnd == 0 else 1 + k
            have = len(d)
            cards = d.draw(m)
            want = 0 if m < 0 else (have if m > have else m)
            ctx.check(len(cards) == want, "a draw hands out as many cards as asked for or left")
            ctx.check(len(d) == have - want, "drawn cards leave the deck")
            got += [ids.of(c) for c in cards]
            if m > have:
                ctx.cover("deck ran out")
        rest = [ids.of(c) for c in d.cards]
        ctx.check(got + rest == order, "cards are drawn from the top in order")
        once(ctx, got + rest, n, "drawn and left cards are the whole deck")
        ctx.flush()
        d.shuffle()
    ctx.cover("drawn")


def pick(ctx, name, suits, ranks, taken):
    """an arbitrary card of the deck that is not taken, as a new card object"""
    s = ctx.choice(name + "_suit", list(range(suits)))
    r = ctx.choice(name + "_rank", list(range(ranks)))
    k = r * suits + s
    ctx.assume(k not in taken)
    return k, Card("23456789TJQKA"[13 - ranks + r] + "SHDC"[s])


def trick(ctx, suits, ranks, top, again=0, shuffles=2):
    SHUFFLE.order = Shuffler(ctx, suits, ranks)
    d = Deck(suits, ranks)
    n = suits * ranks
    ids = Ids(suits, ranks)
    for rnd in range(1 + again):
        taken, cards = [], []
        for k in range(top if rnd == 0 else again):
            i, c = pick(ctx, "top%d_%d" % (rnd, k), suits, ranks, taken)
            taken.append(i)
            cards.append(c)
        d.trick(cards)
        for k in range(shuffles):
            d.shuffle()
            order = [ids.of(c) for c in d.cards]
            ctx.check(order[:len(taken)] == taken, "tricked cards come first in the given order")
            once(ctx, order, n, "a tricked deck has every card once")
            first = [ids.of(c) for c in d.draw(k + 1)]
            ctx.check(first == order[:k + 1], "tricked cards are drawn in order")
            ctx.flush()
        ctx.cover("tricked")
    d.untrick()
    d.shuffle()
    order = [ids.of(c) for c in d.cards]
    once(ctx, order, n, "an untricked deck has every card once")
    ctx.check(SHUFFLE.order.last == n, "an untricked deck is shuffled as a whole")


def deal(ctx, n, hole, board, suits, ranks, tricked=0, hands=1, hand=1, fold=False):
    """hands of a game: nobody shares a card"""
    SHUFFLE.order = Shuffler(ctx, suits, ranks)
    streets = len(board)
    d = Dealer(**base_config(n, streets, num_suits=suits, num_ranks=ranks, num_hole_cards=hole,
                             num_community_cards=list(board), num_cards_for_hand=hand,
                             blinds=[0] + [1] * (n - 1)))
    size = suits * ranks
    ids = Ids(suits, ranks)
    stub = d.evaluator.evaluate = StrengthStub(list(range(n)))
    taken = []
    if tricked:
        cards = []
        for k in range(tricked):
            i, c = pick(ctx, "top%d" % k, suits, ranks, taken)
            taken.append(i)
            cards.append(c)
        d.deck.trick(cards)
    for h in range(hands):
        o = d.reset(reset_stacks=True)
        stub.hole = d.hole_cards
        ctx.check(len(o["community_cards"]) == board[0], "the first street's cards are on the board")
        for k in range(99):
            held = [ids.of(c) for p in d.hole_cards for c in p]
            ctx.check(len(held) == n * hole and len(d.hole_cards) == n,
                      "everybody has the configured number of cards")
            shown = [ids.of(c) for c in o["community_cards"]]
            rest = [ids.of(c) for c in d.deck.cards]
            once(ctx, held + shown + rest, size, "no card is dealt twice or lost")
            if tricked:
                dealt = shown[:board[0]] + held + shown[board[0]:]
                m = min(tricked, len(dealt))
                ctx.check(dealt[:m] == taken[:m], "tricked cards are dealt in order")
            ctx.flush()
            if o["action"] == -1:
                break
            if fold and k == n:
                ctx.cover("folded")
                o, pay, done = d.step(-1)
            else:
                o, pay, done = d.step(o["call"])
        ctx.cover("hand over")


def cases(tier):
    def c(name, fn, covers, **p):
        return dict(name=name, fn=with_shuffler(fn), params=p, covers=covers, bounds=str(p))
    D, T, H = ("drawn", "deck ran out"), ("tricked",), ("hand over",)
    cs = [
        c("draws of 52", draws, D, suits=4, ranks=13, counts=1),
        c("draws of 6", draws, D, suits=2, ranks=3, counts=3),
        c("draws of 1", draws, D, suits=1, ranks=1, counts=2),
        c("trick 52", trick, T, suits=4, ranks=13, top=1),
        c("trick 12", trick, T, suits=3, ranks=4, top=2),
        c("trick again", trick, T, suits=2, ranks=3, top=2, again=1),
        c("trick all", trick, T, suits=2, ranks=2, top=4, again=2),
        c("trick none", trick, T, suits=2, ranks=2, top=0),
        c("hold'em", deal, H, n=3, hole=2, board=(0, 3, 1, 1), suits=4, ranks=13, hands=2),
        c("six seats four cards", deal, H, n=6, hole=4, board=(0, 3, 1, 1), suits=4, ranks=13),
        c("leduc", deal, H, n=2, hole=1, board=(0, 1), suits=2, ranks=3, hands=2, tricked=2),
        c("board first", deal, H, n=2, hole=1, board=(1, 1), suits=2, ranks=3, hands=1, tricked=3),
        c("tricked hold'em", deal, H, n=2, hole=2, board=(0, 3, 1, 1), suits=4, ranks=13, tricked=1,
          hands=2),
        c("whole deck dealt", deal, H, n=2, hole=2, board=(0, 1, 1), suits=2, ranks=3, tricked=2),
    ]
    if tier == "thorough":
        cs += [
            c("draws of 12", draws, D, suits=3, ranks=4, counts=3),
            c("trick 52 longer", trick, T, suits=4, ranks=13, top=2, shuffles=2),
            c("trick 12 longer", trick, T, suits=3, ranks=4, top=3),
            c("trick all of 5", trick, T, suits=1, ranks=5, top=5),
            c("tricked deal", deal, H, n=3, hole=2, board=(1, 2), suits=3, ranks=4, tricked=3, hands=2),
            c("ten seats", deal, H, n=10, hole=4, board=(0, 3, 1, 1), suits=4, ranks=13),
        ]
    return cs
