"""Arbitrary hands of a deck, and what poker says about them (written from the
rules, independent of the library)."""
import sys
from math import factorial

from harness.common import Card, Evaluator

RANKS, SUITS = "23456789TJQKA", "SHDC"

CATEGORIES = ["straight flush", "four of a kind", "full house", "flush", "straight",
              "three of a kind", "two pair", "pair", "high card"]
SHORT = dict(sf="straight flush", fk="four of a kind", fh="full house", fl="flush", st="straight",
             tk="three of a kind", tp="two pair", pa="pair", hc="high card")


class Opaque(object):
    """a part of an unknown card that is not encoded"""

    def __getattr__(self, name):
        raise NotImplementedError("text of an unknown card")

    def __str__(self):
        raise NotImplementedError("text of an unknown card")

    __eq__ = __hash__ = __len__ = __iter__ = __format__ = __str__


_CARDS = {}


def real_card(x, s):
    """x counts ranks from the ace down"""
    if (x, s) not in _CARDS:
        _CARDS[x, s] = Card(RANKS[12 - x] + SUITS[s])
    return _CARDS[x, s]


def card(ctx, x, s, ranks, suits):
    """the card of rank x and suit s, either of which may be unknown"""
    if not ctx.symbolic or (isinstance(x, int) and isinstance(s, int) and not is_symbolic(x, s)):
        return Card(RANKS[12 - x] + SUITS[s])
    c = Card.__new__(Card)
    for attr, v in vars(real_card(0, 0)).items():
        if isinstance(v, int):
            rows = []
            for i in range(ranks):
                row = [getattr(real_card(i, j), attr) for j in range(suits)]
                rows.append(row[s])
            setattr(c, attr, rows[x])
        else:
            setattr(c, attr, Opaque())
    return c


def is_symbolic(*vs):
    return any([type(v).__name__.startswith("Sym") for v in vs])


def choose(n, k):
    if k < 0 or n < 0 or k > n:
        return 0
    return factorial(n) // factorial(k) // factorial(n - k)


PATTERNS = {
    1: [(1,)],
    2: [(1, 1), (2,)],
    3: [(1, 1, 1), (2, 1), (3,)],
    4: [(1, 1, 1, 1), (2, 1, 1), (2, 2), (3, 1), (4,)],
    5: [(1, 1, 1, 1, 1), (2, 1, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2), (4, 1)],
}


def patterns(suits, ranks, k):
    return [p for p in PATTERNS[k] if p[0] <= suits and len(p) <= ranks]


def group_category(pattern):
    return {(1,): "high card", (2,): "pair", (3,): "three of a kind", (4,): "four of a kind",
            (2, 2): "two pair", (3, 2): "full house"}[
                tuple(m for m in pattern if m > 1) or (1,)]


class Hand(object):
    """k cards with the given pattern of equal ranks; x: ranks of the groups, best
    first among groups of the same size"""

    def __init__(self, ctx, suits, ranks, pattern, name="", order=None):
        self.suits, self.ranks, self.pattern = suits, ranks, pattern
        self.x = [ctx.bits("%srank%d" % (name, i), 0, ranks - 1) for i in range(len(pattern))]
        conds = []
        for i in range(len(pattern)):
            for j in range(i):
                if pattern[i] == pattern[j]:
                    conds.append(self.x[j] < self.x[i])
                else:
                    conds.append(self.x[i] != self.x[j])
        ctx.assume(ctx.all(conds))
        conds = []
        self.s = []
        places = []
        for i, m in enumerate(pattern):
            mine = []
            for j in range(m):
                s = ctx.bits("%ssuit%d_%d" % (name, i, j), 0, suits - 1) if suits > 1 else 0
                if mine:
                    conds.append(mine[-1] < s)
                mine.append(s)
                places.append((self.x[i], s))
            self.s += mine
        ctx.assume(ctx.all(conds))
        if order:
            places = [places[i] for i in order]
        self.cards = [card(ctx, x, s, ranks, suits) for x, s in places]
        self.k = len(places)

    def flush(self, ctx):
        """all of one suit, where that counts"""
        if self.k < 3 or self.suits < 2 or len(self.pattern) < self.k:
            return False
        return ctx.all([s == self.s[0] for s in self.s])

    def run_possible(self):
        return self.k >= 3 and len(self.pattern) == self.k

    def run(self):
        return self.x[self.k - 1] - self.x[0] == self.k - 1

    def wheel(self, ctx, low):
        """the ace counts below the lowest rank"""
        if not low or self.ranks <= self.k:
            return False
        return ctx.all([self.x[0] == 0] +
                       [self.x[i] == self.ranks - self.k + i for i in range(1, self.k)])


def comb_index(x, n, k):
    """place of the ascending x among the k-subsets of 0..n-1 in dictionary order"""
    r = choose(n, k) - 1
    for i in range(k):
        tab = [choose(n - 1 - v, k - i) for v in range(n)]
        r = r - tab[x[i]]
    return r


def straights(ranks, k, low):
    if k < 3:
        return 0
    n = max(0, ranks - k + 1)
    return n + 1 if low and ranks > k else n


def size(cat, suits, ranks, k, low):
    """number of different values of the category"""
    st = straights(ranks, k, low)
    fl = k >= 3 and suits > 1
    n = {"straight flush": st if fl else 0,
         "flush": choose(ranks, k) - st if fl else 0,
         "straight": st,
         "high card": choose(ranks, k) - st,
         "pair": ranks * choose(ranks - 1, k - 2) if suits > 1 and k > 1 else 0,
         "three of a kind": ranks * choose(ranks - 1, k - 3) if suits > 2 and k > 2 else 0,
         "two pair": choose(ranks, 2) * choose(ranks - 2, k - 4) if suits > 1 and k > 3 else 0,
         "full house": ranks * (ranks - 1) if suits > 2 and k == 5 else 0,
         "four of a kind": ranks * choose(ranks - 1, k - 4) if suits > 3 and k > 3 else 0}
    return n[cat]


def frequency(cat, suits, ranks, k, low):
    """number of hands of the category"""
    st = straights(ranks, k, low)
    fl = k >= 3 and suits > 1
    per = suits ** k - (suits if fl else 0)
    v = size(cat, suits, ranks, k, low)
    return {"straight flush": v * suits, "flush": v * suits, "straight": v * per,
            "high card": v * per,
            "pair": v * choose(suits, 2) * suits ** max(0, k - 2),
            "three of a kind": v * choose(suits, 3) * suits ** max(0, k - 3),
            "two pair": v * choose(suits, 2) ** 2 * suits ** max(0, k - 4),
            "full house": v * choose(suits, 3) * choose(suits, 2),
            "four of a kind": v * choose(suits, 4) * suits ** max(0, k - 4)}[cat]


def worse_before(x, n, k, low):
    """straights that come before the (non-straight) ascending x in dictionary order"""
    if k < 3 or n < k:
        return 0
    tab = [min(v + 1, n - k + 1) for v in range(n)]
    r = tab[x[0]]
    if low and n > k:
        r = r + [0 if v == 0 else 1 for v in range(n)][x[0]]
    return r


def skip(x, out):
    """x among the ranks that are left when those in out are taken"""
    r = x
    for o in out:
        r = r - (o < x)
    return r


def place(hand, run, wheel, low):
    """how many values of its category are better than the hand"""
    x, n, k, p = hand.x, hand.ranks, hand.k, hand.pattern
    if run:
        return x[0]
    if wheel:
        return n - k + 1
    m = len([g for g in p if g > 1])
    if m == 0:
        return comb_index(x, n, k) - worse_before(x, n, k, low)
    if p == (3, 2):
        return x[0] * (n - 1) + skip(x[1], [x[0]])
    main = x[0] if m == 1 else comb_index(x[:2], n, 2)
    rest = [skip(v, x[:m]) for v in x[m:]]
    kickers = len(rest)
    return main * choose(n - m, kickers) + comb_index(rest, n - m, kickers)


def best_hand(cat, suits, ranks, k, low):
    """the best hand of a category, None if there is none"""
    if not size(cat, suits, ranks, k, low):
        return None
    run = list(range(k))
    if cat in ("straight flush", "straight"):
        xs = run
    elif cat in ("flush", "high card"):
        for xs in combos(ranks, k):
            if not run_of(xs, ranks, k, low):
                break
    else:
        g = {"pair": [2], "three of a kind": [3], "two pair": [2, 2], "full house": [3, 2],
             "four of a kind": [4]}[cat]
        xs = []
        for i, m in enumerate(g):
            xs += [i] * m
        xs += list(range(len(g), len(g) + k - len(xs)))
    used, cards = {}, []
    for i, x in enumerate(xs):
        s = used.get(x, 0)
        used[x] = s + 1
        cards.append([x, s])
    if cat not in ("straight flush", "flush") and suits > 1 and k >= 3 and len(set(xs)) == k:
        cards[-1][1] = 1
    return [real_card(x, s) for x, s in cards]


def combos(n, k):
    import itertools
    return itertools.combinations(range(n), k)


def run_of(xs, ranks, k, low):
    if k < 3:
        return False
    if xs[-1] - xs[0] == k - 1:
        return True
    return low and ranks > k and xs[0] == 0 and list(xs[1:]) == list(range(ranks - k + 1, ranks))


_EVALS = {}


def evaluator(suits, ranks, k, low=True, order=None, mandatory=0):
    key = (suits, ranks, k, low, tuple(order or ()), mandatory)
    if key not in _EVALS:
        if len(_EVALS) > 40:
            _EVALS.clear()
        _EVALS[key] = Evaluator(suits, ranks, k, mandatory, low_end_straight=low, order=order)
        if "sx.state" in sys.modules:
            sys.modules["sx.state"].adopt(_EVALS[key])
    return _EVALS[key]


def offsets(ev, suits, ranks, k, low):
    """rank of the best hand of every category"""
    out = {}
    for c in CATEGORIES:
        h = best_hand(c, suits, ranks, k, low)
        if h is not None:
            out[c] = ev.evaluate(h, [])
    return out
