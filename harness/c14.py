from harness.common import Card, error

PROPERTY = "C14"
BOUNDS = "all texts of two or three arbitrary Unicode characters; masks are arbitrary 32-bit numbers, " \
    "shifts arbitrary up to 40 places"
ASSUMPTIONS = []
OUTSIDE = "shorter and longer texts, and what follows the rank and the suit in a text of three characters; the long s (U+017F), which Unicode counts as a " \
    "lower-case s, and the hundred characters whose upper case is more than one character; " \
    "comparisons with things that are not cards"

RANKS, SUITS = "23456789TJQKA", "SHDC"
PRETTY = [9824, 9829, 9830, 9827]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def letters(c):
    return c if c == c.lower() else c + c.lower()


def spelled(text, names):
    """which of the names the character spells, -1 for none; settles it on the path"""
    for k, c in enumerate(names):
        hit = text == c
        if c != c.lower():
            hit = hit or text == c.lower()
        if hit:
            return k
    return -1


def packed(r, s):
    return (1 << r) << 16 | (1 << s) << 12 | r << 8 | PRIMES[r]


LONG = [chr(c) for c in range(0x110000) if len(chr(c).upper()) > 1]


def arbitrary(ctx, name, length=2):
    t = ctx.text(name, length)
    ctx.assume(t[1] != "\u017f")
    return t


def parse(ctx, length=2):
    t = arbitrary(ctx, "c", length)
    for k in range(length):
        ctx.assume(ctx.all([t[k] != c for c in LONG]))
    got = card = None
    try:
        card = Card(t)
    except error.InvalidRankError:
        got = "rank"
    except error.InvalidSuitError:
        got = "suit"
    r, s = spelled(t[0], RANKS), spelled(t[1], SUITS)
    if r < 0 or s < 0:
        ctx.check(got is not None, "unknown characters are rejected")
        if got == "rank":
            ctx.check(r < 0, "a known rank is not rejected")
            ctx.cover("bad rank")
        elif got == "suit":
            ctx.check(s < 0, "a known suit is not rejected")
            ctx.cover("bad suit")
        return
    ctx.cover("card")
    if length > 2 and got is not None:
        return      # whether longer texts are cards is left open
    ctx.check(got is None, "every rank and suit makes a card")
    if card is None:
        return
    ctx.check(int(card) == packed(r, s), "the number packs rank bit, suit bit, rank and prime")
    ctx.check(str(card) == RANKS[r] + chr(PRETTY[s]), "a card is shown as rank and suit symbol")
    ctx.check(card.rank == RANKS[r] and card.suit == chr(PRETTY[s]), "rank and suit of the card")
    ctx.log("card", [r, s, int(card), str(card)])


def equal(ctx):
    a, b = arbitrary(ctx, "a"), arbitrary(ctx, "b")
    ra, sa = spelled(a[0], RANKS), spelled(a[1], SUITS)
    rb, sb = spelled(b[0], RANKS), spelled(b[1], SUITS)
    ctx.assume(ra >= 0 and sa >= 0 and rb >= 0 and sb >= 0)
    x, y = Card(a), Card(b)
    same = ra == rb and sa == sb
    ctx.check(bool(x == y) == same, "cards are equal exactly when rank and suit are")
    ctx.check(bool(x != y) == (not same), "cards are equal exactly when rank and suit are")
    ctx.check((int(x) == int(y)) == same, "different cards have different numbers")
    ctx.check((str(x) == str(y)) == same, "different cards are shown differently")
    ctx.cover("same" if same else "different")


def bitwise(ctx):
    t = arbitrary(ctx, "c")
    r, s = spelled(t[0], RANKS), spelled(t[1], SUITS)
    ctx.assume(r >= 0 and s >= 0)
    c = Card(t)
    n = packed(r, s)
    m = ctx.bits("mask", 0, 2 ** 32 - 1)
    ctx.check(c & m == n & m, "a card masks like its number")
    ctx.check(m & c == n & m, "a card masks like its number")
    ctx.check(c | m == n | m, "a card combines like its number")
    ctx.check(m | c == n | m, "a card combines like its number")
    k = ctx.choice("shift", [0, 1, 8, 12, 16, 40])
    ctx.check(c >> k == n >> k, "a card shifts like its number")
    ctx.check(c << k == n << k, "a card shifts like its number")
    o = Card("7D")
    ctx.check(c & o == n & packed(5, 2), "two cards mask like their numbers")
    ctx.check(c | o == n | packed(5, 2), "two cards combine like their numbers")
    ctx.cover("card")


def cases(tier):
    return [
        dict(name="texts", fn=parse, params={}, covers=("card", "bad rank", "bad suit"),
             bounds="all pairs of Unicode characters"),
        dict(name="longer texts", fn=parse, params=dict(length=3),
             covers=("bad rank", "bad suit"), bounds="all triples of Unicode characters"),
        dict(name="equality", fn=equal, params={}, covers=("same", "different"),
             bounds="all pairs of texts of cards"),
        dict(name="bits", fn=bitwise, params={}, covers=("card",), bounds="all cards, any mask"),
    ]
