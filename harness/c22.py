import math
from fractions import Fraction
from xml.etree import ElementTree

from clubs.render import graphic

PROPERTY = "C22"
BOUNDS = ("every real share of the way round, from two rounds before to two rounds after, on four "
          "outlines; every seat of every table of 2-10 seats, 1-5 hole cards, 0-5 board cards")
ASSUMPTIONS = [
    "floats are exact real numbers; sines and cosines are known by what turning and mirroring an "
    "angle does to them, up to a millionth (no other facts are used); rounding to two decimals is "
    "any number within half a hundredth",
    "places are compared up to a unit of the drawing (whole units are drawn)"]
OUTSIDE = ("boxes of six and more hole cards, and seat boxes against bet boxes, do overlap; what a "
           "browser makes of the drawing; other table shapes")

SEATS = (50.0, 225.0, 900.0, 550.0, 100.0, 100.0)
BETS = (50.0, 225.0, 900.0, 550.0, -225.0, -185.0)


def near(a, b, tol):
    return (a - b <= tol) & (b - a <= tol) if not isinstance(a - b, float) else abs(a - b) <= tol


def outline(ctx, p, cx, cy, w, h, cos, sin):
    """where one is after the way p along the rounded outline, going from the
    middle of the bottom to the left; p in [0, P)"""
    r, s = h / 2, w - h
    arc = math.pi * r
    if p < s / 2:
        return cx - p, cy + r
    p = p - s / 2
    if p < arc:
        a = p * (1 / r) + math.pi / 2
        return cx - s / 2 + r * cos(a), cy + r * sin(a)
    p = p - arc
    if p < s:
        return cx - s / 2 + p, cy - r
    p = p - s
    if p < arc:
        a = p * (1 / r) + 3 * math.pi / 2
        return cx + s / 2 + r * cos(a), cy + r * sin(a)
    p = p - arc
    return cx + s / 2 - p, cy + r


def perimeter(w, h):
    return 2 * (w - h) + math.pi * h


class Maths(object):
    def __getattr__(self, name):
        from sx import real
        return getattr(real, name, None) or getattr(math, name)


def edge(ctx, rect, lo, hi):
    x, y, w, h, dw, dh = rect
    frac = ctx.real("share", lo, hi)
    if ctx.symbolic:
        from sx import real
        cos, sin = real.cos, real.sin
        graphic.math = Maths()
    else:
        cos, sin = math.cos, math.sin
    try:
        r = graphic._RoundedRectangle(x, y, w, h)
        if dw or dh:
            r.width += dw
            r.height += dh
        got = r.edge(frac)
    finally:
        graphic.math = math
    cx, cy, w, h = x + w / 2, y + h / 2, w + dw, h + dh
    p = (frac % 1) * perimeter(w, h)
    want = outline(ctx, p, cx, cy, w, h, cos, sin)
    ctx.cover("edge")
    tol = 0.02
    ctx.check(near(got[0], want[0], tol), "the place is at its share of the way round (across)")
    ctx.check(near(got[1], want[1], tol), "the place is at its share of the way round (down)")


# -- the drawn table

def num(e, name, default=None):
    v = e.attrib.get(name)
    return default if v is None else float(v)


def cls(root, name):
    return [e for e in root.iter() if name in e.attrib.get("class", "").split()]


def sure(ctx, cond, what):
    ctx.check(cond, what)
    return cond


def by_id(ctx, root, i):
    """the only element of that label"""
    found = [e for e in root.iter() if e.attrib.get("id") == i]
    if not sure(ctx, len(found) == 1, "one element labelled " + i.rstrip("0123456789-")):
        return None
    return found[0]


def box(e, at=(0.0, 0.0)):
    x, y = at[0] + num(e, "x", 0.0), at[1] + num(e, "y", 0.0)
    return x, y, num(e, "width", 0.0), num(e, "height", 0.0)


def centre(b):
    return b[0] + b[2] / 2, b[1] + b[3] / 2


def apart(a, b):
    return a[0] + a[2] <= b[0] or b[0] + b[2] <= a[0] or a[1] + a[3] <= b[1] or b[1] + b[3] <= a[1]


def drawing(n, hole, board):
    svg = str(graphic._SVGPoker(n, hole, board).base_svg)
    return ElementTree.fromstring(svg.encode("utf8"))


def row(ctx, holder, cards, what, inside=True):
    """cards side by side, in order, in the middle of what holds them"""
    at = [box(c) for c in cards]
    for c in at:
        ctx.check(c[1] == at[0][1], what + ": cards are level")
    gaps = [b[0] - (a[0] + a[2]) for a, b in zip(at, at[1:])]
    for g in gaps:
        ctx.check(g >= -1e-6, what + ": cards do not overlap and are in order")
    if inside:
        for g in gaps:
            ctx.check(abs(g - gaps[0]) < 1e-6, what + ": cards are evenly spaced")
        left, right = at[0][0], at[-1][0] + at[-1][2]
        ctx.check(left >= -1e-6 and right <= holder[2] + 1e-6, what + ": cards are in their box")
        ctx.check(abs(left - (holder[2] - right)) < 1e-6, what + ": cards are in the middle")


def table(ctx, ns, holes, boards):
    n = ctx.choice("seats", list(ns))
    hole = ctx.choice("hole cards", list(holes))
    board = ctx.choice("board cards", list(boards))
    root = drawing(n, hole, board)
    ctx.cover("drawing")
    ids = [e.attrib["id"] for e in root.iter() if "id" in e.attrib]
    ctx.check(len(ids) == len(set(ids)), "labels are unique")
    felt = cls(root, "table")
    if not sure(ctx, len(felt) == 1, "one table"):
        return
    view = [float(v) for v in root.attrib["viewBox"].split()]
    t = box(felt[0])
    ctx.check(centre(t) == (view[0] + view[2] / 2, view[1] + view[3] / 2),
              "the table is in the middle")
    tx, ty = centre(t)
    ctx.check(len(cls(root, "player")) == n, "one box per player")
    seats = []
    for i in range(n):
        e = by_id(ctx, root, str(i))
        if e is None:
            return
        b = box(e)
        seats.append(b)
        w, h = t[2] + 100, t[3] + 100
        want = outline(ctx, perimeter(w, h) * i / n, tx, ty, w, h, math.cos, math.sin)
        got = centre(b)
        ctx.check(abs(got[0] - want[0]) <= 1 and abs(got[1] - want[1]) <= 1,
                  "a seat is at its share of the way round the table")
        holder = by_id(ctx, root, "cards-%d" % i)
        cards = [by_id(ctx, root, "card-%d-%d" % (i, k)) for k in range(hole)]
        if holder is None or None in cards:
            return
        ctx.check(holder in list(e) and len(cls(e, "card")) == hole
                  and all(c in list(holder) for c in cards), "a player's cards are in the player's box")
        hb = box(holder)
        row(ctx, hb, cards, "hole cards")
        ctx.check(hb[0] >= 0 and hb[0] + hb[2] <= b[2] + 1e-6
                  and abs(hb[0] + hb[2] / 2 - b[2] / 2) < 1e-6, "the hole cards are in the middle of the box")
        chips = by_id(ctx, root, "chips-%d" % i)
        text = by_id(ctx, root, "chips-text-%d" % i)
        back = by_id(ctx, root, "chips-background-%d" % i)
        if chips is None or text is None or back is None:
            return
        ctx.check(chips in list(e) and text in list(chips) and back in list(chips),
                  "a player's chips are in the player's box")
        cb = box(chips)
        ctx.check(abs(cb[0] + cb[2] / 2 - b[2] / 2) < 1e-6 and cb[0] >= 0
                  and cb[1] + cb[3] <= b[3] + 1e-6, "the chips are in the middle of the box")
        ctx.check(all(cb[1] >= hb[1] + box(c)[1] + box(c)[3] for c in cards),
                  "the chips do not hide the cards")
        by_id(ctx, root, "player-background-%d" % i)
        for k in range(hole):
            for part in ("background", "text"):
                x = by_id(ctx, root, "card-%s-%d-%d" % (part, i, k))
                ctx.check(x is not None and x in list(cards[k]), "a card's parts are in the card")
    for i in range(n):
        for j in range(i):
            ctx.check(apart(seats[i], seats[j]), "two seats do not overlap")
    bets = []
    for i in range(n):
        e = by_id(ctx, root, "street-commit-%d" % i)
        parts = [by_id(ctx, root, x + "-%d" % i) for x in
                 ("street-commit-background", "street-commit-text", "button", "button-background")]
        if e is None or None in parts:
            return
        ctx.check(all(x in list(e) for x in parts[:3]) and parts[3] in list(parts[2]),
                  "a bet's parts are in its box")
        b = box(e)
        bets.append(b)
        w, h = t[2] - 225, t[3] - 185
        want = outline(ctx, perimeter(w, h) * i / n, tx, ty, w, h, math.cos, math.sin)
        got = centre(b)
        ctx.check(abs(got[0] - want[0]) <= 1 and abs(got[1] - want[1]) <= 1,
                  "a bet is at its share of the way round the table")
    for i in range(n):
        for j in range(i):
            ctx.check(apart(bets[i], bets[j]), "two bets do not overlap")
    group = cls(root, "community")
    if not sure(ctx, len(group) == 1, "one board"):
        return
    g = box(group[0])
    ctx.check(abs(centre(g)[0] - tx) < 1e-6, "the board is in the middle of the table")
    ctx.check(g[1] >= t[1] and g[1] + g[3] <= t[1] + t[3], "the board is on the table")
    holder = by_id(ctx, root, "cards-community")
    cards = [by_id(ctx, root, "card-community-%d" % k) for k in range(board + 1)]
    pot = by_id(ctx, root, "pot")
    text, back = by_id(ctx, root, "pot-text"), by_id(ctx, root, "pot-background")
    if None in cards or holder is None or pot is None or text is None or back is None:
        return
    ctx.check(holder in list(group[0]) and len(cls(group[0], "card")) == board + 1
              and all(c in list(holder) for c in cards), "the board cards are on the board")
    ctx.check(pot in list(group[0]) and text in list(pot) and back in list(pot), "the pot is on the board")
    pb = box(pot)
    ctx.check(pb[0] >= 0 and pb[1] + pb[3] <= g[3] + 1e-6, "the pot is on the board")
    ctx.check(len(cls(root, "player-background")) == n, "one background per player")
    ctx.check(abs(pb[0] + pb[2] / 2 - g[2] / 2) < 1e-6, "the pot is in the middle of the board")
    row(ctx, box(holder), cards, "the board", inside=False)
    row(ctx, box(holder), cards[1:], "the board", inside=False)
    ctx.cover("board")
    at = [box(c) for c in cards]
    for a, b in zip(at[1:], at[2:]):
        ctx.check(abs((b[0] - a[0]) - (at[2][0] - at[1][0])) < 1e-6, "the board is evenly spaced")
    hb = box(holder)
    for c in at:
        x = hb[0] + c[0]
        ctx.check(x >= 0 and x + c[2] <= g[2] + 1e-6, "the board cards are in their box")
        ctx.check(hb[1] + c[1] + c[3] <= pb[1] + 1e-6, "the pot does not hide the board")


def case(name, covers, fn, **kw):
    return dict(name=name, fn=fn, params=kw, covers=covers, bounds=str(kw))


def cases(tier):
    out = [case("tables of %d" % n, ("drawing", "board"), table, ns=(n,), holes=range(1, 6), boards=range(6))
           for n in range(2, 11)]
    if hasattr(graphic, "_RoundedRectangle"):
        rounds = ((0, 1), (-2, 2)) if tier == "quick" else ((0, 1), (-2, 2), (-10, 10))
        for name, rect in (("seats", SEATS), ("bets", BETS), ("nearly a circle", (0.0, 0.0, 101.0, 100.0, 0, 0)),
                           ("flat", (-3.5, 7.25, 4000.0, 30.0, 0, 0))):
            for lo, hi in rounds:
                out.append(case("%s, shares from %d to %d" % (name, lo, hi), ("edge",), edge,
                                rect=rect, lo=lo, hi=hi))
    return out
