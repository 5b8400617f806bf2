import os
import re
from xml.etree import ElementTree

from clubs.render import graphic
from sx import page

PROPERTY = "C28"
BOUNDS = ("tables of 2-10 seats, 1-4 hole cards, 0-5 board cards; one to three messages in a row; "
          "all chips, pots and bets up to 2**53; any players in the hand, any player to act, any "
          "button; any card")
ASSUMPTIONS = [
    "the script of the page is evaluated by sx/js.py (every message is an arbitrary one of the form "
    "C21 establishes); replays run it in node on a tree with the same operations",
    "the page is the text of the drawn table, as the server sends it (C27)"]
OUTSIDE = "what the browser makes of the SVG: fonts, shapes and positions (C22); numbers from 2**53"

HERE = os.path.dirname(os.path.realpath(graphic.__file__))
RANKS = "23456789TJQKA"
SUITS = [("♠", "spade", "black"), ("♥", "heart", "red"), ("♦", "diamond", "red"),
         ("♣", "club", "black")]
_PAGES = {}


def scripts():
    """the scripts of the page's templates"""
    out = []
    where = os.path.join(HERE, "resources")
    names = ["index.html"]
    for name in names:
        with open(os.path.join(where, "templates", name), encoding="utf-8") as f:
            t = f.read()
        names += [x for x in re.findall(r"\{%\s*extends\s+['\"](.*?)['\"]", t) if x not in names]
        for tag in re.findall(r"<script[^>]*>", t):
            out += [os.path.join(where, "static", x)
                    for x in re.findall(r"filename\s*=\s*['\"](.*?)['\"]", tag)]
    return out


def local(tag):
    return tag.split("}")[-1]


def data(e):
    return [local(e.tag), dict(e.attrib), e.text or "", [data(k) for k in e]]


def drawn(n, hole, board):
    """the table as the page gets it"""
    key = (n, hole, board)
    if key not in _PAGES:
        svg = str(graphic._SVGPoker(n, hole, board).base_svg)
        _PAGES[key] = data(ElementTree.fromstring(svg.encode("utf8")))
    return _PAGES[key]


def show(ctx, table, messages):
    """the page after each message"""
    if not ctx.symbolic:
        out, err = page.node_run(scripts(), table, [["config", m] for m in messages])
        for m in out:
            yield page.tree(["#document", {}, "", [m]])
        if err is not None:
            ctx.check(False, "the script runs")
        return
    from sx import js
    try:
        p = js.Page(scripts(), table)
        for m in messages:
            p.message("config", m)
            yield p.root
    except page.JSError:
        ctx.check(False, "the script runs")


def num(ctx, name):
    return ctx.int(name, 0, 2 ** 53)


def card(ctx, name):
    """any card as a text"""
    t = ctx.text(name, 2)
    ctx.assume(not ctx.all([t[0] != r for r in RANKS]))
    ctx.assume(not ctx.all([t[1] != s[0] for s in SUITS]))
    return t


def deal(n, hole, board, shift=0):
    deck = [r + s[0] for r in RANKS for s in SUITS]
    deck = deck[shift:] + deck[:shift]
    holes = [[deck.pop(0) for _ in range(hole)] for _ in range(n)]
    return holes, [deck.pop(0) for _ in range(board)]


def state(ctx, k, n, hole, board, active="sym", action="sym", button="sym", cards=(), shift=0):
    """the k-th message; cards: which cards are arbitrary, (seat or -1, place)"""
    holes, com = deal(n, hole, board, shift)
    for i, j in cards:
        (com if i < 0 else holes[i])[j] = card(ctx, "card%d_%d_%d" % (k, i + 1, j))
    if active == "sym":
        act = [bool(ctx.bool("active%d_%d" % (k, i))) for i in range(n)]
    elif active == "one":
        out = ctx.choice("out%d" % k, list(range(n)))
        act = [i != out for i in range(n)]
    else:
        act = [True] * n
    who = ctx.choice("action%d" % k, [-1] + list(range(n))) if action == "sym" else action
    but = ctx.choice("button%d" % k, list(range(n))) if button == "sym" else button
    return dict(
        action=who, active=act, all_in=[ctx.bool("allin%d_%d" % (k, i)) for i in range(n)],
        community_cards=com, button=but, done=ctx.bool("done%d" % k), hole_cards=holes,
        pot=num(ctx, "pot%d" % k),
        payouts=[ctx.int("win%d_%d" % (k, i), -2 ** 53, 2 ** 53) for i in range(n)],
        prev_action=[0, num(ctx, "bet%d" % k), False] if k else None,
        street_commits=[num(ctx, "commit%d_%d" % (k, i)) for i in range(n)],
        stacks=[num(ctx, "stack%d_%d" % (k, i)) for i in range(n)])


def number(ctx, e):
    t = e.text
    if isinstance(t, str):
        return ctx.number(t.strip())
    return t


def one(ctx, root, label, what):
    """the element with this label: there is exactly one"""
    es = [e for e in root.all() if e.attrs.get("id") == label]
    ctx.check(len(es) == 1, what)
    return es[0] if len(es) == 1 else None


def parts(e, cls):
    return e.by_class(cls)


def empty(t):
    return isinstance(t, str) and t.strip() == ""


def face(ctx, e, text, what):
    """the card is shown face up"""
    bg, tx = parts(e, "card-background"), parts(e, "card-text")
    ctx.check(len(bg) == 1 and len(tx) == 1, "a card has a face and a text")
    if len(bg) != 1 or len(tx) != 1:
        return
    bg, tx = bg[0], tx[0]
    for sym, name, colour in SUITS:
        if text[1] == sym:
            ctx.check(bg.attrs.get("fill") == "url(#card-%s)" % name, what + " shows its suit")
            ctx.check(tx.attrs.get("fill") == colour, what + " has the colour of its suit")
    if text[0] == "T":
        ctx.check(tx.text == "10", what + " shows its rank")
    else:
        ctx.check(tx.text == text[0], what + " shows its rank")


def hidden(ctx, e, back, what):
    bg, tx = parts(e, "card-background"), parts(e, "card-text")
    ctx.check(len(bg) == 1 and bg[0].attrs.get("fill") == "url(#card-%s)" % back, what)
    ctx.check(len(tx) == 1 and empty(tx[0].text), what)


def look(ctx, root, m, n, hole, board):
    """the page shows the state m, or none"""
    fills = []
    for i in range(n):
        stack = one(ctx, root, "chips-text-%d" % i, "every seat shows its chips")
        bet = one(ctx, root, "street-commit-text-%d" % i, "every seat shows its bet")
        if m is not None:
            if stack is not None:
                ctx.check(number(ctx, stack) == m["stacks"][i], "the chips of the seat")
            if bet is not None:
                ctx.check(number(ctx, bet) == m["street_commits"][i], "the bet of the seat")
        for j in range(hole):
            e = one(ctx, root, "card-%d-%d" % (i, j), "every seat has its cards")
            if e is None:
                continue
            if m is not None and m["active"][i]:
                face(ctx, e, m["hole_cards"][i][j], "a card in play")
                ctx.cover("card")
            else:
                hidden(ctx, e, "back", "cards out of play lie face down")
        e = one(ctx, root, "button-background-%d" % i, "every seat can have the button")
        if e is not None:
            here = m is not None and m["button"] == i
            ctx.check(e.attrs.get("fill") == ("url(#dealer)" if here else "transparent"),
                      "the button lies at the dealer's seat")
        e = one(ctx, root, "player-background-%d" % i, "every seat can be marked")
        if e is not None:
            fills.append((i, e.attrs.get("fill")))
    acting = -1 if m is None else m["action"]
    rest = [f for i, f in fills if i != acting]
    mark = [f for i, f in fills if i == acting]
    ctx.check(all([f is not None and f == rest[0] for f in rest]), "other seats are not marked")
    ctx.check(all([f is not None and f != rest[0] for f in mark]) if rest else True,
              "the player to act is marked")
    pot = one(ctx, root, "pot-text", "there is a pot")
    if pot is not None:
        ctx.check(number(ctx, pot) == (0 if m is None else m["pot"]), "the pot")
    for j in range(board + 1):
        e = one(ctx, root, "card-community-%d" % j, "there is a place for every board card")
        if e is None:
            continue
        if j == 0:
            bg = parts(e, "card-background")
            ctx.check(len(bg) == 1 and bg[0].attrs.get("fill") == "url(#card-back)",
                      "the deck lies face down")
        elif m is not None and j <= len(m["community_cards"]):
            face(ctx, e, m["community_cards"][j - 1], "a board card")
            ctx.cover("board")
        else:
            hidden(ctx, e, "blank", "board cards not dealt are blank")
    ctx.check(not [e for e in root.by_class("player") if len(parts(e, "card")) != hole],
              "every seat has as many cards as are dealt")
    ctx.check(len(root.by_class("player")) == n, "there is a box per seat")


def patterns(ctx, root):
    """whatever the page refers to exists once; labels are unique"""
    ids = [e.attrs["id"] for e in root.all() if "id" in e.attrs]
    ctx.check(len(ids) == len(set(ids)), "labels are unique")
    for e in root.all():
        f = e.attrs.get("fill", "")
        if isinstance(f, str) and f.startswith("url(#"):
            ctx.check(f[5:-1] in ids, "pictures exist")


def watch(ctx, n=2, hole=1, board=1, states=({},), over=None):
    """a row of messages; a state None is the empty message of a page before anything is rendered"""
    table = drawn(n, hole, board)
    ms = [None if s is None else
          state(ctx, k, n, hole, **dict(dict(board=board), **s)) for k, s in enumerate(states)]
    sent = [{} if m is None else m for m in ms]
    for m, root in zip(ms, show(ctx, table, sent)):
        look(ctx, root, m, n, hole, board)
        patterns(ctx, root)
        ctx.flush()
        ctx.log("page", [[e.attrs.get("fill"), e.attrs.get("stroke"),
                          number(ctx, e) if "chips" in e.attrs.get("class", "") else e.text]
                         for e in root.all() if e.attrs.get("class")])
        ctx.cover("empty" if m is None else "state")
    ctx.log("script", len(scripts()))
    ctx.check(len(scripts()) > 0, "the page has a script")


def case(name, covers, **kw):
    return dict(name=name, fn=watch, params=kw, covers=covers, bounds=str(kw))


def cases(tier):
    full = ("state", "card", "board")
    still = dict(active="all", action=0, button=0)
    out = [
        case("one state", full, n=2, hole=2, board=2, states=(dict(board=1, cards=((1, 1),)),)),
        case("any board card", full, n=2, hole=1, board=3,
             states=(dict(still, board=3, cards=((-1, 0), (-1, 2)), action="sym"),)),
        case("three seats", full, n=3, hole=1, board=1, states=(dict(board=1),)),
        case("two states", full, n=2, hole=1, board=2,
             states=(dict(board=2), dict(board=1, shift=9))),
        case("a card after another", full, n=2, hole=1, board=1,
             states=(dict(still, cards=((0, 0), (-1, 0))), dict(still, cards=((0, 0), (-1, 0))))),
        case("nothing, a state, nothing", full + ("empty",), n=2, hole=1, board=2,
             states=(None, dict(), None)),
        case("ten seats", full, n=10, hole=4, board=5,
             states=(dict(active="one", button=3),)),
        case("every button", full, n=9, hole=2, board=5,
             states=(dict(active="one", action=4, board=3), )),
        case("no board", ("state", "card"), n=4, hole=3, board=0, states=(dict(button=1),)),
    ]
    if tier == "thorough":
        out += [
            case("three states", full, n=2, hole=1, board=2,
                 states=(dict(board=2), dict(board=1, shift=9), dict(board=0, shift=17))),
            case("two states, three seats", full, n=3, hole=1, board=2,
                 states=(dict(board=2), dict(board=1, shift=9))),
            case("all cards", full, n=2, hole=1, board=1,
                 states=(dict(cards=((0, 0), (1, 0), (-1, 0))),)),
        ]
        for n in range(5, 11):
            out.append(case("%d seats" % n, full, n=n, hole=2, board=5,
                            states=(dict(active="one", board=3, cards=((n - 1, 1),)),)))
    return out
