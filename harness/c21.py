from clubs.render import graphic

from harness.common import (ACTION_KEY, Game, earlier, error, sym_antes, sym_blinds, sym_raises, sym_stacks)

PROPERTY = "C21"
BOUNDS = "the message sent after the deal and after every action, 2-6 seats; " + ACTION_KEY
ASSUMPTIONS = [
    "the browser view is made without its web server process: a stand-in for the connection to "
    "that process keeps what is sent",
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player",
    "starting stacks are set on the dealer before the deal"]
OUTSIDE = "the web server process and the script in the browser that draws the message"

KEYS = ("action", "active", "all_in", "community_cards", "button", "done", "hole_cards", "pot",
        "payouts", "prev_action", "street_commits", "stacks")


class Wire(object):
    """stands in for the connection to the web server process"""

    def __init__(self):
        self.sent = []

    def send(self, message):
        self.sent.append(message)

    def close(self):
        pass


class NoProcess(object):
    def is_alive(self):
        return False

    def terminate(self):
        pass

    def join(self, *a):
        pass


def browser(d):
    v = graphic.GraphicViewer.__new__(graphic.GraphicViewer)
    v.num_players = d.num_players
    v.num_hole_cards = d.num_hole_cards
    v.num_community_cards = sum(d.num_community_cards)
    v.host, v.port = "127.0.0.1", 1
    v.socket, v.process = Wire(), NoProcess()
    return v


def is_text(x):
    return isinstance(x, str)


def is_flag(x):
    return isinstance(x, bool)


def is_num(x):
    return isinstance(x, int) and not isinstance(x, bool)


def plain(x):
    """nothing but texts, numbers, flags and lists of them"""
    if x is None or is_text(x) or is_flag(x) or is_num(x) or isinstance(x, float):
        return True
    if isinstance(x, (list, tuple)):
        return all([plain(y) for y in x])
    if isinstance(x, dict):
        return all([is_text(k) and plain(x[k]) for k in x])
    return False


def seq(x):
    return isinstance(x, (list, tuple))


def snapshot(d):
    return [d.action, d.button, d.pot, len(d.deck)] + list(d.stacks) + list(d.street_commits) + \
        list(d.active), [[str(c) for c in h] for h in d.hole_cards] + \
        [[str(c) for c in d.community_cards], [str(c) for c in d.deck.cards]], \
        [type(c) for h in d.hole_cards for c in h] + [type(c) for c in d.community_cards]


def send(ctx, d, sleep=None):
    before = snapshot(d)
    if sleep is None:
        d.render()
    else:
        d.render(sleep=sleep)
    after = snapshot(d)
    ctx.check(before[1:] == after[1:], "rendering does not change the cards")
    ctx.check(len(before[0]) == len(after[0]) and
              ctx.all([a == b for a, b in zip(before[0], after[0])]),
              "rendering does not change the game")
    sent = d.viewer.socket.sent
    ctx.check(len(sent) == 1, "one message per rendering")
    m = sent.pop()
    ctx.check(isinstance(m, dict) and list(m) == ["content"] and isinstance(m["content"], dict),
              "the message holds the state")
    m = m["content"]
    ctx.check(plain(m), "the message is plain data")
    return m


def look(ctx, g, holes, last):
    n, obs, d = g.n, g.obs, g.dealer
    m = send(ctx, d)
    missing = [k for k in KEYS if k not in m]
    ctx.check(not missing, "the message is complete")
    if missing:
        return
    for k in ("active", "all_in", "payouts", "street_commits", "stacks", "hole_cards"):
        good = seq(m[k]) and len(m[k]) == n
        ctx.check(good, "one entry per seat")
        if not good:
            return
    ctx.check(m["hole_cards"] == holes, "everybody's cards as texts")
    ctx.check(m["community_cards"] == [str(c) for c in obs["community_cards"]],
              "the board as texts")
    ctx.check(is_num(m["button"]) and m["button"] == g.button, "the button")
    ctx.check(is_num(m["action"]) and m["action"] == obs["action"], "the player to act")
    ctx.check(is_flag(m["done"]) and m["done"] == g.over, "whether the hand is over")
    ctx.check(is_num(m["pot"]) and m["pot"] == obs["pot"], "the pot")
    for i in range(n):
        ctx.check(is_num(m["stacks"][i]) and m["stacks"][i] == obs["stacks"][i], "the stacks")
        ctx.check(is_num(m["street_commits"][i]) and
                  m["street_commits"][i] == obs["street_commits"][i], "the bets")
        ctx.check(m["payouts"][i] == g.pay[i], "the payouts")
        ctx.check(is_flag(m["active"][i]) and m["active"][i] == g.in_hand[i], "who is in the hand")
        broke = g.in_hand[i] and obs["stacks"][i] == 0
        ctx.check(is_flag(m["all_in"][i]) and m["all_in"][i] == broke, "who is all in")
    p = m["prev_action"]
    if last is None:
        ctx.check(p is None, "nothing has been done yet")
    else:
        good = seq(p) and len(p) == 3
        ctx.check(good, "the last action")
        if good:
            ctx.check(p[0] == last.actor, "who acted last")
            ctx.check(is_flag(p[2]) and p[2] == last.fold, "whether it was a fold")
            if g.known:
                ctx.check(is_num(p[1]) and p[1] == last.amount, "what was bet")
            if last.fold:
                ctx.cover("fold")
            elif g.known and last.amount > 0:
                ctx.cover("bet")


def make(ctx, n, streets, blinds, antes, st, button, raises, hole, cfg, ranks="sym"):
    conf = dict(num_hole_cards=hole)
    conf.update(cfg or {})
    return Game(ctx, n, streets, raises=raises, blinds=blinds, antes=antes, stacks=st,
                button=button, cfg=conf,
                strengths=True if ranks == "sym" else
                [ctx.int("rank%d" % i, 1, 9) if i in ranks else 5 for i in range(n)])


def watch(ctx, n=2, streets=1, acts="xx", tail=0, blinds="none", antes=0, stacks="sym", button=0,
          raises="inf", lo=0, hole=1, cfg=None, before=False, ranks="sym", first=None):
    st = sym_stacks(ctx, n, lo) if stacks == "sym" else list(stacks)
    if button == "sym":
        button = ctx.choice("button", list(range(n)))
    g = make(ctx, n, streets, sym_blinds(ctx, n, blinds), sym_antes(ctx, n, antes), st, button,
             sym_raises(ctx, raises), hole, cfg, ranks)
    d = g.dealer
    try:
        d.render(mode="nothing")
        ctx.check(False, "an unknown view is refused")
    except error.InvalidRenderModeError:
        ctx.check(d.viewer is None, "an unknown view is refused")
    d.viewer = browser(d)
    if before:
        m = send(ctx, d)
        ctx.check(m["prev_action"] is None and len(m["community_cards"]) == 0,
                  "nothing has happened before the first deal")
    if first is not None:
        earlier(ctx, g, first)
        send(ctx, d)
    g.reset()
    holes = [[str(c) for c in h] for h in d.hole_cards]
    ctx.check(all([len(h) == hole for h in holes]), "everybody has cards")
    look(ctx, g, holes, None)
    ctx.flush()
    for letter in acts + "C" * tail:
        r = g.act(letter)
        look(ctx, g, holes, r)
        ctx.flush()
        if g.over:
            ctx.cover("hand over")
            if sum(g.in_hand) > 1:
                ctx.cover("showdown")
            look(ctx, g, holes, r)
            break
    ctx.log("pay", g.pay)


def twin(ctx, n=2, streets=1, acts="xx", tail=0, blinds="none", antes=0, lo=0, button=0, hole=1,
         cfg=None):
    """the same hand twice, once with both views rendered after every action"""
    st = sym_stacks(ctx, n, lo)
    bl, an = sym_blinds(ctx, n, blinds), sym_antes(ctx, n, antes)
    g = make(ctx, n, streets, bl, an, st, button, "inf", hole, cfg)
    conf = dict(g.config)
    quiet = type(g.dealer)(**conf)
    quiet.stacks, quiet.button = list(st), g.dealer.button
    stub = type(g.stub)(g.strengths)
    quiet.evaluator.evaluate = stub
    d = g.dealer
    d.viewer = browser(d)
    g.reset()
    o = quiet.reset()
    stub.hole = quiet.hole_cards
    same(ctx, g.obs, o)
    for letter in acts + "C" * tail:
        d.render()
        text = str(d)
        ctx.check(len(text) > 0, "a text is drawn")
        r = g.act(letter)
        o, p, done = quiet.step(r.bet)
        same(ctx, g.obs, o)
        ctx.check(ctx.all([a == b for a, b in zip(p, g.pay)]), "rendering does not change the payouts")
        ctx.check(list(done) == list(g.done), "rendering does not change the end of the hand")
        ctx.flush()
        if g.over:
            ctx.cover("hand over")
            break


def same(ctx, a, b):
    for k in ("action", "button", "call", "min_raise", "max_raise", "pot"):
        ctx.check(a[k] == b[k], "rendering does not change " + k)
    for k in ("stacks", "street_commits", "active"):
        ctx.check(ctx.all([x == y for x, y in zip(a[k], b[k])]), "rendering does not change " + k)
    for k in ("hole_cards", "community_cards"):
        ctx.check([str(c) for c in a[k]] == [str(c) for c in b[k]],
                  "rendering does not change " + k)


def case(name, covers=("hand over",), fn=watch, **kw):
    return dict(name=name, fn=fn, params=kw, covers=covers, bounds=str(kw))


def cases(tier):
    full = ("hand over", "showdown", "fold", "bet")
    board = dict(num_community_cards=[0, 3, 1], num_suits=4)
    out = [
        case("two seats", full, n=2, streets=2, acts="xxx", tail=3, blinds="sym", antes="sym",
             button="sym", before=True),
        case("any bets", n=2, streets=1, acts="aa", tail=2, blinds="any"),
        case("three seats", full, n=3, streets=1, acts="xx", tail=3, blinds=(1, 2), button=1),
        case("board and two hole cards", full, n=2, streets=3, acts="xx", tail=6, hole=2,
             blinds=(1, 2), cfg=board),
        case("four hole cards", n=3, streets=2, acts="x", tail=6, hole=4, lo=1,
             cfg=dict(num_community_cards=[2, 1], num_suits=4)),
        case("rendered or not", fn=twin, n=2, streets=3, acts="xx", tail=5, blinds="sym",
             hole=2, cfg=board),
        case("rendered or not, three seats", fn=twin, n=3, streets=1, acts="xx", tail=3,
             blinds=(1, 2), lo=1),
        case("second hand after a fold", ("hand over", "second hand"), n=2, streets=1, first="RRF", acts="x",
             tail=3, blinds=(1, 2), lo=4),
        case("second hand after a showdown", ("hand over", "second hand"), n=3, streets=2,
             first="RCC" + "CRCC" + "C" * 4, acts="x", tail=6, blinds=(1, 2), stacks=(30, 50, 40),
             ranks=(1,), cfg=dict(num_community_cards=[1, 1]), button=1),
        case("six seats", n=6, streets=2, acts="p", tail=13, blinds=(1, 2),
             stacks=(40, 47, 54, 61, 68, 75), button="sym", ranks=(1, 4)),
    ]
    if tier == "thorough":
        out += [
            case("three seats, two streets", full, n=3, streets=2, acts="xxx", tail=6,
                 blinds="sym", button=1),
            case("four seats", full, n=4, streets=1, acts="xx", tail=4, blinds=(1, 2)),
            case("two seats, long", full, n=2, streets=3, acts="xxxxx", tail=6, blinds="sym",
                 antes="sym"),
        ]
    return out
