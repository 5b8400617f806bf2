import io
import sys

from harness.common import ACTION_KEY, Game, earlier, sym_antes, sym_blinds, sym_raises, sym_stacks

PROPERTY = "C20"
BOUNDS = "the text of the table after the deal and after every action, 2-10 seats; " + ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player",
    "starting stacks are set on the dealer before the deal",
    "the text is read by its words: numbers of any size are recognised wherever they stand, but "
    "columns are only told apart as left or right half of the table"]
OUTSIDE = "the exact columns; pictures whose numbers are too wide for the table"

FRAME = " /\\|_"


def seats_of(text):
    """the seats as drawn, clockwise from the top left; None where nobody sits"""
    lines = text.split("\n")
    rows = []
    for i, line in enumerate(lines):
        if "." in line and "+" not in line and not line.strip().startswith("_"):
            words = line.split()
            if any([is_label(w) for w in words]):
                rows.append(i)
    return lines, rows


def is_label(w):
    return len(w) in (2, 3) and w[-1] == "." and w[:-1].isdigit()


def halves(line):
    """the words of the left and of the right half of a line of the table"""
    body = line.strip(FRAME)
    start = line.index(body) if body else 0
    words = []
    pos = start
    for w in body.split():
        pos = line.index(w, pos)
        words.append((pos, pos + len(w), w))
        pos += len(w)
    if not words:
        return [], []
    # the widest gap, counting the frame's own margins, separates the halves
    inner = line.rstrip()
    lo = len(inner) - len(inner.lstrip(FRAME))
    hi = len(inner.rstrip(FRAME))
    best, cut = words[0][0] - lo0(line), 0
    for k in range(1, len(words)):
        gap = words[k][0] - words[k - 1][1]
        if gap > best:
            best, cut = gap, k
    if hi0(line) - words[-1][1] > best:
        cut = len(words)
    ws = [w for _, _, w in words]
    return ws[:cut], ws[cut:]


def lo0(line):
    """first column inside the frame"""
    k = 0
    while k < len(line) and line[k] in " ":
        k += 1
    return k + 1


def hi0(line):
    """last column inside the frame"""
    return len(line.rstrip()) - 1


def picture(text, n):
    """what is drawn where, read off the text"""
    lines, rows = seats_of(text)
    table = {"seats": [], "lines": lines}
    left, right = [], []
    for r in rows:
        a, b = halves(lines[r]), halves(lines[r + 1])
        for side, names, bets in ((left, a[0], b[0]), (right, a[1], b[1])):
            if names:
                side.append((names, bets))
    # clockwise: top left, down the right side, up the left side
    order = left[:1] + right + left[1:][::-1]
    for names, bets in order:
        table["seats"].append((names, bets))
    table["bottom"] = [ln.strip() for ln in lines if ln.strip()][-1]
    return table


def board_line(text):
    """words of the line that shows board and pot"""
    for line in text.split("\n"):
        if "[" in line and "]" in line:
            return line.strip(FRAME).split()
    return []


def below(text):
    """the two texts under the table"""
    lines = text.split("\n")
    last = max([i for i, ln in enumerate(lines) if "\\__" in ln])
    return " ".join([ln.strip() for ln in lines[last + 1:]]).split()


def cards_text(cards):
    return ",".join([str(c) for c in cards])


def is_number(ctx, word, value):
    v = ctx.number(word)
    return False if v is None else v == value


def look(ctx, g, d, last, holes, text):
    """the whole picture against what the observations and actions said"""
    n, obs = g.n, g.obs
    over = g.over
    seats = picture(text, n)["seats"]
    ctx.check(len(seats) == n, "every seat is drawn once")
    if len(seats) != n:
        return
    labels = [names[0] for names, _ in seats]
    k = labels.index("1.") if "1." in labels else 0
    ctx.check(labels[k:] + labels[:k] == ["%d." % (i + 1) for i in range(n)],
              "seats are in clockwise order")
    seats = seats[k:] + seats[:k]
    drawn = text
    for i, (names, bets) in enumerate(seats):
        ctx.check(len(names) == 3, "a seat shows cards and stack")
        if len(names) != 3:
            return
        if not g.in_hand[i]:
            want = ",".join(["--"] * g.nhole)
            ctx.cover("folded seat")
        elif over or i == obs["action"]:
            want = cards_text(holes[i])
        else:
            want = ",".join(["??"] * g.nhole)
            ctx.cover("hidden cards")
        ctx.check(names[1] == want, "cards are shown to whom they may be shown")
        if want[0] in "?-":
            board = [str(c) for c in obs["community_cards"]]
            for c in holes[i]:
                ctx.check(str(c) not in drawn or str(c) in board, "hidden cards are nowhere in the text")
        stack = obs["stacks"][i]
        ctx.check(is_number(ctx, names[2], stack), "the seat's own stack")
        marks = [w for w in bets if w in ("D", "X", "A")]
        rest = [w for w in bets if w not in ("D", "X", "A")]
        ctx.check(len(rest) == 1, "a seat shows one bet")
        if len(rest) != 1:
            return
        ctx.check(is_number(ctx, rest[0], g.pay[i] if over else obs["street_commits"][i]),
                  "the seat's own payout" if over else "the seat's own bet")
        ctx.check(("D" in marks) == (i == g.button), "the button is where it belongs")
        if over:
            ctx.check("X" not in marks and "A" not in marks, "nobody is to act after the hand")
        elif i == obs["action"]:
            # with everybody all in from the forced bets the player to act is marked all in
            if "X" not in marks:
                ctx.check(stack == 0 and "A" in marks, "the player to act is marked")
        else:
            ctx.check("X" not in marks, "only the player to act is marked")
            broke = g.in_hand[i] and stack == 0
            if "A" in marks:
                ctx.cover("all in")
                ctx.check(broke, "only players all in are marked so")
            else:
                ctx.check(not_(broke), "players all in are marked")
    words = board_line(text)
    shown = [str(c) for c in obs["community_cards"]]
    want = "[" + ",".join(shown + ["--"] * (sum(g.community) - len(shown))) + "]"
    ctx.check(len(words) == 2 and words[0] == want, "the board so far, open places left empty")
    if len(words) == 2:
        ctx.check(is_number(ctx, words[1], 0 if over else obs["pot"]), "the pot")
    said = below(text)
    if over:
        winners = [i for i in range(n) if g.pay[i] > 0]
        nums = [w.strip(",") for w in said if w.strip(",").isdigit() or ctx.number(w.strip(",")) is not None]
        ctx.check(len(nums) == 2 * len(winners), "every winner and his share are named")
        if len(nums) == 2 * len(winners):
            for j, i in enumerate(winners):
                ctx.check(is_number(ctx, nums[j], i + 1), "the winners are named")
                ctx.check(is_number(ctx, nums[len(winners) + j], g.pay[i]), "the winners' shares are named")
            ctx.cover("winners")
        return
    nums = [w for w in said if ctx.number(w) is not None]
    text_said = " ".join(said)
    if last is None:
        ctx.check(len(nums) == 1 and is_number(ctx, nums[0], obs["action"] + 1), "who acts first")
        return
    ctx.check(len(nums) >= 2, "the last action and who is next")
    if len(nums) < 2:
        return
    ctx.check(is_number(ctx, nums[0], last.actor + 1), "who acted last")
    ctx.check(is_number(ctx, nums[-1], obs["action"] + 1), "who acts next")
    verb = [v for v in ("folded", "checked", "bet") if v in text_said]
    ctx.check(len(verb) == 1, "what was done")
    if last.fold:
        ctx.check(verb == ["folded"] and len(nums) == 2, "a fold is reported")
        ctx.cover("folded")
    elif verb == ["bet"]:
        ctx.check(len(nums) == 3, "how much was bet")
        ctx.check(is_number(ctx, nums[1], last.amount), "how much was bet")
        ctx.check(last.amount > 0, "a bet is more than nothing")
        ctx.cover("bet")
    else:
        ctx.check(verb == ["checked"] and len(nums) == 2, "a check is reported")
        ctx.check(last.amount == 0, "a check costs nothing")
        ctx.cover("checked")


def not_(c):
    return c == False  # noqa: E712


def printed(d):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        d.render(mode="ascii")
        return sys.stdout.getvalue()
    finally:
        sys.stdout = out


def watch(ctx, n=2, streets=1, acts="xx", tail=0, blinds="none", antes=0, stacks="sym", button=0,
          raises="inf", lo=0, hole=1, view="str", cfg=None, at="all", ranks="sym", first=None):
    st = sym_stacks(ctx, n, lo) if stacks == "sym" else list(stacks)
    if button == "sym":
        button = ctx.choice("button", list(range(n)))
    conf = dict(num_hole_cards=hole)
    conf.update(cfg or {})
    g = Game(ctx, n, streets, raises=sym_raises(ctx, raises), blinds=sym_blinds(ctx, n, blinds),
             antes=sym_antes(ctx, n, antes), stacks=st, button=button, cfg=conf,
             strengths=True if ranks == "sym" else
             [ctx.int("rank%d" % i, 1, 9) if i in ranks else 5 for i in range(n)])
    g.nhole = hole
    d = g.dealer
    if first is not None:
        earlier(ctx, g, first)
    g.reset()
    holes = [list(h) for h in d.hole_cards]

    def show(last):
        text = printed(d) if view == "print" else str(d)
        look(ctx, g, d, last, holes, text)
        ctx.flush()
    if at == "all":
        show(None)
    letters = acts + "C" * tail
    for i, letter in enumerate(letters):
        r = g.act(letter)
        if at == "all" or g.over or i == len(letters) - 1:
            show(r)
        if g.over:
            ctx.cover("hand over")
            break
    ctx.log("pot", g.obs["pot"])


def case(name, covers=("hand over",), **kw):
    return dict(name=name, fn=watch, params=kw, covers=covers, bounds=str(kw))


def cases(tier):
    out = [
        case("two seats", n=2, streets=2, acts="aa", tail=3, blinds="sym", button="sym",
             covers=("hand over", "folded seat", "hidden cards", "winners", "bet", "checked")),
        case("three seats", n=3, streets=1, acts="xx", tail=3, blinds=(1, 2), button="sym",
             covers=("hand over", "folded seat", "hidden cards", "all in", "folded", "winners")),
        case("printed", n=2, streets=2, acts="x", tail=4, blinds="sym", view="print"),
        case("two hole cards, three on the flop", n=2, streets=3, acts="x", tail=6, hole=2,
             blinds=(1, 2), cfg=dict(num_community_cards=[0, 3, 1], num_suits=4)),
        case("five hole cards", n=2, streets=1, acts="x", tail=2, hole=5, blinds=(1, 2), stacks=(30, 20),
             cfg=dict(num_suits=4)),
        case("three hole cards at five seats", n=5, streets=2, acts="p", tail=10, hole=3, blinds=(1, 2),
             stacks=(30, 20, 1, 50, 1200), button=3, ranks=(1,),
             cfg=dict(num_suits=4, num_community_cards=[0, 5])),
        case("second hand after a fold", ("hand over", "second hand"), n=2, streets=1, first="RRF", acts="x",
             tail=3, blinds=(1, 2), lo=4),
        case("second hand after a showdown", ("hand over", "second hand"), n=3, streets=2,
             first="RCC" + "CRCC" + "C" * 4, acts="x", tail=6, blinds=(1, 2), stacks=(30, 50, 40),
             ranks=(1,), cfg=dict(num_community_cards=[1, 1]), button=1),
        case("antes", n=3, streets=1, acts="p", tail=4, antes="sym"),
    ]
    for n in range(4, 11):
        out.append(case("%d seats" % n, n=n, streets=1, acts="x", tail=n, blinds=(1, 2),
                        stacks=[40 + 7 * i for i in range(n)], button="sym", covers=(), at="last",
                        ranks=(1, n - 1) if n < 6 else (1,)))
    if tier == "thorough":
        out += [
            case("three seats, two streets", n=3, streets=2, acts="xxx", tail=5, blinds="sym",
                 button="sym", at="last"),
            case("four seats", n=4, streets=1, acts="xxx", tail=4, blinds=(1, 2), button="sym",
                 at="last"),
            case("two seats, four bets", n=2, streets=2, acts="aaaa", tail=3, blinds="sym"),
        ]
        for n in range(4, 11):
            out.append(case("%d seats, first two act" % n, n=n, streets=1, acts="xx", tail=n,
                            blinds=(1, 2), stacks=[40 + 7 * i for i in range(n)], button="sym",
                            covers=(), at="all", ranks=(0, n - 2)))
    return out
