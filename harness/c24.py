from harness.common import (ACTION_KEY, Dealer, StrengthStub, amin, base_config, case, copy_obs, count, play, total)

PROPERTY = "C24"
BOUNDS = ACTION_KEY + "; then a second hand with the same kind of actions, played side by side " \
    "with a new dealer that is given the same stacks and button"
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player and hand",
    "starting stacks and the button of the first hand are set on the dealer before the deal"]
OUTSIDE = "which seats post when somebody at the table has no chips (dead blinds); resets in the " \
    "middle of a hand that keep the stacks"

NUM = ("action", "button", "call", "min_raise", "max_raise", "pot")
LISTS = ("active", "stacks", "street_commits", "community_cards")


def compare(ctx, a, b, n, what):
    for k in NUM:
        ctx.check(a[k] == b[k], "%s: %s" % (what, k))
    mine, other = [[str(c) for c in o["hole_cards"]] for o in (a, b)]
    ctx.check(mine == other, "%s: hole cards" % what)
    for k in LISTS:
        ctx.check(len(a[k]) == len(b[k]), "%s: %s" % (what, k))
        for x, y in zip(a[k], b[k]):
            ctx.check(x == y, "%s: %s" % (what, k))


def posted(ctx, g, obs, left, blinds, antes, button):
    """what every seat put in for antes and blinds"""
    n = g.n
    for k in range(n):
        seat = (button + k) % n if n == 2 else (button + 1 + k) % n
        ante = amin(antes[k], left[seat])
        blind = amin(blinds[k], left[seat] - ante)
        ctx.check(left[seat] - obs["stacks"][seat] == ante + blind,
                  "antes and blinds are posted by the seats they belong to")
        ctx.check(obs["street_commits"][seat] == blind, "a blind counts as a bet, an ante does not")


def hands(ctx, second="", tail2=0, fresh=None, ranks=None, midway=False, **kw):
    g = play(ctx, (), **kw)
    n = g.n
    ctx.check(g.raw_reset["button"] == g.button, "the button is where it was put")
    if g.button == g.raw_reset["button"] and all([bool(x > 0) for x in g.start]):
        posted(ctx, g, g.raw_reset, g.start, g.blinds, g.antes, g.button)
    if midway:
        ctx.cover("hand left" if not g.over else "hand over")
    else:
        ctx.assume(g.over)
    left = list(g.obs["stacks"])
    for i in range(0 if midway else n):
        ctx.check(left[i] == g.start[i] + g.pay[i], "winnings are in the stacks after the hand")
    if fresh is None:
        ctx.assume(count([s > 0 for s in left]) >= 2)
    else:
        left = [g.config["start_stack"]] * n
    ctx.flush()
    rb = ctx.choice("reset_button", [False, True])
    button = 0 if rb else (g.button + 1) % n
    a = g.dealer
    b = Dealer(**g.config)
    b.stacks = list(left)
    b.button = (button - 1) % n
    st = ranks or [ctx.int("second%d" % i, 0, a.evaluator.table.max_rank) for i in range(n)]
    a.evaluator.evaluate = StrengthStub(st)
    b.evaluator.evaluate = StrengthStub(st)
    oa = a.reset(reset_button=rb, reset_stacks=fresh is not None)
    ctx.check(oa["button"] == button, "the button moves one seat, or back to the first")
    ctx.check(total(oa["stacks"]) + oa["pot"] == total(left), "chips carry over to the next hand")
    for i in range(n):
        ctx.check(bool(oa["active"][i]) == bool(left[i] > 0), "exactly the players with chips are dealt in")
        if bool(left[i] == 0):
            ctx.cover("a player is out")
            ctx.check(oa["stacks"][i] == 0, "a player without chips posts nothing")
    if all([bool(x > 0) for x in left]):
        ctx.cover("full table")
        posted(ctx, g, oa, left, g.blinds, g.antes, button)
    ctx.flush()
    ob = b.reset()
    a.evaluator.evaluate.hole = a.hole_cards
    b.evaluator.evaluate.hole = b.hole_cards
    compare(ctx, copy_obs(oa), copy_obs(ob), n, "the next hand starts afresh")
    done = [False] * n
    k = 0
    for letter in second + "C" * tail2:
        if letter == "C":
            bet = oa["call"]
        else:
            bet = ctx.int("bet2_%d" % k)
        k += 1
        oa, pa, da = a.step(bet)
        ob, pb, db = b.step(bet)
        compare(ctx, copy_obs(oa), copy_obs(ob), n, "earlier hands have no influence")
        for i in range(n):
            ctx.check(pa[i] == pb[i], "earlier hands have no influence on payouts")
            ctx.check(bool(da[i]) == bool(db[i]), "earlier hands have no influence on who is done")
        ctx.flush()
        if all(da) and oa["action"] == -1:
            ctx.cover("second hand over")
            break
    ctx.log("second", oa["stacks"])


def rotate(ctx, n, hands):
    """the button over several hands in which everybody folds"""
    d = Dealer(**base_config(n, 1, blinds=[1, 2] + [0] * (n - 2), start_stack=1000))
    st = [ctx.int("stack%d" % i, 100) for i in range(n)]
    d.stacks = list(st)
    b = ctx.choice("button", list(range(n)))
    d.button = b
    tot = total(st)
    for h in range(hands):
        o = d.reset()
        b = (b + 1) % n
        ctx.check(o["button"] == b, "the button moves one seat every hand")
        sb = b if n == 2 else (b + 1) % n
        bb = (sb + 1) % n
        st = [s - (1 if i == sb else 2 if i == bb else 0) for i, s in enumerate(st)]
        for i in range(n):
            ctx.check(o["stacks"][i] == st[i], "the blinds move with the button")
        last = None
        for k in range(n - 1):
            last = o["action"]
            o, pay, done = d.step(-1)
        st[bb] = st[bb] + 3
        for i in range(n):
            ctx.check(o["stacks"][i] == st[i], "the big blind wins the blinds when all fold")
        ctx.cover("hand %d" % h)
        ctx.flush()
    ctx.check(total(o["stacks"]) == tot, "chips carry over to the next hand")


def cases(tier):
    def c(name, covers, **p):
        return dict(case(name, (), covers, fn=hands, **p), params=p)
    F = ("hand over", "full table", "second hand over")
    O = F + ("a player is out",)
    cs = [
        c("heads-up", F, n=2, streets=1, acts="x", tail=2, blinds="sym", antes=1, button=0, lo=1,
          second="a", tail2=2),
        c("heads-up button 1", F, n=2, streets=2, acts="aa", tail=5, blinds=(1, 2), button=1, lo=1,
          second="", tail2=4),
        c("heads-up any bet", F, n=2, streets=1, acts="", tail=3, blinds=(1, 2), button=1, lo=1,
          second="aa", tail2=3),
        c("three seats", ("hand over", "full table", "a player is out"), n=3, streets=1, acts="R",
          tail=4, blinds=(1, 2), antes="bb", lo=1, button="sym", second="F", strengths=False),
        c("three seats posting", ("hand over", "full table"), n=3, streets=1, acts="FF", blinds="any",
          antes="any", button="sym", lo=1),
        c("fresh stacks", ("hand over", "full table", "second hand over"), n=3, streets=1, acts="R",
          tail=3, blinds=(1, 2), lo=1, fresh=True, second="aF", tail2=1,
          strengths=False),
        c("fresh stacks in the middle of a hand", ("hand left", "full table", "second hand over"), n=3, streets=2,
          acts="RxCCx", blinds=(1, 2), antes="bb", raises=[2, "inf"], stacks=(30, 20, 25), button=1, midway=True, fresh=True,
          second="aF", tail2=6, strengths=[3, 1, 2], ranks=[1, 2, 2]),
        c("six seats", F, n=6, streets=2, acts="x", tail=12, blinds=(1, 2), antes=1, button=4,
          stacks=(10, 20, 30, 40, 50, 60), strengths=[3, 1, 2, 1, 3, 2],
          ranks=[1, 3, 2, 2, 1, 3], second="a", tail2=12),
        c("seats out", ("hand over", "a player is out", "second hand over"), n=5, streets=2,
          acts="x", tail=12, blinds=(1, 2), button="sym", stacks=(40, 0, 30, 20, 10),
          strengths=[1, 1, 2, 2, 3], ranks=[2, 1, 1, 3, 1], second="F", tail2=12),
        c("fixed limit caps", F, n=2, streets=2, acts="xx", tail=4, blinds=(1, 2), raises=[2, 4],
          cap=[1, 2], lo=1, strengths=[1, 2], second="aa", tail2=4),
        dict(name="rotation of seven", fn=rotate, params=dict(n=7, hands=8), bounds="7 seats, 8 hands",
             covers=("hand 7",)),
        dict(name="rotation", fn=rotate, params=dict(n=4, hands=5), bounds="4 seats, 5 hands",
             covers=("hand 4",)),
        dict(name="rotation heads-up", fn=rotate, params=dict(n=2, hands=4), bounds="2 seats, 4 hands",
             covers=("hand 3",)),
    ]
    if tier == "thorough":
        cs += [
            c("heads-up longer", F, n=2, streets=1, acts="xx", tail=3, blinds="any", antes="any",
              second="a", tail2=3),
            c("three seats played on", O, n=3, streets=1, acts="R", tail=4, blinds=(1, 2), antes="bb",
              lo=1, button=1, second="F", tail2=3),
            c("four seats posting", ("hand over", "full table"), n=4, streets=1, acts="FFF",
              blinds="any", antes="any", button="sym", lo=1),
            c("three seats out", O, n=3, streets=1, acts="Rp", tail=3, blinds=(1, 2), lo=1,
              button="sym", second="aa", tail2=4),
            c("fixed limit", F, n=2, streets=2, acts="xxx", tail=5, blinds=(1, 2),
              raises=[2, 4], cap=[2, 1], second="aa", tail2=5),
        ]
    return cs
