from harness.common import (ACTION_KEY, Dealer, base_config, case, copy_obs, count, error, play,
                            total)

BOUNDS = ACTION_KEY
ASSUMPTIONS = [
    "random.shuffle is replaced by a stand-in that keeps the deck in order; the hands' strengths "
    "are arbitrary integers per player",
    "starting stacks and the button are set on the dealer before the deal"]
OUTSIDE = "acting after a refused deal; resets in the middle of a hand"


def after(ctx, repeat=2, **kw):
    """play a hand to its end, then keep acting, then ask for new hands"""
    g = play(ctx, (), **kw)
    ctx.assume(g.over)
    final, pay = g.obs, list(g.pay)
    n = g.n
    if sum(g.in_hand) > 1:
        ctx.cover("showdown")
    else:
        ctx.cover("fold win")
    for k in range(repeat):
        obs, p, done = g.dealer.step(ctx.int("extra%d" % k))
        for i in range(n):
            ctx.check(p[i] == pay[i], "payouts stay the same after the hand")
            ctx.check(obs["stacks"][i] == g.start[i] + pay[i], "stacks stay the same after the hand")
            ctx.check(bool(done[i]), "every player stays done after the hand")
            ctx.check(obs["street_commits"][i] == final["street_commits"][i],
                      "bets stay the same after the hand")
        ctx.check(obs["action"] == -1, "nobody acts after the hand")
        ctx.check(obs["pot"] == 0, "the pot stays empty after the hand")
        ctx.check(obs["call"] == 0 and obs["min_raise"] == 0 and obs["max_raise"] == 0,
                  "no bets are offered after the hand")
        ctx.check(len(obs["community_cards"]) == len(final["community_cards"]),
                  "no cards are dealt after the hand")
        ctx.flush()
    left = [g.start[i] + pay[i] for i in range(n)]
    can = bool(count([s > 0 for s in left]) >= 2)
    refused = False
    try:
        g.dealer.reset()
    except error.TooFewActivePlayersError:
        refused = True
    ctx.check(refused == (not can), "a hand is dealt exactly when two players have chips")
    if refused:
        ctx.cover("deal refused")
        for i in range(n):
            ctx.check(g.dealer.stacks[i] == left[i], "a refused deal leaves the stacks alone")
        obs = g.dealer.reset(reset_stacks=True)
        start = g.config["start_stack"]
        ctx.check(total(obs["stacks"]) + obs["pot"] == n * start,
                  "asking for fresh stacks gives everybody the starting stack")
        for i in range(n):
            ctx.check(obs["stacks"][i] <= start and obs["active"][i],
                      "asking for fresh stacks gives everybody the starting stack")
    else:
        ctx.cover("next deal")
    ctx.log("left", left)


def first(ctx, n=2, blinds=0, antes=0):
    """a new table"""
    start = ctx.int("start", 1)
    b = ctx.int("bet")
    cfg = base_config(n, 1, blinds=blinds, antes=antes, start_stack=start)
    d = Dealer(**cfg)
    for k in range(2):
        try:
            d.step(b)
            ctx.check(False, "acting before the first hand is an error")
        except error.TableResetError:
            ctx.cover("act before the first hand")
    stacks = [ctx.int("stack%d" % i, 0) for i in range(n)]
    d.stacks = list(stacks)
    fresh = ctx.choice("fresh", [False, True])
    can = bool(count([s > 0 for s in stacks]) >= 2)
    refused = False
    try:
        obs = copy_obs(d.reset(reset_stacks=fresh))
    except error.TooFewActivePlayersError:
        refused = True
    ctx.check(refused == (not can and not fresh),
              "a hand is dealt exactly when two players have chips")
    if refused:
        ctx.cover("deal refused")
        for i in range(n):
            ctx.check(d.stacks[i] == stacks[i], "a refused deal leaves the stacks alone")
        return
    ctx.check(total(obs["stacks"]) + obs["pot"] == (start * n if fresh else total(stacks)),
              "asking for fresh stacks gives everybody the starting stack")
    for i in range(n):
        have = start if fresh else stacks[i]
        ctx.check(bool(obs["active"][i]) == bool(have > 0), "players with chips are dealt in")
        if blinds == 0 and antes == 0:
            ctx.check(obs["stacks"][i] == have, "everybody has the chips brought to the hand")
    if fresh:
        ctx.cover("fresh stacks")
    else:
        ctx.cover("next deal")
    ctx.log("stacks", obs["stacks"])


def cases(tier):
    def c(name, covers, **p):
        return dict(case(name, (), covers, fn=after, **p), params=p)
    H = ("showdown", "fold win", "next deal", "deal refused")
    cs = [
        c("heads-up", H, n=2, streets=1, acts="xxx", tail=3, blinds="sym", antes="sym"),
        c("heads-up streets", H, n=2, streets=3, acts="xx", tail=6, blinds=(1, 2), button=1),
        c("heads-up any bets", H, n=2, streets=1, acts="aaa", tail=4, blinds=(1, 2), lo=1),
        c("three seats", H, n=3, streets=1, acts="Rpp", tail=2, blinds=(1, 2), antes="bb", lo=1),
        c("three seats folds", ("fold win", "next deal"), n=3, streets=1, acts="xFF", tail=2,
          blinds="sym", antes=1),
        c("six seats", ("showdown", "next deal"), n=6, streets=2, acts="xxp", tail=12, blinds=(1, 2), button=4,
          stacks=(10, 20, 0, 40, 50, 60), strengths=[3, 1, 2, 1, 3, 2], repeat=3),
        c("second hand", ("showdown", "fold win", "next deal", "second hand"), n=2, streets=2, first="RRF",
          acts="xx", tail=4, blinds=(1, 2), lo=4),
        c("second hand at three seats", ("showdown", "fold win", "next deal", "second hand"), n=3, streets=2,
          first="RCC" + "CRCC" + "C" * 4, acts="xx", tail=6, blinds=(1, 2), antes="bb", stacks=(30, 50, 40),
          strengths=[1, 2, 1], button=1),
        dict(name="new table", fn=first, params=dict(n=3), bounds="3 seats, any stacks",
             covers=("act before the first hand", "deal refused", "fresh stacks", "next deal")),
        dict(name="new table with blinds", fn=first, params=dict(n=2, blinds=[1, 2], antes=1),
             bounds="2 seats, any stacks",
             covers=("act before the first hand", "deal refused", "fresh stacks", "next deal")),
    ]
    if tier == "thorough":
        cs += [
            c("four seats", H, n=4, streets=1, acts="Rppp", tail=4, blinds=(1, 2), lo=1),
            c("three seats longer", H, n=3, streets=2, acts="xxx", tail=6, blinds=(1, 2), lo=1,
              repeat=3),
        ]
    return cs
