"""What each game property demands of a hand, written from the rules and in terms
of observations, payouts and the ghost state of harness.common.Game."""
from harness.common import INF, Monitor, amax, amin, total


class Conserve(Monitor):                                            # C01
    def __init__(self, ctx):
        self.ctx = ctx

    def on_reset(self, g):
        self.tot = total(g.start)
        self.ctx.check(total(g.obs["stacks"]) + g.obs["pot"] == self.tot,
                       "chips on the table are conserved by the deal")

    def on_step(self, g, r):
        self.ctx.check(total(r.obs["stacks"]) + r.obs["pot"] == self.tot,
                       "chips on the table are conserved by every action")

    def on_end(self, g, r):
        c = self.ctx
        c.check(r.obs["pot"] == 0, "the pot is empty after the hand")
        c.check(total(r.pay) == 0, "payouts sum to zero")
        for i in range(g.n):
            c.check(r.obs["stacks"][i] == g.start[i] + r.pay[i],
                    "final stack is the starting stack plus the payout")
        if sum(g.in_hand) > 1:
            c.cover("showdown")


class Stakes(Monitor):                                              # C02
    def __init__(self, ctx):
        self.ctx = ctx

    def on_reset(self, g):
        c = self.ctx
        for i in range(g.n):
            c.check(g.obs["stacks"][i] >= 0, "blinds and antes leave no negative stack")
            c.check(g.obs["stacks"][i] <= g.start[i], "nobody gains chips from the deal")
            if g.obs["stacks"][i] == 0 and g.start[i] > 0:
                c.cover("all in from blinds or antes")
        self.bets(g)

    def bets(self, g):
        c, o = self.ctx, g.obs
        c.check(o["pot"] >= 0, "the pot is never negative")
        for i in range(g.n):
            c.check(o["street_commits"][i] >= 0, "bets are never negative")
            c.check(o["street_commits"][i] == g.commits[i], "bets are the chips that were paid")
        c.check(o["pot"] == total(g.contrib), "the pot holds what was paid")

    def on_step(self, g, r):
        c = self.ctx
        if g.over:
            return
        if g.known and not g.must_end:
            self.bets(g)
        for j in range(g.n):
            if j == r.actor:
                c.check(r.obs["stacks"][j] >= 0, "a bet never exceeds the stack")
                c.check(r.obs["stacks"][j] <= r.before["stacks"][j], "a bet never adds chips")
            else:
                c.check(r.obs["stacks"][j] == r.before["stacks"][j],
                        "only the acting player pays")

    def on_end(self, g, r):
        c = self.ctx
        for j in range(g.n):
            c.check(r.obs["stacks"][j] >= 0, "no stack is negative after the hand")
            if g.known or j != r.actor:
                c.check(r.pay[j] >= -g.contrib[j], "nobody loses more than they put in")
            else:
                c.check(r.pay[j] >= -g.start[j], "nobody loses more than they had")
            if not g.in_hand[j]:
                c.check(r.pay[j] <= 0, "folded players win nothing")


class Sizes(Monitor):                                               # C03
    def __init__(self, ctx):
        self.ctx = ctx

    def offered(self, g):
        c, o = self.ctx, g.obs
        i = o["action"]
        s = o["stacks"][i]
        owe = amax(g.commits) - g.commits[i]
        c.check(o["call"] == amin(owe, s),
                "call matches the highest bet of the street, limited by the stack")
        size = g.raises[g.street]
        if size == "pot":
            mn = amax([g.bb, g.full + owe])
            mx = amax([mn, o["pot"] + 2 * owe])
        elif size == "inf" or size == INF:
            mn = amax([g.bb, g.full + owe])
            mx = s
        else:
            mn = mx = size + owe
        closed = g.nraises >= g.caps[g.street]
        if g.nraises and owe < g.full:
            closed = True
        if closed:
            c.cover("raising closed")
            mn = mx = 0
        c.check(o["min_raise"] == amin(mn, s), "smallest offered raise follows the rules")
        c.check(o["max_raise"] == amin(mx, s), "largest offered raise follows the rules")
        c.check(0 <= o["call"], "call is not negative")
        c.check(0 <= o["min_raise"], "raises are not negative")
        c.check(o["min_raise"] <= o["max_raise"], "smallest raise is at most the largest")
        c.check(o["max_raise"] <= s, "largest raise is at most the stack")
        c.check(o["call"] <= s, "call is at most the stack")

    def on_reset(self, g):
        self.offered(g)

    def on_step(self, g, r):
        if g.over:
            o = r.obs
            self.ctx.check(o["call"] == 0 and o["min_raise"] == 0 and o["max_raise"] == 0,
                           "no bets are offered after the hand")
        elif not g.must_end and g.pending[r.obs["action"]]:
            self.offered(g)
            if r.k >= 1:
                self.ctx.cover("offer later in the hand")


class Nearest(Monitor):                                             # C04
    """the amount an arbitrary bet turns into"""

    def __init__(self, ctx):
        self.ctx = ctx

    def on_step(self, g, r):
        if r.kind is not None:
            return
        c, o, b = self.ctx, r.before, r.bet
        call, mn, mx = o["call"], o["min_raise"], o["max_raise"]
        can_raise = bool(mx > 0)
        # distance of the nearest raise
        x = 0 if b < 0 else b
        near = mn if x < mn else (mx if x > mx else x)
        best, dist = 0, x
        d = x - call if x >= call else call - x
        if d < dist:
            best, dist = call, d
        if can_raise:
            d = x - near if x >= near else near - x
            if d < dist:
                best, dist = near, d
        folds = bool(call > 0) and (bool(b < 0) or bool(best < call))
        if folds:
            best = 0
        if not g.over:
            c.check((not r.obs["active"][r.actor]) == folds,
                    "a player folds exactly when a bet is faced and the bet rounds to nothing")
            c.check(o["stacks"][r.actor] - r.obs["stacks"][r.actor] == best,
                    "a bet is rounded to the nearest valid size, ties down")
            c.cover("bet rounded")
            if best > call:
                c.cover("raised")
        else:
            c.check((not r.obs["active"][r.actor]) == folds,
                    "a player folds exactly when a bet is faced and the bet rounds to nothing")
            if folds:
                c.cover("folded")
            put = g.start[r.actor] - o["stacks"][r.actor] + best
            if not r.obs["active"][r.actor]:
                c.check(r.pay[r.actor] == -put, "a folding player loses what was already put in")
            else:
                others = total([g.contrib[j] for j in range(g.n) if j != r.actor])
                if g.n == 2:
                    # heads up the payouts tell the amount: matched chips are won or lost
                    m = amin(put, others)
                    p = r.pay[r.actor]
                    st = g.strengths
                    if st is not None:
                        me, ot = st[r.actor], st[1 - r.actor]
                        if me < ot:
                            c.check(p == m, "the winner of the showdown gets the matched bets")
                        elif me > ot:
                            c.check(p == -m, "the loser of the showdown loses the matched bets")


class Cap(Monitor):                                                 # C05
    def __init__(self, ctx):
        self.ctx = ctx

    def after(self, g):
        c, o = self.ctx, g.obs
        cap = g.caps[g.street]
        if g.nraises >= cap:
            c.cover("cap reached")
            c.check(o["max_raise"] == 0, "no raise is offered once the cap is reached")
            c.check(o["min_raise"] == 0, "no raise is offered once the cap is reached")
        else:
            i = o["action"]
            size = g.raises[g.street]
            owe = amax(g.commits) - g.commits[i]
            # a player not facing a full raise since the own last one may not raise (C03)
            if not (g.nraises and owe < g.full):
                some = o["stacks"][i] > 0
                if size == "pot":
                    some = c.all([some, o["pot"] > 0])
                elif size not in ("inf", INF):
                    some = c.all([some, size > 0])
                if some:
                    c.check(o["max_raise"] > 0, "raises are offered until the cap is reached")

    def on_reset(self, g):
        self.raises = 0
        self.after(g)

    def on_step(self, g, r):
        c = self.ctx
        size = g.raises[self.street if hasattr(self, "street") else 0]
        cap = g.caps[self.street if hasattr(self, "street") else 0]
        # every chip added to the highest bet beyond the cap would be a raise too many
        if not r.fold and g.known:
            base = r.before["call"]
            if self.raises >= cap:
                c.check(r.amount <= base, "nobody raises once the cap is reached")
            full = self.full if hasattr(self, "full") else g.bb
            need = full if size in ("inf", "pot", INF) else size
            if r.amount > base and r.amount - base >= need:
                self.raises += 1
                self.full = r.amount - base
            c.check(self.raises <= cap, "full raises per street never exceed the cap")
        if g.over:
            return
        self.street = g.street
        if g.new_street:
            self.raises = 0
            if g.street:
                c.cover("next street")
        self.after(g)


class Turns(Monitor):                                               # C06
    def __init__(self, ctx):
        self.ctx = ctx

    def on_reset(self, g):
        c, a = self.ctx, g.obs["action"]
        c.check(0 <= a < g.n, "the player to act sits at the table")
        c.check(g.in_hand[a], "the player to act is in the hand")
        if any(g.pending):
            c.check(g.obs["stacks"][a] > 0, "the player to act has chips")
            if all(g.in_hand):
                bb = g.posting_seat(1)
                c.check(a == g.next_seat(bb), "the player after the big blind acts first")

    def on_step(self, g, r):
        c, a = self.ctx, r.obs["action"]
        if g.over:
            c.check(a == -1, "nobody acts after the hand")
            return
        if g.must_end:
            return
        c.check(a >= 0 and a < g.n, "the player to act sits at the table")
        c.check(g.in_hand[a], "the player to act is in the hand")
        c.check(r.obs["stacks"][a] > 0, "the player to act has chips")
        if g.new_street:
            c.cover("new street")
            c.check(a == g.next_seat(g.button), "the first player after the button opens a street")
        else:
            c.cover("same street")
            c.check(a == g.next_seat(r.actor), "action passes clockwise to the next player with chips")
            c.check(g.pending[a], "nobody acts twice without a raise in between")


class Streets(Monitor):                                             # C07
    def __init__(self, ctx):
        self.ctx = ctx

    def on_reset(self, g):
        self.board = list(g.obs["community_cards"])
        self.ctx.check(len(self.board) == g.community[0], "the deal turns up the first street's cards")

    def on_step(self, g, r):
        c = self.ctx
        b = list(r.obs["community_cards"])
        c.check(b[:len(self.board)] == self.board, "community cards never change")
        self.board = b
        if not g.over:
            if g.must_end:
                return
            c.check(len(b) == sum(g.community[:g.street + 1]),
                    "community cards shown match the street")
            for i in range(g.n):
                c.check(r.obs["street_commits"][i] == g.commits[i],
                        "bets of a street are carried until it ends and cleared after it")
            if g.new_street:
                c.cover("next street")
        elif g.known and g.showdown:
            c.cover("showdown")
            c.check(len(b) == sum(g.community), "all community cards are shown at showdown")
        elif g.known:
            c.cover("fold win")
            c.check(len(b) <= sum(g.community), "no more than the configured cards are shown")


class Ending(Monitor):                                              # C08
    def __init__(self, ctx):
        self.ctx = ctx

    def on_reset(self, g):
        self.used = [0] * g.n
        self.ctx.check(g.obs["action"] != -1, "a dealt hand is not over")

    def on_step(self, g, r):
        c = self.ctx
        if not g.known:
            return
        c.check(g.over == g.must_end, "the hand is over exactly when one player is left or the "
                                      "last street's betting is done")
        if g.must_end:
            c.cover("fold win" if not g.showdown else "showdown")
            for i in range(g.n):
                c.check(r.done[i], "every player is done after the hand")
            return
        if g.new_street:
            c.cover("next street")
        if r.amount > r.before["call"] or g.new_street:
            self.used = [0] * g.n
        else:
            self.used[r.actor] += 1
            c.check(self.used[r.actor] <= 1, "a player acts at most once between raises")
        for i in range(g.n):
            out = not g.in_hand[i] or g.chips(i) == 0
            c.check(bool(r.done[i]) == bool(out), "done marks players who have folded or are all in")
            c.check(r.pay[i] == (0 if g.in_hand[i] else -g.contrib[i]),
                    "payouts during the hand are the losses of folded players")


class FoldWin(Monitor):                                             # C09
    def __init__(self, ctx):
        self.ctx = ctx

    def on_end(self, g, r):
        c = self.ctx
        alive = [i for i in range(g.n) if g.in_hand[i]]
        if len(alive) != 1:
            return
        c.cover("fold win")
        w = alive[0]
        for i in range(g.n):
            if i == w:
                c.check(r.pay[i] == total(g.contrib) - g.contrib[i],
                        "the last player left wins everything the others put in")
            else:
                c.check(r.pay[i] == -g.contrib[i], "folded players lose what they put in")


class SidePots(Monitor):                                            # C10
    def __init__(self, ctx):
        self.ctx = ctx

    def on_end(self, g, r):
        c, n = self.ctx, g.n
        if not (g.known and g.showdown):
            return
        c.cover("showdown")
        low = g.antes[0]
        for a in g.antes:
            low = amin(low, a)
        dead = [0] * n
        for k in range(n):
            i = g.posting_seat(k)
            paid = amin(g.antes[k], g.start[i])
            dead[i] = paid - low if paid > low else 0
        live = [g.contrib[i] - dead[i] for i in range(n)]
        order = []
        for i in range(n):          # seats in hand by what they put in
            if g.in_hand[i]:
                p = 0
                while p < len(order) and live[order[p]] <= live[i]:
                    p += 1
                order.insert(p, i)
        seats = [(g.button + 1 + k) % n for k in range(n)]
        pots = []                   # winners, amount
        prev = 0
        for p, i in enumerate(order):
            top = live[i]
            if p and top == prev:
                continue
            elig = order[p:]
            best = amin_list([g.strengths[j] for j in elig])
            win = [j for j in seats if j in elig and bool(g.strengths[j] == best)]
            size = total([clip(live[j], prev, top) for j in range(n)])
            prev = top
            if pots and pots[-1][0] == win:
                pots[-1][1] = pots[-1][1] + size
            else:
                pots.append([win, size])
        pots[0][1] = pots[0][1] + total(dead)
        over = total([live[j] - prev if live[j] > prev else 0 for j in range(n)])
        pots[-1][1] = pots[-1][1] + over
        won = [0] * n
        for win, size in pots:
            share = size // len(win)
            for j in win:
                won[j] = won[j] + share
            won[win[0]] = won[win[0]] + (size - share * len(win))
            if len(win) > 1:
                c.cover("split pot")
        if len(pots) > 1:
            c.cover("side pot")
        for i in range(n):
            c.check(r.pay[i] == won[i] - g.contrib[i], "every pot goes to the best hands that paid for it")


def amin_list(xs):
    m = xs[0]
    for x in xs[1:]:
        m = amin(m, x)
    return m


def clip(x, lo, hi):
    return 0 if x <= lo else ((hi - lo) if x >= hi else x - lo)


class Truthful(Monitor):                                            # C12
    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = []

    def look(self, g, raw):
        c, o = self.ctx, g.obs
        n = g.n
        for i in range(n):
            c.check(o["stacks"][i] == g.start[i] - g.contrib[i], "observed stacks are the real ones")
            c.check(o["street_commits"][i] == g.commits[i], "observed bets are the street's bets")
            c.check(bool(o["active"][i]) == bool(g.in_hand[i]), "observed players are those in the hand")
        c.check(o["pot"] == total(g.contrib), "the observed pot is everything put in")
        c.check(o["button"] == g.button, "the observed button is the hand's button")
        board = list(g.dealer.community_cards)
        c.check(len(o["community_cards"]) == len(board) and
                all(x is y for x, y in zip(o["community_cards"], board)), "the observed board is the board")
        a = o["action"]
        mine = g.dealer.hole_cards[a]
        c.check(len(o["hole_cards"]) == len(mine) and
                all(x is y for x, y in zip(o["hole_cards"], mine)),
                "the observation shows the acting player's own cards and no others")
        c.check(sorted(o) == FIELDS, "the observation has the documented fields")
        # earlier observations must not have changed
        for old, snap in self.seen:
            for k in snap:
                c.check(same(old[k], snap[k]), "an observation never changes once returned")
        self.seen.append((raw, dict(g.obs)))

    def on_reset(self, g):
        self.look(g, g.raw_reset)

    def on_step(self, g, r):
        if g.known and not g.over and not g.must_end:
            self.ctx.cover("later observation")
            self.look(g, g.raw_obs[0])


FIELDS = sorted(["action", "active", "button", "call", "community_cards", "hole_cards",
                 "max_raise", "min_raise", "pot", "stacks", "street_commits"])


def same(a, b):
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        return all(x is y or x == y for x, y in zip(a, b))
    return a == b
