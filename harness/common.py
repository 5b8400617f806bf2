"""Shared parts of the harnesses.  Runs unchanged in two worlds: with symbolic
inputs on the instrumented sources, and with concrete inputs (replay) on the
plain sources, so it must stay Python 3.9 compatible.

Everything here drives and observes the library through its public interface
(constructor, reset, step, observations, payouts, the stacks/button attributes);
the only stand-ins are random.shuffle and, where stated, the hand evaluation."""
import random


class _Shuffle(object):
    """stands in for random.shuffle: leaves the order alone unless the harness
    supplies another permutation."""
    order = None

    def __call__(self, x, *a):
        if self.order is not None:
            self.order(x)


SHUFFLE = _Shuffle()
random.shuffle = SHUFFLE


def _sample(xs, k):
    xs = list(xs)
    SHUFFLE(xs)
    return xs[:k]


random.sample = _sample

import clubs  # noqa: E402
from clubs import error  # noqa: E402,F401
from clubs.poker import Card, Dealer, Deck, Evaluator, LookupTable  # noqa: E402,F401

INF = float("inf")


def base_config(n, streets, **kw):
    cfg = dict(
        num_players=n, num_streets=streets, blinds=0, antes=0, raise_sizes="inf",
        num_raises=INF, num_suits=1, num_ranks=13, num_hole_cards=1,
        num_community_cards=[0] + [1] * (streets - 1), num_cards_for_hand=1,
        mandatory_num_hole_cards=0, start_stack=100)
    cfg.update(kw)
    return cfg


class StrengthStub(object):
    """replaces the hand evaluator's ranking by arbitrary strengths per player
    (one strength per set of hole cards), recording what it was asked."""

    def __init__(self, strengths):
        self.strengths = strengths
        self.calls = []
        self.hole = None

    def __call__(self, hole_cards, community_cards):
        self.calls.append((list(hole_cards), list(community_cards)))
        for p, h in enumerate(self.hole):
            if h is hole_cards or (len(h) == len(hole_cards) and
                                   all(a is b for a, b in zip(h, hole_cards))):
                return self.strengths[p]
        raise AssertionError("evaluated cards that belong to no player")


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def amax(xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if x > m else m
    return m


def amin(a, b):
    return a if a < b else b


def count(conds):
    return total([1 if c else 0 for c in conds])


def sym_stacks(ctx, n, lo=0, hi=None):
    st = [ctx.int("stack%d" % i, lo, hi) for i in range(n)]
    if lo <= 0:
        ctx.assume(count([s > 0 for s in st]) >= 2)
    return st


def copy_obs(obs):
    c = dict(obs)
    for k in ("active", "stacks", "street_commits", "community_cards", "hole_cards"):
        c[k] = list(c[k])
    return c


def is_zero(x):
    return isinstance(x, int) and x == 0


class Rec(object):
    """one step of the hand as seen from outside"""
    __slots__ = ("k", "actor", "before", "bet", "kind", "amount", "obs", "pay", "done", "fold")


class Monitor(object):
    def on_reset(self, g):
        pass

    def on_step(self, g, r):
        pass

    def on_end(self, g, r):
        pass


class Game(object):
    """one hand driven through the public API.

    ghost state: start (stacks before the hand), contrib (chips each seat put in,
    as far as it can be told from observations and canonical actions), folded."""

    def __init__(self, ctx, n, streets, raises="inf", cap=INF, blinds=None, antes=None,
                 stacks=None, button=0, strengths=True, cfg=None, config=None):
        self.ctx = ctx
        self.n = n
        self.streets = streets
        kw = dict(cfg or {})
        if blinds is not None:
            kw["blinds"] = blinds
        if antes is not None:
            kw["antes"] = antes
        kw["raise_sizes"] = raises
        kw["num_raises"] = cap
        self.config = base_config(n, streets, **kw)
        # config: a ready-made configuration; the other arguments then are its rules
        self.dealer = Dealer(**(config or self.config))
        d = self.dealer
        as_list = lambda v, k: list(v) if isinstance(v, list) else [v] * k  # noqa: E731
        self.blinds = as_list(self.config["blinds"], n)
        self.antes = as_list(self.config["antes"], n)
        self.raises = as_list(raises, streets)
        self.caps = as_list(cap, streets)
        self.community = as_list(self.config["num_community_cards"], streets)
        self.bb = self.blinds[1]
        self.start = list(stacks) if stacks is not None else list(d.stacks)
        d.stacks = list(self.start)
        d.button = (button - 1) % n
        self.button = button
        self.stub = None
        self.strengths = None
        if strengths:
            mr = d.evaluator.table.max_rank
            self.strengths = list(strengths) if isinstance(strengths, list) else [ctx.int("rank%d" % i, 0, mr) for i in range(n)]
            self.stub = StrengthStub(self.strengths)
            d.evaluator.evaluate = self.stub
        self.obs = None
        self.done = [False] * n
        self.pay = None
        self.k = 0

    def reset(self, monitors=()):
        self.raw_reset = self.dealer.reset()
        self.obs = copy_obs(self.raw_reset)
        if self.stub:
            self.stub.hole = self.dealer.hole_cards
        self.done = [False] * self.n
        self.pay = [0] * self.n
        self.over = False
        self.in_hand = [bool(a) for a in self.obs["active"]]
        self.contrib = [s - t for s, t in zip(self.start, self.obs["stacks"])]
        self.flow_start()
        for m in monitors:
            m.on_reset(self)
        return self.obs

    # the course of a hand by the rules, computed from the actions alone
    def chips(self, i):
        return self.start[i] - self.contrib[i]

    def flow_start(self):
        n = self.n
        self.street = 0
        self.new_street = True
        self.full = self.bb          # size of the last full raise
        self.nraises = 0             # full raises on this street
        # blinds are what was paid beyond the ante
        if all(self.in_hand):
            ante = [0] * n
            for k in range(n):
                ante[self.posting_seat(k)] = self.antes[k]
        else:
            # who posts uneven antes is not fixed when seats are empty
            ante = [self.antes[0] if self.in_hand[i] else 0 for i in range(n)]
        if all(self.in_hand) or all(a is self.antes[0] for a in self.antes):
            self.commits = [self.contrib[i] - amin(ante[i], self.start[i])
                            if not is_zero(ante[i]) else self.contrib[i] for i in range(n)]
        else:
            self.commits = list(self.obs["street_commits"])
        self.pending = [self.in_hand[i] and bool(self.chips(i) > 0) for i in range(n)]
        self.must_end = False
        self.showdown = False

    def flow_step(self, r):
        n, i = self.n, r.actor
        self.new_street = False
        self.pending[i] = False
        call = r.before["call"]
        if not r.fold:
            self.commits[i] = self.commits[i] + r.amount
            if r.amount > call:
                self.pending = [j != i and self.in_hand[j] and bool(self.chips(j) > 0)
                                for j in range(n)]
                size = self.raises[self.street]
                if r.amount - call >= (self.full if size in ("inf", "pot", INF) else size):
                    self.full = r.amount - call
                    self.nraises += 1
        if sum(self.in_hand) <= 1:
            self.must_end = True
            return
        if any(self.pending):
            return
        while True:
            self.street += 1
            if self.street >= self.streets:
                self.must_end = True
                self.showdown = True
                return
            pend = [self.in_hand[j] and bool(self.chips(j) > 0) for j in range(n)]
            if sum(pend) > 1:
                break
        self.pending = pend
        self.new_street = True
        self.nraises = 0
        self.commits = [0] * n

    def next_seat(self, i):
        """first seat clockwise after i that can act"""
        for k in range(1, self.n + 1):
            j = (i + k) % self.n
            if self.in_hand[j] and self.chips(j) > 0:
                return j
        return None

    def posting_seat(self, k):
        """seat that posts blinds[k] / antes[k] at a full table"""
        return (self.button + k) % self.n if self.n == 2 else (self.button + 1 + k) % self.n

    def legal(self, kind):
        """assume that the canonical action makes sense"""
        o = self.obs
        if kind == "f":
            self.ctx.assume(o["call"] > 0)
        elif kind == "r":
            self.ctx.assume(o["max_raise"] > o["call"])

    def step(self, bet, kind=None, monitors=()):
        """kind: f fold, c call or check, r raise (canonical, so that the amount is
        known from outside), None: arbitrary bet"""
        r = Rec()
        r.k = self.k
        r.before = self.obs
        r.actor = self.obs["action"]
        r.bet = bet
        r.kind = kind
        r.fold = kind == "f"
        r.amount = 0 if kind == "f" else bet
        self.raw_obs = self.dealer.step(bet)
        obs, pay, done = self.raw_obs
        self.obs, self.pay, self.done = copy_obs(obs), list(pay), list(done)
        r.obs, r.pay, r.done = self.obs, self.pay, self.done
        self.over = all(self.done) and self.obs["action"] == -1
        self.known = True
        if kind is None:
            # what an arbitrary bet amounted to is read off the next observation
            r.fold = not r.obs["active"][r.actor]
            if r.fold:
                r.amount = 0
            elif not self.over:
                r.amount = r.before["stacks"][r.actor] - r.obs["stacks"][r.actor]
            else:
                self.known = False
        if r.fold:
            self.in_hand[r.actor] = False
        elif self.known:
            self.contrib[r.actor] = self.contrib[r.actor] + r.amount
        if self.known:
            self.flow_step(r)
        self.k += 1
        for m in monitors:
            m.on_step(self, r)
        if self.over:
            for m in monitors:
                m.on_end(self, r)
        return r

    def act(self, letter, monitors=()):
        """one action; the letter says what is left open:
        a any integer, x fold/call/raise, p fold/call, F fold, C call, R raise"""
        ctx, k = self.ctx, self.k
        if letter == "a":
            return self.step(ctx.int("bet%d" % k), None, monitors)
        kinds = {"x": "fcr", "p": "fc", "n": "cr", "F": "f", "C": "c", "R": "r"}[letter]
        kind = ctx.choice("act%d" % k, list(kinds)) if len(kinds) > 1 else kinds
        self.legal(kind)
        if kind == "f":
            return self.step(-1, "f", monitors)
        if kind == "c":
            return self.step(self.obs["call"], "c", monitors)
        b = ctx.int("raise%d" % k)
        ctx.assume(b >= self.obs["min_raise"])
        ctx.assume(b <= self.obs["max_raise"])
        ctx.assume(b > self.obs["call"])
        return self.step(b, "r", monitors)


def sym_blinds(ctx, n, kind):
    if kind == "sym":      # two ordered blinds
        sb = ctx.int("sb", 0)
        bb = ctx.int("bb", 0)
        ctx.assume(sb <= bb)
        return [sb, bb] + [0] * (n - 2)
    if kind == "any":      # arbitrary blinds
        return [ctx.int("blind%d" % i, 0) for i in range(n)]
    if kind == "none":
        return [0] * n
    return list(kind) + [0] * (n - len(kind))


def sym_antes(ctx, n, kind):
    if kind == "sym":
        return ctx.int("ante", 0)
    if kind == "bb":       # big blind ante
        return [0, ctx.int("ante", 0)] + [0] * (n - 2)
    if kind == "any":
        return [ctx.int("ante%d" % i, 0) for i in range(n)]
    return kind


def sym_raises(ctx, kind):
    """'fixed' stands for arbitrary fixed raise sizes"""
    if isinstance(kind, (list, tuple)):
        return [ctx.int("size%d" % i, 0) if r == "fixed" else r for i, r in enumerate(kind)]
    return ctx.int("size", 0) if kind == "fixed" else kind


def earlier(ctx, g, letters):
    """a hand played before"""
    g.reset()
    for letter in letters:
        g.act(letter)
        if g.over:
            break
    ctx.assume(bool(g.over))
    g.start = list(g.dealer.stacks)
    ctx.assume(count([s > 0 for s in g.start]) >= 2)
    g.button = (g.button + 1) % g.n
    g.k = 0
    ctx.cover("second hand")
    ctx.flush()


def play(ctx, mons=(), n=2, streets=1, acts="xx", tail=0, raises="inf", cap=INF, blinds="none",
         antes=0, stacks="sym", button=0, lo=0, strengths=True, cfg=None, config=None, first=None):
    """play one hand: the given actions, then calls until the hand is over (at
    most tail of them); mons are monitor factories; first: actions of a hand
    played before that one, at the same table"""
    if stacks == "sym":
        st = sym_stacks(ctx, n, lo)
    else:
        st = list(stacks)
    if button == "sym":
        button = ctx.choice("button", list(range(n)))
    g = Game(ctx, n, streets, raises=sym_raises(ctx, raises), cap=cap,
             blinds=sym_blinds(ctx, n, blinds), antes=sym_antes(ctx, n, antes), stacks=st,
             button=button, strengths=strengths, cfg=cfg, config=config)
    if first is not None:
        earlier(ctx, g, first)
    ms = [m(ctx) for m in mons]
    g.reset(ms)
    ctx.flush()
    for letter in acts + "C" * tail:
        g.act(letter, ms)
        ctx.flush()
        if g.over:
            ctx.cover("hand over")
            break
    ctx.log("action", g.obs["action"])
    ctx.log("stacks", g.obs["stacks"])
    ctx.log("pot", g.obs["pot"])
    ctx.log("commits", g.obs["street_commits"])
    ctx.log("active", g.obs["active"])
    ctx.log("sizes", [g.obs["call"], g.obs["min_raise"], g.obs["max_raise"]])
    ctx.log("pay", g.pay)
    ctx.log("done", g.done)
    ctx.log("board", len(g.obs["community_cards"]))
    return g


def describe(p):
    """bounds of a play() case in words"""
    return ("%(n)d seats, %(streets)d street(s), actions %(acts)r then up to %(tail)d calls, "
            "raise sizes %(raises)s, raise cap %(cap)s, blinds %(blinds)s, antes %(antes)s, "
            "stacks %(stacks)s, button %(button)s, hand before %(first)s" % dict(
                dict(first=None, n=2, streets=1, acts="xx", tail=0, raises="inf", cap=INF, blinds="none",
                     antes=0, stacks="sym", button=0), **p))


def case(name, mons, covers=("hand over",), fn=play, opts=None, **params):
    return dict(name=name, fn=fn, params=dict(mons=mons, **params), covers=covers,
                opts=dict(opts or {}), bounds=describe(params))


def wide(M, S, strengths=True, letter="x"):
    """larger tables and later streets, with few open actions and given stacks"""
    st = (10, 20, 30, 40, 50, 60, 70, 80, 90)
    by_cards = lambda n: strengths and [3, 1, 2, 1, 3, 2, 1, 3, 2][:n]  # noqa: E731
    word = lambda w: w.replace("x", letter)  # noqa: E731
    late = dict(num_community_cards=[0, 3, 1, 1])
    return [
        case("second hand after a fold", M, S + ("second hand",), n=2, streets=2, first="RRF", acts=word("xx"),
             tail=6, blinds=(1, 2), lo=4, cap=3, strengths=by_cards(2)),
        case("second hand after a showdown", M, S + ("second hand",), n=3, streets=2,
             first="CCC" + "CRCC" + "C" * 4, acts=word("xx"), tail=8, blinds=(1, 2), antes=1, stacks=(30, 50, 40),
             button=1, cap=2, strengths=by_cards(3)),
        case("second hand with empty seats", M, S + ("second hand",), n=4, streets=2, first="RCCC" + "C" * 8,
             acts=word("xx"), tail=8, blinds=(1, 2), stacks=(30, 6, 40, 50), button=1,
             strengths=[2, 3, 1, 1] if strengths else False),
        case("late streets", M, S, n=3, streets=4, acts=word("CCCCCCxxx"), tail=8, blinds=(1, 2), lo=0,
             stacks=(30, 12, 25), button=1, strengths=by_cards(3), cfg=late),
        case("last street", M, S, n=2, streets=4, acts=word("CCCCCCxx"), tail=4, lo=1,
             blinds=(1, 2), button=1, strengths=by_cards(2), cfg=late),
        case("raises on every street", M, S, n=3, streets=3, acts=word("nnnnnnnnnn"), tail=8, blinds=(1, 2),
             stacks=(60, 70, 80), raises=[2, 2, 4], cap=[1, 1, 1], strengths=by_cards(3)),
        case("bets on every street", M, S, n=2, streets=4, acts=word("RCRCRCxx"), tail=4, blinds=(1, 2),
             stacks=(200, 300), button=1, strengths=by_cards(2), cfg=late),
        case("straddle", M, S, n=4, streets=2, acts=word("xxx"), tail=8, blinds=(1, 2, 4), antes=1,
             stacks=(40, 30, 20, 10), strengths=by_cards(4)),
        case("busted seats", M, S, n=6, streets=2, acts=word("xx"), tail=12, blinds=(1, 2), button="sym",
             stacks=(40, 0, 30, 0, 20, 10), strengths=by_cards(6)),
        case("six seats", M, S, n=6, streets=2, acts=word("xxp"), tail=12, blinds=(1, 2), button=4,
             stacks=st[:6], strengths=by_cards(6)),
        case("nine seats", M, S, n=9, streets=1, acts=word("xpppp"), tail=9, blinds=(1, 2), antes=1,
             button=7, stacks=st[::-1], strengths=by_cards(9)),
    ]


ACTION_KEY = ("letters: a = any integer bet, x = fold / call / any legal raise, p = fold / call, "
              "n = call / raise, F, C, R = that action; stacks, blinds, antes and raise sizes "
              "marked sym/any/fixed are arbitrary non-negative integers without upper bound")
