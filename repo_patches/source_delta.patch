From a4eb82c2272e2eb0a1463daf7769a0f540c1169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 01/21] fix: blinds and antes never take more than a player's
 stack

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..d307b3f 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -591,8 +591,9 @@ class Dealer:
     ) -> None:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
+        # bets only as large as stack size
         bets = [
-            (stack > 0) * active * bet
+            active * min(stack, bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From 2023abf64c515fd75f1c79e2123e018162e9a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 02/21] fix: a tied player whose chips are used up no longer
 shares in later side pots

---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d307b3f..533d0d5 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -711,6 +711,8 @@ class Dealer:
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
+            # remove player from next split pot
+            hands[hand_idx][1] = worst_hand
             if not split_pot:
                 continue
             split = split_pot // len(eligible)
@@ -722,8 +724,6 @@ class Dealer:
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
             pot -= split_pot
-            # remove player from next split pot
-            hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
         # give worst position player remainder chips
-- 
2.43.0


From 67ce098e400865b90bccef1ac83a3481d41af788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 03/21] fix: odd chips of a split pot go to the first winner
 after the button

The seat index was computed without wrapping around the table, which raised
IndexError or paid the wrong player.
---
 clubs/poker/engine.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 533d0d5..2b579d9 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -697,7 +697,6 @@ class Dealer:
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
         pot = self.pot
-        remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
@@ -719,20 +718,18 @@ class Dealer:
             remain = split_pot % len(eligible)
             for player_idx in eligible:
                 payouts[player_idx] += split
-            remainder += remain
+            # give worst position player remainder chips, worst player
+            # is first eligible player after button
+            worst_player = min(
+                eligible, key=lambda idx: (idx - self.button - 1) % self.num_players
+            )
+            payouts[worst_player] += remain
             # remove chips from players and pot
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
             pot -= split_pot
             if pot == 0:
                 break
-        # give worst position player remainder chips
-        if remainder:
-            # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
-                    payouts[player_idx] += remainder
-                    break
         return payouts
 
     def _move_action(self) -> "Dealer":
-- 
2.43.0


From e57ddaa8e516faa0f6430b62d02db653f4e89788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 04/21] fix: players without chips are not asked to act, all-in
 hands are dealt to the end

---
 clubs/poker/engine.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 2b579d9..620470f 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -313,7 +313,8 @@ class Dealer:
             self._move_action()
         self._collect_multiple_bets(bets=self.antes, street_commits=False)
         self._collect_multiple_bets(bets=self.blinds, street_commits=True)
-        self._move_action()
+        # big blind may be all in but first to act is player after big blind
+        self._move_action(skip_all_in=False)
         self._move_action()
 
         return self._observation(False)
@@ -732,11 +733,12 @@ class Dealer:
                 break
         return payouts
 
-    def _move_action(self) -> "Dealer":
+    def _move_action(self, skip_all_in: bool = True) -> "Dealer":
         action = self.action
         for idx in range(1, self.num_players + 1):
             action = (self.action + idx) % self.num_players
-            if self.active[action]:
+            # players without chips left have nothing to decide
+            if self.active[action] and (self.stacks[action] or not skip_all_in):
                 break
             else:
                 self.street_option[action] = True
-- 
2.43.0


From 7f46a661421a60f8b9bcaadca5b6efb8910a48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 05/21] fix: payouts of a hand won by folds stay the same after
 the hand is over

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 620470f..bdc5a82 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -655,7 +655,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
-- 
2.43.0


From 13579df8b5e1d9b8b35eed1e97dd769275c9174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 06/21] fix: valid raises are not rounded when the minimum
 raise is 0

---
 clubs/poker/engine.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index bdc5a82..d2128bf 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -577,13 +577,14 @@ class Dealer:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
-        idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
+        closest_raise = round(min(max_raise, max(min_raise, bet)))
+        idx = argmin([abs(value - bet) for value in [0, call, closest_raise]])
         # if call closest
         if idx == 1:
             return call
-        # if min raise or max raise closest
-        if idx in (2, 3):
-            return round(min(max_raise, max(min_raise, bet)))
+        # if raise closest
+        if idx == 2:
+            return closest_raise
         # if check/fold closest
         return 0
 
-- 
2.43.0


From d9194d6780869bcd478faeabba1e1d9a4ba79a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 07/21] fix: a tricked deck keeps its order when all its cards
 are tricked

---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..9559090 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked and self._top_idcs:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From c29baf1244ea8a063ee746c744cb0283e5f2763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 08/21] fix: raise_sizes accepts float('inf') as documented

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d2128bf..5ce6512 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,7 +174,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size in ("inf", float("inf")):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From 1d062593bc5f3f7462c6ec9e30a9c27b75bd829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 09/21] fix: history records whether the player folded

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 5ce6512..10c906e 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -374,7 +374,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and ((bet < call) or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
@@ -385,7 +386,7 @@ class Dealer:
 
         self._collect_bet(bet)
 
-        self.history.append((self.action, int(bet), bool(fold)))
+        self.history.append((self.action, int(bet), fold))
 
         self.street_option[self.action] = True
         self._move_action()
-- 
2.43.0


From c47dff66b2f5dd8662844a738775341df6036a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:01 +0000
Subject: [PATCH 10/21] fix: observations do not change or expose the dealer's
 state after they are returned

---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 10c906e..ce9a196 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -635,16 +635,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": list(self.active),
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": list(self.community_cards),
+            "hole_cards": list(self.hole_cards[self.action]),
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": list(self.stacks),
+            "street_commits": list(self.street_commits),
         }
         return observation
 
-- 
2.43.0


From a94445ff8cfcae10394fb1650df74dc07aeef1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 11/21] fix: every full raise of a fixed limit street counts
 towards the raise cap

---
 clubs/poker/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ce9a196..dfc7273 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -380,7 +380,9 @@ class Dealer:
             bet = 0
 
         # if bet is full raise record as largest raise
-        if bet and (bet - call) >= self.largest_raise:
+        raise_size = self.raise_sizes[self.street]
+        full_raise = raise_size if isinstance(raise_size, int) else self.largest_raise
+        if bet > call and (bet - call) >= full_raise:
             self.largest_raise = bet - call
             self.street_raises += 1
 
-- 
2.43.0


From c429f76cc2e0ff7af659cbda487affec1e3ac344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 12/21] fix: pot limit maximum raise is never below the minimum
 raise

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index dfc7273..edb6164 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -557,7 +557,7 @@ class Dealer:
         else:
             min_raise = max(self.big_blind, self.largest_raise + call)
             if raise_size == "pot":
-                max_raise = self.pot + call * 2
+                max_raise = max(min_raise, self.pot + call * 2)
             elif raise_size == float("inf"):
                 max_raise = self.stacks[self.action]
         # if maximum number of raises in street
-- 
2.43.0


From 87c75df150b673ec02f6c5c988ab6549ec5473fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 13/21] fix: antes only some players post are won at showdown
 instead of refunded

---
 clubs/poker/engine.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index edb6164..ef491ad 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -205,6 +205,7 @@ class Dealer:
         self.action = -1
         self.active = [False] * self.num_players
         self.button = 0
+        self.dead_commits = [0] * self.num_players
         self.community_cards: List[poker.Card] = []
         self.deck = poker.Deck(self.num_suits, self.num_ranks)
         self.evaluator = poker.Evaluator(
@@ -312,6 +313,11 @@ class Dealer:
         if self.num_players > 2:
             self._move_action()
         self._collect_multiple_bets(bets=self.antes, street_commits=False)
+        # antes above the lowest ante, e.g. a big blind ante, are dead money
+        lowest_ante = min(self.antes)
+        self.dead_commits = [
+            max(0, pot_commit - lowest_ante) for pot_commit in self.pot_commits
+        ]
         self._collect_multiple_bets(bets=self.blinds, street_commits=True)
         # big blind may be all in but first to act is player after big blind
         self._move_action(skip_all_in=False)
@@ -696,9 +702,15 @@ class Dealer:
         # grab array of hand strength and pot commits
         hand_strengths = self._eval_hands(self.hole_cards, self.community_cards)
         hands: List[List[int]] = [
-            [player_idx, hand_strength, self.pot_commits[player_idx]]
+            [
+                player_idx,
+                hand_strength,
+                self.pot_commits[player_idx] - self.dead_commits[player_idx],
+            ]
             for player_idx, hand_strength in enumerate(hand_strengths)
         ]
+        # dead money belongs to the best hand
+        dead_pot = sum(self.dead_commits)
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
         pot = self.pot
@@ -714,7 +726,8 @@ class Dealer:
             ]
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
-            split_pot = sum(cut)
+            split_pot = sum(cut) + dead_pot
+            dead_pot = 0
             # remove player from next split pot
             hands[hand_idx][1] = worst_hand
             if not split_pot:
-- 
2.43.0


From 7c6c4e9bbf03885a4e7537d6f64839cbf01ccd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 14/21] fix: there is no way to choose more ranks than the deck
 has

---
 clubs/poker/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..9af8330 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -661,6 +661,8 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
 
 
 def _ncr(n: int, r: int) -> int:
+    if r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From 922a0a562f59a28f012bb7271664b4aac83f40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 15/21] fix: decks with few ranks do not count straights twice
 or negatively

---
 clubs/poker/evaluator.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 9af8330..d19341e 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -349,7 +349,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -389,7 +389,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = _num_straights(ranks, cards_for_hand, low_end_straight)
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -403,7 +403,7 @@ class LookupTable:
         if cards_for_hand < 3:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -464,7 +464,7 @@ class LookupTable:
         # number of smallest cards which start straight
         straights = 0
         if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+            straights = _num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -486,7 +486,8 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        # without spare ranks the low end straight is the best straight
+        if low_end_straight and ranks > cards_for_hand:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -660,6 +661,14 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
         yield lex
 
 
+def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+    straights = max(0, ranks - (cards_for_hand - 1))
+    # without spare ranks the low end straight is the best straight
+    if low_end_straight and ranks > cards_for_hand:
+        straights += 1
+    return straights
+
+
 def _ncr(n: int, r: int) -> int:
     if r > n:
         return 0
-- 
2.43.0


From 9903d63edc03a6cb8ce2b98a4259e4f6bcb7b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 16/21] fix: high cards of hands too small for flushes are
 counted with equal suits

---
 clubs/poker/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index d19341e..6606ddd 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -469,7 +469,8 @@ class LookupTable:
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
         # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        flushes = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - flushes))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From b2210d96fdcbb1b8bf05bbcc740b8d289b84070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 17/21] fix: straight flushes are ranked when the deck has no
 other flushes

---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 6606ddd..97c60a4 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not suited_lookup:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
-- 
2.43.0


From 7a2c856a79f8e294e4f93eeb8e9002c8dbd9c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 18/21] fix: custom hand orders may name hands the deck cannot
 make

---
 clubs/poker/evaluator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 97c60a4..2849133 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -525,8 +525,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -535,15 +535,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -571,7 +571,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From 62a6b9eca286291847f18ebd9adb55b15e8c4f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 19/21] fix: do not draw a hand as finished while players are
 all in from the forced bets

With everybody all in after reset() the text and browser views showed all
hole cards, an empty pot and a winner line although the hand was still
being played.
---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ef491ad..f3afca8 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -447,7 +447,8 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        # players can be all in from the forced bets before the hand is over
+        done = self.action == -1 and all(self._done())
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From 675f082d4682442bc0b622ab33036ba24ff0e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:22 +0000
Subject: [PATCH 20/21] fix: the browser view is served at the host it was
 asked for

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..7f21f84 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -145,7 +145,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From b9c0ae61aa86623744cc6ba64e7f03f1848e957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 21/21] fix: the server process is ended when the browser view
 cannot be opened

---
 clubs/render/graphic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 7f21f84..377aecf 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -59,8 +59,12 @@ class GraphicViewer(viewer.PokerViewer):
         self.process = multiprocessing.Process(target=self._run_flask)
         self.process.start()
 
-        self._test_socket_conn()
-        self._test_flask_conn()
+        try:
+            self._test_socket_conn()
+            self._test_flask_conn()
+        except error.RenderInitializationError:
+            self.close()
+            raise
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
     def _test_socket_conn(self) -> None:
@@ -94,7 +98,8 @@ class GraphicViewer(viewer.PokerViewer):
 
     def close(self) -> None:
         if self.process.is_alive():
-            self.socket.send({"content": "close"})
+            if hasattr(self, "socket"):
+                self.socket.send({"content": "close"})
             self.process.terminate()
             self.process.join()
 
-- 
2.43.0

