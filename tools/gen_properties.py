"""writes properties.jsonl (run by hand when a property changes)"""
import json
import os

E = "clubs/poker/engine.py"
EV = "clubs/poker/evaluator.py"
CA = "clubs/poker/card.py"
AS = "clubs/render/ascii_viewer.py"
GR = "clubs/render/graphic.py"

P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


STEP = ("Dealer.step", E + ": Dealer.step")
RESET = ("Dealer.reset", E + ": Dealer.reset")
OBS = ["dict returned by Dealer.reset() and Dealer.step()", "payouts and done lists returned by Dealer.step()"]

prop("C01", "Chips are conserved",
     "At every moment of a hand the chips in front of the players plus the pot equal what the players brought to "
     "the hand. When the hand ends the pot is empty, the payouts add up to exactly zero, and every player's stack is "
     "the stack from before the hand plus that player's payout.",
     ["histories", "inputs", "configurations"],
     "all action sequences, bets, starting stacks, blinds, antes and raise structures of a hand",
     "The tests play a few dozen hands with fixed stacks and compare hand-written payouts; conservation has to hold "
     "for every combination of stacks, short blinds, side pots, ties and odd chips, which is an infinite set.",
     [E], [STEP, RESET, ("Dealer._collect_bet", E), ("Dealer._collect_multiple_bets", E), ("Dealer._eval_round", E),
           ("Dealer._payouts", E)],
     [("pot / stacks / pot_commits", "chips in the middle, behind, and put in per player", E)], OBS)

prop("C02", "Nobody ever bets chips they do not have",
     "No stack, pot or street bet is ever negative, posting blinds and antes takes at most what a player has, and an "
     "action only ever moves chips from the acting player's stack into the pot. A player who cannot cover a blind, "
     "ante or bet is all in with what is left and can lose no more than was brought to the hand.",
     ["histories", "inputs", "configurations"],
     "all bets (any integer), stacks, blinds and antes, including stacks smaller than the blind or ante",
     "Tests use stacks that cover the blinds nearly everywhere; the guarantee is about every short stack and every "
     "out-of-range bet.",
     [E], [("Dealer._collect_bet", E), ("Dealer._collect_multiple_bets", E), ("Dealer._bet_sizes", E), STEP],
     [("stacks", "chips behind", E)], OBS)

prop("C03", "Offered bet sizes follow the betting structure",
     "Every observation offers the player to act the right call and the right smallest and largest raise: the call "
     "matches the street's highest bet, fixed-limit raises are exactly the street's size, pot-limit raises go up to "
     "the pot after calling, no-limit raises up to the stack, and a raise is at least the last full raise; all are "
     "limited by the player's stack. A player not facing a full raise since their own last full raise cannot re-raise.",
     ["histories", "inputs", "configurations"],
     "all positions reachable by legal actions, for fixed, pot and no limit, every stack, blind and raise size",
     "Tests check offered sizes at a few dozen positions with fixed numbers; short all-in raises, pot sizes after "
     "several raises and stack limits interact in unboundedly many ways.",
     [E], [("Dealer._bet_sizes", E), STEP], [("largest_raise", "size of the last full raise of the hand", E),
                                            ("street_raises", "full raises on the street", E)], OBS)

prop("C04", "Any bet becomes the nearest legal action",
     "Any integer passed as a bet is turned into the closest of: nothing, the call, or a raise between the offered "
     "smallest and largest raise, taking the smaller amount when two are equally close. The player folds exactly when "
     "a bet has to be called and the amount is negative or rounds to nothing; with nothing to call it is a check.",
     ["inputs", "histories", "configurations"],
     "all integer bets (negative to arbitrarily large) in every reachable position",
     "Tests try a handful of bets per position; ties between candidate sizes and out-of-range bets depend on "
     "every combination of call, raise bounds and stack.",
     [E], [("Dealer._clean_bet", E), STEP, ("argmin", E)], [], OBS)

prop("C05", "The raise cap per street is never exceeded",
     "On every street the number of full raises never exceeds the configured maximum for that street: once it is "
     "reached no raise is offered and no bet, however large, puts in more than a call until the next street, where "
     "counting starts again. Only full raises count: a call or a shorter all-in never uses up the cap.",
     ["histories", "inputs", "configurations"],
     "all bet sequences, caps and raise structures, including bets far above what is offered",
     "Tests cover a cap in one or two hands; whether a raise counts depends on stacks, sizes and all earlier actions.",
     [E], [("Dealer._bet_sizes", E), STEP], [("street_raises", "full raises on the street", E)], OBS)

prop("C06", "Turns go round the table in order",
     "While anyone can act, the player to act is in the hand and has chips left. The first action of a hand is on the next such "
     "player after the big blind, every later street starts with the first one after the button, within a "
     "street action moves clockwise, and nobody who has already matched the current bet is asked again before "
     "somebody raises.",
     ["histories", "inputs", "configurations"],
     "all action sequences, stacks, button positions and numbers of players",
     "Tests follow a few orders with everybody having chips; folded and all-in seats in every pattern and at every "
     "button position decide who is next.",
     [E], [("Dealer._move_action", E), ("Dealer._all_agreed", E), STEP, RESET],
     [("action", "seat to act", E), ("street_option", "who has had a turn on the street", E)], OBS)

prop("C07", "Streets change exactly when betting is settled",
     "A new street starts exactly when every player who can act has acted and matched the highest bet; then the "
     "street's bets start again from zero and exactly the configured number of community cards has been turned up. "
     "Cards already on the table never change, and a showdown always has the complete board, also when the betting "
     "ended early because players are all in.",
     ["histories", "inputs", "configurations"],
     "all action sequences, stacks and board layouts, including all-in run-outs and all-fold hands",
     "Tests check street changes for a few betting lines; the condition involves all seats' bets, stacks and turns.",
     [E], [("Dealer._all_agreed", E), STEP], [("street", "current street", E), ("community_cards", "board", E)], OBS)

prop("C08", "A hand ends when it must, and always ends",
     "A hand is over exactly when one player is left or the last street's betting is settled (no further betting "
     "when at most one player still has chips); it is never over earlier and between two raises no player acts "
     "more than once on a street, so it always ends. While it runs, the returned flags mark exactly the folded and "
     "all-in players and the payouts are the chips folded players have lost.",
     ["histories", "inputs", "configurations"],
     "all action sequences, stacks and table sizes",
     "Termination and the exact end condition quantify over complete histories of a hand; tests play a few of them.",
     [E], [STEP, ("Dealer._done", E), ("Dealer._payouts", E), ("Dealer._all_agreed", E)],
     [("street", "current street", E), ("active", "players in the hand", E)], OBS)

prop("C09", "The last player left wins the whole pot",
     "When everybody else has folded, the remaining player wins exactly the chips all others put in during the hand, "
     "whatever the cards, and every player who folded loses exactly what was put in.",
     ["histories", "inputs", "configurations"],
     "all betting lines that end by folds, all stacks, blinds and antes",
     "Tests check a few fold-outs; amounts depend on blinds, antes, all-ins and which seats folded when.",
     [E], [("Dealer._payouts", E), STEP], [("pot_commits", "chips put in per player", E)], OBS)

prop("C10", "At showdown every pot goes to the best hand that paid for it",
     "At showdown the chips are split into a main pot and side pots by how much each player put in, and each goes to "
     "the best hands among the players who covered it, so an all-in player wins at most as much from each opponent as "
     "that player put in. Equal hands share a pot equally with odd chips going to the first of them left of the "
     "button, and an ante only some positions post (a big blind ante) belongs to the main pot.",
     ["inputs", "histories", "configurations"],
     "all combinations of amounts put in, all-ins, folded players, hand strengths (including every pattern of ties) "
     "and button positions",
     "The payout tests fix about a dozen stack and strength patterns; amounts, ties and odd chips combine freely.",
     [E], [("Dealer._eval_round", E), ("Dealer._payouts", E), ("Dealer._eval_hands", E)],
     [("pot_commits / dead_commits", "chips put in per player, antes not owned by the player", E)], OBS)

prop("C11", "After the hand nothing changes until the next one",
     "Once a hand is over, further actions change no stack, and keep returning the hand's final payouts, with every "
     "player done and nobody to act. Acting before the first hand is an error, dealing a hand with fewer than two "
     "players who have chips is an error that leaves all stacks alone, and asking for fresh stacks gives everybody the starting stack.",
     ["histories", "inputs", "configurations"],
     "all hands (fold wins and showdowns, ties, side pots), any number of further actions with any bets",
     "Tests call the dealer once after one finished hand; repeat calls have to be stable after every possible hand.",
     [E], [STEP, RESET, ("Dealer._payouts", E)], [("action", "-1 between hands", E), ("stacks", "chips", E)], OBS)

prop("C12", "Observations tell the truth and nothing else",
     "During a hand every observation shows the real stacks, bets, pot, button, board and players in the hand, together with the "
     "acting player's own hole cards and nobody else's. An observation once returned never changes, and changing it "
     "does not affect the game.",
     ["histories", "inputs", "configurations"],
     "all points of all hands, for every seat",
     "Tests compare a few fields at a few points; leaks and aliasing show up only in later steps of particular hands.",
     [E], [("Dealer._observation", E), STEP, RESET], [("hole_cards", "cards of every player", E)], OBS)

prop("C13", "Every card is dealt exactly once, and tricked decks keep their order",
     "A shuffled deck contains every card of the configured deck exactly once, drawing hands out the top cards in "
     "order without ever repeating or losing one, and the players' hole cards, the board and the undealt cards of a "
     "hand never share a card. After tricking the deck, the chosen cards come off the top in the given order on every "
     "later shuffle and deal until it is untricked, whatever the shuffle does to the rest.",
     ["inputs", "schedules", "configurations", "histories"],
     "all shuffles (permutations), draw sizes, tricked orders and deck sizes",
     "Tests shuffle with one random outcome and check two tricked orders; the guarantee is for every shuffle outcome.",
     [CA, E], [("Deck.shuffle", CA), ("Deck.draw", CA), ("Deck.trick", CA), ("Deck.untrick", CA), RESET],
     [("cards", "undealt cards in order", CA)],
     ["Deck.draw()", "Deck.cards", "hole and community cards of a hand"])

prop("C14", "A card text names one card, and anything else is rejected",
     "A two-character text of a rank and a suit, in upper or lower case, makes the card of that rank and suit, shown "
     "as its rank and suit symbol; its number packs rank bit, suit bit, rank index and prime as documented, and cards "
     "are equal exactly when rank and suit are. Any other rank or suit character is rejected with the error for "
     "ranks or suits respectively.",
     ["inputs"], "all pairs of characters",
     "Tests build three valid cards and two invalid ones out of all character pairs.",
     [CA], [("Card.__init__", CA), ("Card.__eq__", CA), ("Card.__and__ / __or__ / shifts", CA)], [],
     ["Card(), str(card), int(card), =="])

prop("C15", "Hand ranking orders any two hands of a deck by the rules of poker",
     "For every supported deck, hand size and option (low straight, custom order), two hands of the same category "
     "compare by the rules of poker: first by the ranks that make the category, larger multiples first, then by "
     "kickers from high to low, straights by their top card, and suits never decide. Hands in different categories compare as their "
     "categories do, and equal hands always get equal ranks.",
     ["inputs", "configurations"],
     "all pairs of hands of a deck, for every supported number of suits, ranks and cards per hand",
     "Tests check the number of ranks per category and a dozen hands of the 52-card deck; a misplaced entry in a "
     "table of thousands of hands, or in another deck, goes unseen.",
     [EV], [("LookupTable.lookup", EV), ("LookupTable._flushes", EV), ("LookupTable._multiples", EV),
            ("LookupTable._gen_straight_flush / _gen_flush", EV), ("_prime_product_from_hand / _rank_bits", EV)],
     [("suited_lookup / unsuited_lookup", "prime product to rank", EV)], ["Evaluator.evaluate()"])

prop("C16", "A player's hand is the best one the cards and the game allow",
     "The rank given to a player's cards is that of the best hand that can be made from exactly the configured number "
     "of cards, using exactly the required number of hole cards when the game demands it and any cards otherwise. It "
     "does not depend on the order in which the cards are given, and the cards are left as they were.",
     ["inputs", "configurations"],
     "all sets of hole and board cards, with and without required hole cards, on complete and incomplete boards",
     "Tests evaluate a dozen fixed card sets.",
     [EV], [("Evaluator.evaluate", EV), ("LookupTable.lookup", EV)], [], ["Evaluator.evaluate()"])

prop("C17", "Every hand rank belongs to exactly the category it is reported as",
     "Translating a hand rank to its category returns the category that the hand's cards form, for every hand and rank of every "
     "supported deck, and a better rank is never reported as a worse category. Negative ranks "
     "and ranks worse than the worst hand are rejected.",
     ["inputs", "configurations"], "all integers as rank, for every supported deck and order",
     "Tests check a few ranks at category borders of one deck.",
     [EV], [("Evaluator.get_rank_class", EV), ("LookupTable.__init__", EV)],
     [("hand_dict", "size and cumulative size per category", EV)], ["Evaluator.get_rank_class()"])

prop("C18", "Hand categories are ordered by how rare they are, or as asked",
     "Without a custom order, hand categories beat one another exactly by how few of the deck's hands belong to them, "
     "for every supported deck, hand size and straight option, and the shown percentages are the true shares. With a "
     "custom order the categories beat one another in that order, and an order that leaves one out is rejected.",
     ["configurations", "inputs"],
     "all decks of 1-4 suits and 1-13 ranks, hand sizes 1-5, with and without low straights, all custom orders",
     "Tests check one or two decks; the counting formulas have corner cases at few suits, few ranks and small hands.",
     [EV], [("LookupTable.__init__", EV), ("LookupTable._straight_flush .. _high_card", EV), ("Evaluator.__init__", EV)],
     [("ranked_hands", "categories from best to worst", EV)], ["Evaluator.evaluate()", "str(Evaluator)", "Evaluator.get_rank_class()"])

prop("C19", "Win probabilities are the exact shares over all remaining boards",
     "Win probabilities count, over every possible completion of the board from the undealt cards, how often each "
     "player has the best hand among those still in, a tie counting once for each winner, divided by all such counts: "
     "they are between 0 and 1, add up to 1, and are 0 for folded players. Asking for them does not change the hand.",
     ["inputs", "histories", "configurations"],
     "all strengths of every player on every completion, all patterns of folded players, at every street",
     "Tests compare one fixed deal's result; every pattern of ties and folds over all completions matters.",
     [E], [("Dealer.win_probabilities", E), ("Dealer._eval_hands", E)], [], ["Dealer.win_probabilities()"])

prop("C20", "The text view shows exactly what may be seen",
     "The text rendering shows every player's stack and street bet, the pot, the board and the button at the right "
     "places, the last action and who acts next, or at the end who won how much. Hole cards of players other than "
     "the one to act stay hidden until the hand is over, and those of folded players are never shown.",
     ["histories", "inputs", "configurations"],
     "all hands at every step, every seat, any stacks and bets",
     "Tests compare two or three complete pictures; a wrong seat or a leaked card depends on the course of the hand.",
     [AS, E], [("ASCIIViewer._parse_string", AS), ("ASCIIViewer._parse_players", AS), ("_parse_action_string", AS),
               ("_parse_win_string", AS), ("Dealer._render_config", E), ("Dealer.render", E)], [],
     ["str(dealer)", "viewer output"])

prop("C21", "The browser view is sent the true state of the table",
     "Every rendered state sent to the browser is plain data: cards as rank and suit texts, numbers and flags "
     "only, with the table's stacks, bets, pot, board, turn, button, last action and payouts at that moment. Rendering "
     "never changes the game's own state.",
     ["histories", "inputs", "configurations"],
     "all hands at every step, any stacks and bets, any nesting of cards",
     "Tests render one configuration.",
     [GR, E], [("GraphicViewer.render", GR), ("GraphicViewer._convert_hands / _jsonify", GR), ("Dealer._render_config", E),
               ("Dealer.render", E)], [], ["message sent to the web server process"])

prop("C22", "Seats, bets and cards are drawn in their places around the table",
     "The drawing goes round the table on a rounded outline (two straight sides, two half circles), from the middle of "
     "the bottom side to the left: every share of the way round, however many rounds are added, is the point at that "
     "share of the outline's length. Seat i of n is centred at share i/n of the outline 100 units wider and higher than "
     "the table, its bet at share i/n of the one 225 narrower and 185 lower. For 2-10 seats, 1-5 hole cards and 0-5 "
     "board cards every seat, bet, button, card and the pot is there once, labelled uniquely and inside its box, cards "
     "side by side in order and in the middle of their box, the board and pot on the middle of the table, and no two "
     "seats, bets or cards overlap.",
     ["configurations", "inputs"], "every real share of the way round; all numbers of seats, hole and board cards within "
     "the bounds",
     "Tests check that elements exist for one size; places are never compared.",
     [GR], [("_SVGPoker._base_svg", GR), ("_RoundedRectangle.edge", GR), ("_SVGPoker.add_players", GR),
            ("_SVGPoker.add_community", GR), ("_SVGPoker.add_street_commits", GR)], [], ["base SVG"])

prop("C23", "Configurations mean the same however they are written, and bad ones are refused",
     "A single value for blinds, antes, raise sizes, raise caps or board cards means the same game as the list "
     "repeating it for every player or street. Lists of the wrong length, unknown raise sizes, impossible decks and "
     "hand sizes are refused with the error for that kind of mistake, and valid configurations never are.",
     ["configurations", "inputs", "histories"],
     "all values and list lengths, compared over all action sequences of a hand",
     "Tests build a handful of configurations; equality of the two games has to hold for every value and betting line.",
     [E, CA, EV], [("Dealer.__init__", E), ("Deck.__init__", CA), ("Evaluator.__init__", EV)], [],
     ["Dealer(), Deck(), Evaluator()", "observations"])

prop("C24", "Button, blinds and antes move round the table, and chips carry over",
     "The button moves one seat every hand unless reset to the first seat; at a full table of more than two seats the "
     "blind and ante lists apply to the seats left of the button in order, at a two-seat table to the button first. Chips won and lost carry over exactly to "
     "the next hand, only players with chips are dealt in, and everything else starts afresh.",
     ["histories", "inputs", "configurations"],
     "all sequences of hands, stacks, blinds, antes and button positions",
     "Tests play a few consecutive hands with fixed numbers.",
     [E], [RESET, ("Dealer._collect_multiple_bets", E), ("Dealer._move_action", E)],
     [("button", "dealer seat", E), ("stacks", "chips", E)], OBS)

CF = "clubs/configs.py"

prop("C25", "The ready-made games are played by the rules of their names",
     "Every ready-made configuration plays the game it is named after, for the number of players in its name: hold'em with "
     "two hole cards, a flop of three, turn and river and the best five of seven cards, limit bets of 2, 2, 4 and 4 with at most four bets a "
     "street, no-limit bets up to the stack, pot-limit Omaha with exactly two of four hole cards, short deck hold'em with 36 cards and "
     "flushes above full houses, Leduc with six cards and Kuhn poker with one card and one bet each.",
     ["configurations", "histories", "inputs"],
     "all ready-made configurations, all bets at the first decisions, all deals of the unknown cards",
     "Tests build some of the configurations and look at single fields; whether a game follows its rules shows only in "
     "play, at every bet and hand.",
     [CF, E, EV], [("the configurations", CF), ("Dealer.__init__", E), ("Dealer.step", E), ("Evaluator.evaluate", EV)], [],
     OBS)

prop("C26", "Tables, decks and evaluators do not influence one another",
     "Tables made from the same or different configurations play independently of each other, in any interleaving, exactly "
     "as each would alone, and never change the configuration they were made from. Tricking, drawing from or shuffling one deck leaves all "
     "other decks alone, and every evaluator ranks by its own deck, hand size, straight option and order whatever others exist.",
     ["histories", "configurations", "schedules"],
     "two tables with arbitrary bets by turns; pairs of evaluators and decks of different kinds, every hand and every shuffle",
     "Tests use one table at a time; shared state shows only in particular interleavings.",
     [E, CA, EV, CF], [("Dealer.__init__", E), ("Dealer.step", E), ("Deck", CA), ("LookupTable", EV)], [], OBS)

prop("C27", "Every browser gets every rendered state, and latecomers the last one",
     "A browser connected to the table's page receives every state rendered from then on, in order and unchanged, and on connecting the "
     "state rendered last. The page is served at the host and port asked for and holds the drawn table. Opening waits at "
     "least ten seconds for the server before it gives up with RenderInitializationError; closing, or failing to open, "
     "always ends the server process.",
     ["schedules", "fault_sequences", "inputs"],
     "all states, any timing of renderings, connecting browsers and looks at the connection, any sequence of failed attempts and any clock",
     "Tests open one view under good conditions; late browsers, bursts of states, slow or failing servers and leftover "
     "processes need particular schedules and faults.",
     [GR], [("GraphicViewer.__init__", GR), ("GraphicViewer._run_flask", GR), ("GraphicViewer.render", GR),
            ("GraphicViewer.close", GR)], [("config", "the last state the server received", GR)],
     ["messages emitted to browsers", "the server process", "exceptions of GraphicViewer()"])

prop("C28", "The page draws exactly the state it receives",
     "After every message the page shows each seat's chips and bet, the pot, the button at the dealer's seat, the player to act marked, the cards "
     "of players in the hand face up with their rank and suit, all other players' cards face down and board cards not yet dealt blank, "
     "whatever was shown before. Every part it draws exists exactly once, for every number of seats, hole cards and board cards.",
     ["inputs", "histories", "configurations"],
     "all states of tables of 2-10 seats, also one after another, every card and every number of chips",
     "No test runs the page's script at all; it has to clear and set the right parts for every state after every other.",
     ["clubs/render/resources/static/parse_config.js", GR],
     [("update_players, update_community, update_button, update_action, reset_*", "clubs/render/resources/static/parse_config.js"),
      ("_SVGPoker", GR)], [], ["elements of the page after a 'config' message"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
