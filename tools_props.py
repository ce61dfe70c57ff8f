# Writes properties.jsonl (kept as a generator so the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
S="src/equity_calculator/simulator.rs"; CR="src/equity_calculator/combined_range.rs"; H="src/hand_evaluator/hand.rs"; R="src/hand_range.rs"
p("C01","Hand scores order hands exactly as the rules of poker do",
 "For any two hands with the same number of distinct cards (two to seven), or with five to seven cards each, the evaluated score of one is larger, equal or smaller exactly when its best (up to five-card) poker hand is stronger, tied or weaker under standard rules, the five-high straight included. The score divided by 4096 is the hand category, from 1 (high card) through 9 (straight flush). The flush-ignoring evaluation agrees with the full one on every hand that contains no flush, and scores any hand as if its suits did not matter.",
 ["inputs"],"every set of 2..7 distinct cards (133.8 million seven-card hands alone) and every pair of such sets",
 "No test looks at a score at all; four table cells or one hash offset can be wrong and every test passes.",
 [H,"src/hand_evaluator/cards.rs","src/lookup.rs","src/flush_lookup.rs","src/hash_offsets.rs","src/constants.rs"],
 [("perfect-hash lookup of the rank key","src/hand_evaluator/hand.rs Hand::evaluate, evaluate_without_flush"),("flush table by 13-bit suit mask","src/flush_lookup.rs LOOKUP_FLUSH"),("additive rank keys","src/constants.rs RANKS")],
 ["Hand::evaluate","Hand::evaluate_without_flush"])
p("C02","A hand value describes exactly the set of cards put into it",
 "A hand built from up to seven distinct cards is the same value whether it is built by adding cards one by one in any order, by adding partial hands (a board plus hole cards), or from a bit mask of the cards. Its card count, per-suit counts, membership test, per-suit and combined rank masks, flush detection and flush key (the rank mask of the suit holding five or more cards, else zero) describe exactly that set. None of these operations panics or overflows on such hands.",
 ["inputs","histories"],"every set of at most seven distinct cards and every order and grouping of adding them",
 "The tests build six fixed hands of at most five cards; packed counters in adjacent bit fields can spill for other sets.",
 [H,"src/hand_evaluator/cards.rs","src/constants.rs"],
 [("packed 4-bit suit counters biased by 3","src/hand_evaluator/hand.rs Hand::default, has_flush, suit_count"),("per-suit 16-bit mask groups","src/hand_evaluator/hand.rs get_flush_key, get_suit_mask")],
 ["Hand::{count,suit_count,contains,get_rank_mask,get_suit_mask,has_flush,get_flush_key,from_bit_mask,from_hole_cards}","Hand == Hand"])
p("C03","Two-card indexing is a bijection that all indexes and names share",
 "The index of a two-card holding does not depend on the order of its cards, and the 1326 holdings map one-to-one onto 0..1325. The index computed from two card numbers, the index computed from a two-card hand value and the hand-name table (name at an index, and index looked up by name) all agree. Consecutive index groups (13 of six, then 78 of four, then 78 of twelve) are exactly the pairs, suited and offsuit classes, in the order of the 169 class names.",
 ["inputs"],"all 1326 unordered (2652 ordered) pairs of distinct cards, all 1326 names and 169 class names",
 "No test touches the index functions or the name tables; a swapped pair of table entries silently credits results to the wrong hand.",
 [H,"src/map.rs","src/string_lookup.rs",S],
 [("triangular index into CARD_MAP","src/hand_evaluator/hand.rs get_card_index"),("bit positions into MASK_MAP","src/hand_evaluator/hand.rs Hand::get_card_index"),("name tables","src/string_lookup.rs INDEX_TO_HAND, INDEX_TO_COMBO")],
 ["get_card_index","Hand::get_card_index","INDEX_TO_HAND","HAND_TO_INDEX","INDEX_TO_COMBO","COMBO_TO_INDEX"])
p("C04","A range item expands to exactly the hands it denotes",
 "A range item of two ranks (higher first) with optional o or s denotes all pair, offsuit and/or suited combos of those ranks; a plus extends a pair up through aces and a non-pair's lower card up to just below its higher card; a dash between two pairs, or between two non-pairs with the same higher or the same lower rank, covers every step between its ends inclusive, in whichever order the ends are written; an item naming two suited cards denotes that one combo. The parsed range contains exactly the denoted combos, each once, each with the item's weight (0-100 after @, otherwise 100). The order of the two ranks or cards does not matter in an item without plus or dash.",
 ["inputs"],"every item of every documented form: all ranks, suits, o/s suffixes, spans and weights 0..100",
 "The tests parse nine fixed strings and only count combos; wrong ends of a span, wrong suits with the right count, or a wrong weight pass.",
 [R],[("recursive-descent item parser","src/hand_range.rs HandRange::parse_hand"),("expansion of plus and dash","src/hand_range.rs add_combos_plus, add_combos_dash, add_combos, add_combo")],
 ["HandRange::from_string(..).hands"])
p("C05","Any text parses without panic into a well-formed range",
 "Parsing any text as a range terminates without panicking or overflowing. Every combo of the result has two different cards numbered 0..51 with the higher card first and a weight of 0..100; no combo occurs twice. A text that does not begin with a valid item gives an empty range.",
 ["inputs"],"every text (checked: every ASCII text up to the stated length, and longer template texts)",
 "Tests parse a handful of valid strings; none is malformed, truncated, or carries an oversized weight.",
 [R],[("sentinel-terminated character vector and backtracking","src/hand_range.rs from_string, parse_*"),("sort and dedup","src/hand_range.rs remove_duplicates")],
 ["HandRange::from_string"])
p("C06","A range list is the union of its items; the first mention sets the weight",
 "A comma-separated range contains exactly the combos of its items, and a combo named by several items keeps the weight of the first item that names it. Upper and lower case are equivalent in items, parsing stops at the first malformed item while the items before it still count, and the text random denotes all 1326 combos at weight 100. Parsing several range strings at once gives, in order, the same ranges as parsing each alone.",
 ["inputs"],"every list of valid items (checked: up to three items of the stated forms) and every position of a malformed item",
 "Three tests use two- or three-item lists and check only the number of combos.",
 [R],[("item loop","src/hand_range.rs HandRange::from_string"),("stable sort then dedup by cards","src/hand_range.rs remove_duplicates, Ord/PartialEq for Combo")],
 ["HandRange::from_string","HandRange::from_strings"])
p("C07","Card text and card numbers convert both ways without loss",
 "Writing a set of cards as text and reading it back gives the same set, and every single card and hole-card pair is written as its rank and suit and reads back to itself. Reading a card set accepts exactly the even-length texts made of rank-suit pairs in any case and yields the union of the named cards, and the empty set for anything else; reading a single card or a three-card flop yields the named card(s), the flop sorted, for valid text. For every invalid text (bad rank, bad suit, wrong length, repeated flop card) the single-card and flop readers return an error and never panic.",
 ["inputs"],"every 52-bit card set, every card, and every ASCII text up to the stated length",
 "Tests cover four characters of the rank and suit tables; no reader or writer of whole cards is tested.",
 [R,"src/constants.rs"],[("rank and suit tables","src/hand_range.rs char_to_rank, char_to_suit; src/constants.rs"),("readers","src/hand_range.rs get_card_mask, card_from_chars, card_from_str, flop_from_str"),("writers","src/hand_range.rs mask_to_string, card_to_string, hole_to_string, holes_to_strings")],
 ["get_card_mask","mask_to_string","card_from_str","flop_from_str","card_to_string","hole_to_string"])
p("C08","Combo ordering is a total order that agrees with equality",
 "Comparing range combos is antisymmetric, transitive and total, compares equal exactly when both cards are equal, ignores weights, and orders first by the first card's rank and then the second card's rank. Displaying a combo writes the rank and suit of its first card followed by its second.",
 ["inputs"],"every triple of combos over all card and weight values",
 "No test compares combos; deduplication of every parsed range silently depends on this agreement.",
 [R],[("Ord, PartialOrd, PartialEq for Combo","src/hand_range.rs"),("Display for Combo","src/hand_range.rs")],
 ["Combo::cmp","Combo == Combo","Combo::to_string"])
p("C09","Removing conflicting combos keeps exactly the compatible ones",
 "Removing the combos that conflict with a board and a set of dead cards leaves exactly those combos neither of whose cards is on the board or dead, in their original order and with their weights unchanged.",
 ["inputs"],"every range (checked up to the stated number of combos) and every board and dead card set",
 "Not tested; equity tests in the repository use ranges and boards with few conflicts and check one number.",
 [R],[("retain by mask","src/hand_range.rs HandRange::remove_conflicting_combos")],["HandRange::remove_conflicting_combos"])
p("C10","The fast divider divides exactly",
 "For every non-zero 64-bit divisor and every 64-bit dividend, dividing with a prepared divider gives exactly the integer quotient, and preparing a divider never panics or overflows.",
 ["inputs"],"all 64-bit dividends for every divisor (checked: see the bounds in DESIGN.md)",
 "The test tries small dividends and few large ones for about 160 divisors; a magic number that is off by one fails only for huge dividends.",
 ["src/fastdivide.rs"],[("magic multiplier selection","src/fastdivide.rs DividerU64::divide_by, fast_path, general_path"),("multiply-shift","src/fastdivide.rs DividerU64::divide")],
 ["DividerU64::divide_by(d).divide(n)","n / divider"])
p("C11","Combining ranges keeps exactly the legal joint deals",
 "Combining players' ranges yields groups in which every player appears exactly once. The joint holdings of each group are exactly the ways to pick one combo per member from that member's range with no card used twice, each listed as often as it can be picked, with each member's cards, weight and hand value and the union of the cards as its mask.",
 ["inputs","configurations"],"every list of ranges (checked: up to the stated players and combos per range, cards and weights arbitrary)",
 "Not tested directly; the equity tests use two players, so only one join order ever runs.",
 [CR],[("pairwise cheapest join","src/equity_calculator/combined_range.rs CombinedRange::from_ranges, join")],["CombinedRange::{from_ranges,combos,players,player_count,size}"])
p("C12","On a complete board exact equity credits exactly the best hands",
 "With a complete board, for two to nine players, every legal deal adds its weight (the product of the players' combo weights, up to a common scale) to the win of the single best player or, on a tie, to the ties of exactly the tied players, who split it equally without loss. The per-winner-set totals, the wins and ties of each player and the win, tie and total weight of each player's hand all follow from this, and the equities are the resulting shares of the total: each in 0..1, summing to 1, never NaN.",
 ["inputs","configurations"],"every outcome (every winner set for 2..9 players), every combination of weights 1..100 (total weight below 2^64), any board and hands within the stated shapes",
 "Four (skipped, flaky) tests use two players; no test has three or more players, a multi-way tie or a ninth player.",
 [S],[("winner selection and credit","src/equity_calculator/simulator.rs Simulator::evaluate_hands, update_results"),("equity","src/equity_calculator/simulator.rs SimulationResults::get_equity")],
 ["exact_equity(..).{wins,ties,wins_by_mask,equities,hand_results}"])
p("C13","Exact equity equals counting every deal and every board",
 "When board cards are still to come, exact equity gives the same per-player wins, ties, equities and per-hand results as dealing every legal combination of the players' combos and then every possible completion of the board from the undealt live cards, each weighted by the product of combo weights (up to a common scale). Suit and rank shortcuts used to skip equivalent boards never change a total. This holds for every number of cards to come, any dead cards and any suits involved.",
 ["inputs","configurations"],"every set of ranges, weights, board, dead cards (checked within the stated deck sizes and shapes)",
 "Two (skipped) tests pin one number each for two scenarios; suit-sharing and multiplicity shortcuts have dozens of cases they do not reach.",
 [S],[("board enumeration with multiplicities","src/equity_calculator/simulator.rs enumerate_board, enumerate_board_rec"),("deal enumeration by mixed-radix index","src/equity_calculator/simulator.rs enumerate_all")],
 ["exact_equity(..)"])
p("C14","Invalid requests are refused and valid ones are answered",
 "Both equity calculators return the matching error for fewer than two players, more than nine, more than five board cards, or too few cards left for the players and a full board, checked in that order; they report conflicting ranges when some joint holding is impossible or a range has no combo left, and otherwise answer. No request whose total weight stays below 2^64 makes them panic.",
 ["inputs","configurations"],"0..11 players, every board and dead card count, boards and dead cards within the deck",
 "No test checks any error.",
 [S],[("argument checks","src/equity_calculator/simulator.rs exact_equity, approx_equity")],["exact_equity","approx_equity"])
p("C15","Hand, class and board breakdowns add up to the same deals",
 "Each player's 1326 hand entries are valid exactly for that player's compatible combos and carry their weight; their totals sum to the weight of all deals and their wins to that player's wins. Each of the 169 class entries is the sum of its member hands, with equity, win rate and tie rate being its shares of its total (zero if never dealt, never NaN), and classes with no dealt hand are marked invalid. With three or more board cards each of the nine made-hand rows sums exactly the hands whose current category it is, each draw row sums exactly the hands carrying that draw, and lookup by name returns the entry of that name.",
 ["inputs","configurations"],"every set of ranges, weights and outcomes (checked within the stated shapes)",
 "The only test of these results looks at the weight field; no aggregate is ever compared with its parts.",
 [S,"src/string_lookup.rs"],[("class aggregation","src/equity_calculator/simulator.rs SimulationResults::generate_final_data"),("board aggregation","src/equity_calculator/simulator.rs generate_board_data, set_ranks"),("weights","src/equity_calculator/simulator.rs save_hand_weights, fix_hand_weights")],
 ["SimulationResults::{hand_results,combo_results,board_results,board_draws,get_hand_result,get_combo_result}"])
p("C16","Exact equity does not depend on threads or scheduling",
 "For any number of worker threads and any interleaving of them, exact equity processes every deal exactly once, so its counts are identical and its equities equal up to rounding; it always terminates, without deadlock. Every progress value passed to the callback is in 0..100, and the callback is called at least once per worker. Setting the cancel token makes the workers stop at the next checkpoint, and results returned after cancelling are still a consistent partial count.",
 ["schedules","configurations"],"1..4 threads, every interleaving at synchronisation points up to the stated number of preemptions, cancel at any callback",
 "Tests run with one real schedule each and never use the cancel token.",
 [S],[("batch reservation under a mutex","src/equity_calculator/simulator.rs reserve_batch, enumerate_all"),("merging under a lock","src/equity_calculator/simulator.rs update_results"),("scoped threads and channel","src/equity_calculator/simulator.rs exact_equity")],
 ["exact_equity"])
p("C17","Every simulated deal is legal",
 "Whatever the random numbers, every deal that approximate equity evaluates gives each player a combo of that player's range, completes the given board to five cards, uses no card twice and no dead card, and is counted with the product of the combo weights against the right player and hand.",
 ["inputs","histories"],"every outcome of the random generator (checked: every sequence up to the stated number of draws) for ranges of the stated shapes",
 "One (skipped) test compares a final equity within 1%; a rarely reused card would not move it.",
 [S],[("random walk over joint holdings","src/equity_calculator/simulator.rs sim_random_walk_monte_carlo, randomize_hole_cards"),("board sampling","src/equity_calculator/simulator.rs randomize_board")],
 ["deals evaluated by approx_equity"],hook="guarded observer called with each deal before it is evaluated")
p("C18","Approximate equity stops, reports and accounts as documented",
 "Approximate equity stops when its standard-deviation estimate, taken over at least two non-empty batches, is below the target, or when the cancel token is set, and at no other time while deals are possible; the reported deviation is the one computed from the batches that were sampled. Progress values passed to the callback are in 0..100. Its counts satisfy the same consistency as exact equity: the winner-set totals sum to the total weight dealt, and equities are in 0..1 and sum to 1.",
 ["inputs","schedules","configurations"],"stopping targets, cancel at any callback, 1..3 threads and interleavings within the stated bounds, for the stated random seeds",
 "One (skipped, flaky) test compares one equity within 1%; stopping, cancelling, deviation and progress are untested.",
 [S],[("batch statistics and stopping rule","src/equity_calculator/simulator.rs update_results"),("worker loop","src/equity_calculator/simulator.rs sim_random_walk_monte_carlo")],
 ["approx_equity(..).{stdev,batch_count,batch_sum,batch_sum2,eval_count}","callback values"])
p("C19","Flush draw flags match the cards",
 "For hole cards and a board of three or four cards and a made-hand rank below a flush, the flush-draw flag is set exactly when some suit has exactly four cards in total, the backdoor flag exactly when the board has three cards and some suit has exactly three in total, and the nut flag exactly when the player holds the highest card of such a suit that is not on the board. For a made flush no draw flag is set, and the nut flag is set exactly when the player holds the highest card of the flush suit that is not on the board. No flag depends on which suit is involved.",
 ["inputs"],"every pair of hole cards with every flop or turn (about 2.9 and 33 billion ordered cases)",
 "The function has no test at all.",
 [H],[("suit counting and top-card comparison","src/hand_evaluator/hand.rs get_draw")],["get_draw"])
p("C20","Straight draw flags are sound and complete",
 "For a made-hand rank below a straight, an open-ended, gutshot or double-gutshot flag is set only if one more card can complete a straight, and one of them is set whenever four of the five ranks of some straight that is six-high or better are held; an open-ended or double-gutshot flag is set only if two different ranks each complete a straight. The backdoor straight flag is set only when the board has three cards and three ranks of some straight are held. None of these flags is set when the made hand is a straight or better.",
 ["inputs"],"every pair of hole cards with every board of three to five cards",
 "The function has no test at all.",
 [H],[("window masks slid over the rank mask","src/hand_evaluator/hand.rs get_draw")],["get_draw"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
