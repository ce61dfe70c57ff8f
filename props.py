"""What each check runs: harness entries, parameters, shards and bounds."""


def J(entry, params=None, shards=1, time=60, **kw):
    return dict(entry=entry, params=params, shards=shards, time=time, **kw)


PROPS = {}

_C01 = [J("c01_chain", [n], time=200, maxwit=2) for n in (2, 3, 4, 5)] + [J("c01_plain", [n], shards=8 if n > 5 else 1, time=300, maxwit=4) for n in (2, 3, 4, 5, 6, 7)]
_C01 += [J("c01_flush", [n, m], shards=2, time=300, maxwit=4) for n in (5, 6, 7) for m in range(5, n + 1)] + [J("c01_noflush", [n], time=100, maxwit=2) for n in range(2, 8)]
PROPS["C01"] = dict(
    feature="c01",
    quick=_C01,
    thorough=_C01,
    bounds="none beyond the property: every set of two to seven cards (multisets of ranks are forked, suits, and the cards beside a flush, are symbolic)",
    outside="nothing; cards of one rank are added in the order of their suits (that the order does not matter is C02)",
    asserts={1: "scores do not follow the order of the strengths", 2: "category", 3: "evaluation without flush", 4: "score of a hand without flush", 5: "score of a flush", 6: "flush seen without five cards of a suit"},
)

PROPS["C02"] = dict(
    feature="c02",
    quick=[J("c02_build", [n, s], time=150) for n, s in [(0, 0), (1, 0), (2, 2), (3, 1), (4, 2), (5, 2), (6, 2), (7, 2), (7, 4)]] + [J("c02_mask", time=200)],
    thorough=[J("c02_build", [n, s], time=900) for n in range(0, 8) for s in range(0, n + 1)] + [J("c02_mask", time=1200)],
    bounds="0..7 cards, every card number symbolic (all ordered selections of distinct cards); from_bit_mask over all 52-bit masks with at most 7 bits set; membership of every card",
    outside="hands of eight or more cards; card numbers above 51",
    asserts={1: "adding in reverse order gives another value", 2: "adding in two parts gives another value", 3: "mask", 4: "count", 5: "contains", 6: "rank mask", 7: "suit count",
             8: "suit mask", 9: "has_flush", 10: "flush key", 20: "from_bit_mask: mask", 21: "from_bit_mask: count", 22: "from_bit_mask: suit count", 23: "from_bit_mask differs from adding the cards"},
)

PROPS["C03"] = dict(
    feature="c03",
    quick=[J("c03_index", time=120), J("c03_names", shards=6, time=120), J("c03_lookup", time=120)],
    thorough=[J("c03_index", time=600), J("c03_inj", time=900), J("c03_names", shards=6, time=300), J("c03_lookup", time=600)],
    bounds="both cards of a holding symbolic over all 52x51 ordered pairs; every index 0..1325 and class 0..168 for names (one symbolic index, forked by value)",
    outside="nothing of the stated property",
    asserts={1: "index depends on the order of the cards", 2: "index out of range", 3: "index of the hand value differs", 4: "index outside its class's group", 5: "two holdings share an index",
             10: "name length", 11: "name is not two different cards", 12: "name at the index is not the holding with that index", 13: "same, cards swapped", 14: "same, hand value",
             15: "class name ranks", 16: "pair class name", 17: "class name suffix", 20: "size of the name maps", 21: "index looked up by hand name", 22: "index looked up by class name"},
)

PROPS["C04"] = dict(
    feature="c04",
    quick=[J("c04_item", [f, d], shards=4 if f in (3, 4) else 1, time=150) for f in range(6) for d in range(4)],
    thorough=[J("c04_item", [f, d], shards=4, time=900) for f in range(6) for d in range(4)],
    bounds="all ranks, suits and o/s suffixes of every form (two ranks, plus, dash between pairs, dash between non-pairs with a common higher or lower rank, two cards), each without a weight or with a weight of one to three symbolic digits up to 100; membership of a symbolic combo",
    outside="weights written with more than three digits; letters in lower case (C06)",
    asserts={1: "contains other combos than the item denotes", 2: "combo has another weight than the item's", 3: "combo occurs twice"},
)

_WORD = [(0, 0, k) for k in (0, 1, 2, 3, 4, 5, 7)] + [(a, b, 6) for a, b in ((0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (0, 4))] + [(0, 1, 7), (1, 0, 7)]
PROPS["C05"] = dict(
    feature="c05",
    quick=[J("c05_text", [n], time=120) for n in range(0, 5)] + [J("c05_text", [5], shards=8, time=200)]
    + [J("c05_template", [t], time=200) for t in range(17)]
    + [J("c05_wide", [t], time=100) for t in range(14)]
    + [J("c05_word", list(a), time=100, maxwit=1) for a in _WORD],
    thorough=[J("c05_text", [n], time=300) for n in range(0, 5)] + [J("c05_text", [n], shards=24, time=3000) for n in (5, 6, 7)]
    + [J("c05_template", [t], time=900) for t in range(17)]
    + [J("c05_wide", [t], time=600) for t in range(14)]
    + [J("c05_word", list(a), time=300, maxwit=1) for a in _WORD],
    bounds="every ASCII text of 0..5 characters (thorough: 0..7); 17 templates of up to 22 characters with symbolic characters and weights of up to 13 digits; a two-byte UTF-8 character after each of 14 unfinished items; the word random with one letter replaced, letters in the other case, or up to four more characters",
    outside="other texts of six (thorough: eight) or more characters, three- and four-byte UTF-8 characters; in texts of five or more characters all rank letters have the same case",
    asserts={1: "card number out of range", 2: "two equal cards", 3: "lower card first", 4: "weight above 100", 5: "combo occurs twice", 6: "range from a text that does not begin with an item"},
)

PROPS["C06"] = dict(
    feature="c06",
    quick=[J("c06_list", [l], shards={2: 8, 8: 4, 10: 4, 12: 6, 5: 2, 11: 2}.get(l, 1), time=150) for l in range(16)]
    + [J("c06_case", [l], time=100) for l in range(6)] + [J("c06_stop", [l], time=60) for l in range(12)]
    + [J("c06_many", [l], time=60) for l in range(6)] + [J("c06_random", time=60)],
    thorough=[J("c06_list", [l], shards=8, time=900) for l in range(16)]
    + [J("c06_case", [l], time=600) for l in range(6)] + [J("c06_stop", [l], time=300) for l in range(12)]
    + [J("c06_many", [l], time=300) for l in range(6)] + [J("c06_random", time=60)],
    bounds="16 families of lists of two or three items (ranks and suits forked, weights of one or two digits symbolic, membership of a symbolic combo), 6 families of upper and lower case texts, 12 kinds of malformed third item with a symbolic wrong character, up to five ranges at once",
    outside="longer lists, other combinations of item forms in one list",
    asserts={1: "list is not the union of its items", 2: "weight is not that of the first item naming the combo", 3: "upper case and lower case differ", 4: "a malformed item changes what the items before it contribute",
             5: "random misses a combo", 6: "random has a weight other than 100", 7: "random does not have 1326 combos", 8: "number of ranges", 9: "combo occurs twice", 10: "range differs from the range parsed alone"},
)

PROPS["C07"] = dict(
    feature="c07",
    quick=[J("c07_set", [a, 10, r], shards=4 if r else 1, time=150) for a in (0, 10, 20, 30, 42) for r in (0, 1, 2)] + [J("c07_card", time=60), J("c07_hole", time=60)]
    + [J("c07_mask_text", [n], time=60) for n in range(0, 11)] + [J("c07_card_text", [n], time=60) for n in range(0, 7)]
    + [J("c07_flop", [n], shards=8 if n in (0, 7) else 1, time=120) for n in range(0, 9)],
    thorough=[J("c07_set", [a, 13, r], shards=16, time=1200) for a in (0, 13, 26, 39) for r in (0, 1, 2)] + [J("c07_card", time=60), J("c07_hole", time=60)]
    + [J("c07_mask_text", [n], time=600) for n in range(0, 17)] + [J("c07_card_text", [n], time=60) for n in range(0, 9)]
    + [J("c07_flop", [n], shards=8 if n in (0, 7) else 1, time=600) for n in range(0, 9)],
    bounds="card sets: every subset of any ten (thorough: 13) neighbouring cards, with none, all, or every second one of the other cards; every card; every ordered pair; every ASCII text of 0..10 (thorough: 16) characters for card sets, 0..6 (8) for single cards, 0..7 for flops, plus three cards with single spaces",
    outside="arbitrary 52-bit sets that differ from those backgrounds in more than ten (13) neighbouring cards; longer texts; non-ASCII characters; suits in upper case and white space for the single-card and flop readers (either outcome accepted)",
    asserts={1: "length of the text", 2: "text is not made of card names", 3: "text names other cards", 4: "text does not read back to the set", 5: "card name length", 6: "card name", 7: "card name reads back to another set",
             8: "card name does not read back", 9: "hole cards' text", 10: "hole cards do not read back", 11: "number of hole-card texts", 12: "first of two hole-card texts", 13: "second of two hole-card texts",
             14: "set read from a text", 15: "card read from a text of another length", 16: "another card read", 17: "valid card refused", 18: "flop read from a text of the wrong length", 19: "flop read from an invalid card",
             20: "flop not sorted or with a repeated card", 21: "flop with another card", 22: "valid flop refused"},
)

PROPS["C08"] = dict(
    feature="c08",
    quick=[J("c08_order", time=60), J("c08_show", time=60)],
    bounds="three combos, all nine bytes symbolic (0..255); display: both cards symbolic over 0..51, weight over 0..255",
    outside="display of card numbers above 51",
    asserts={1: "antisymmetry", 2: "transitivity of <=", 3: "transitivity of <", 4: "compares equal exactly when the cards are equal", 5: "==", 6: "!=", 7: "partial_cmp", 8: "weight changes the order",
             9: "first rank", 10: "second rank", 11: "operators", 20: "display length", 21: "display rank 1", 22: "display suit 1", 23: "display rank 2", 24: "display suit 2"},
)

PROPS["C09"] = dict(
    feature="c09",
    quick=[J("c09_any", [n], time=100) for n in range(0, 8)] + [J("c09_long", [k, a], time=150) for k, a in [(20, 100), (40, 300), (40, 1286)]],
    thorough=[J("c09_any", [n], time=1800) for n in range(0, 11)] + [J("c09_long", [40, a], time=600) for a in range(0, 1287, 39)],
    bounds="ranges of 0..7 (thorough: 10) combos with every card and weight symbolic, against every 52-bit board mask and dead mask; ranges of 20 and 40 different combos against boards of any subset of five cards and dead cards of any subset of three",
    outside="longer ranges",
    asserts={1: "a compatible combo is missing", 2: "another combo in its place (cards or order)", 3: "weight changed", 4: "a conflicting combo is left"},
)

_I = ["--inc", "0", "--int", "15000", "--hard", "500"]
PROPS["C10"] = dict(
    feature="c10",
    quick=[J("c10_all", [1, 63], shards=8, time=600, opts=_I, nowit=True), J("c10_each", [1, 1000], shards=4, time=200, opts=_I, maxwit=6), J("c10_special", shards=4, time=200, opts=_I, maxwit=6), J("c10_op", time=60, opts=_I)],
    thorough=[J("c10_all", [1, 63], shards=8, time=1800, opts=_I, nowit=True), J("c10_each", [1, 20000], shards=8, time=1800, opts=_I, maxwit=6), J("c10_special", shards=8, time=300, opts=_I, maxwit=6), J("c10_op", time=60, opts=_I)],
    bounds="every 64-bit dividend; every divisor that is not a power of two, split by its highest bit, with divisor and dividend symbolic; also every divisor 1..1000 (thorough: 20000) and eight shapes around every power of two one by one, powers of two included",
    outside="nothing; one arithmetic fact is assumed for the symbolic divisors: a number that is not a power of two does not divide a power of two",
    asserts={1: "wrong quotient", 2: "wrong quotient with the / operator"},
    technique="symbolic execution of the crate's LLVM IR; 64-bit division decided over the integers (nonlinear integer arithmetic, z3 and cvc5), counterexamples replayed natively",
)

PROPS["C11"] = dict(
    feature="c11",
    quick=[J("c11_any", [p, 0, 51], time=300) for p in (111111111, 1212, 33, 23, 1111, 121, 112, 211, 22, 21, 12, 11)] + [J("c11_large", [17, 11, k], time=100) for k in (0, 1, 2)] + [J("c11_large", [17, 111, 1], time=200)],
    thorough=[J("c11_any", [p, 0, 51], time=2400) for p in (222, 322, 2112, 11211, 1221, 44, 34, 1111111, 111111111, 1212, 33, 23, 1111, 121, 112, 211, 22, 21, 12, 11)]
    + [J("c11_large", [n, p, k], time=900) for n in (17, 20) for p in (1, 11, 111) for k in (0, 1)],
    bounds="two ranges of up to three combos each, three ranges of up to two in total four combos, ranges of 1, 2, 1 and 2 combos, four and nine ranges of one combo (thorough: three ranges of 2 or 3, two of 4, five ranges), every card and weight symbolic; two ranges of 136 combos that are too large to be joined with one to three further ranges whose combo is any of four neighbouring cards",
    outside="larger ranges with arbitrary cards; ranges that name a combo twice",
    asserts={1: "a player is missing from the groups or in two of them", 2: "size", 3: "hand value of a member", 4: "card mask of a holding", 5: "a legal joint holding is missing", 6: "number of joint holdings", 7: "weight of a member"},
)

_P = ["--inc", "100", "--hard", "200", "--steps", "2000000000"]
PROPS["C12"] = dict(
    feature="c12",
    quick=[J("c12_counts", [n, a, k, w], time=100, opts=_P, maxwit=1) for n, k, w in [(2, 5, 100), (3, 5, 100), (4, 5, 50), (5, 4, 30), (6, 4, 20), (7, 3, 8), (8, 3, 5), (9, 3, 4)] for a in range(5)]
    + [J("c12_shares", [n, n % 5, k], time=100, opts=_P, maxwit=2) for n, k in [(2, 5), (3, 5), (4, 4), (5, 3), (6, 3), (7, 3), (8, 3), (9, 3)]]
    + [J("c12_deck", [d], shards=4, time=150, opts=_P, maxwit=2) for d in range(6)]
    + [J("c12_scale", [g, o, 16], time=60, opts=["--inc", "100", "--hard", "3000"]) for g in (2, 3, 7, 10, 25, 33) for o in (1, 100)]
    + [J("c12_plays", [n, c, w], time=100, opts=_P, maxwit=1) for n, c, w in [(2, 4, 100), (3, 4, 100), (4, 4, 50), (5, 3, 20), (6, 3, 20), (7, 2, 10), (8, 2, 8), (9, 2, 6)]],
    thorough=[J("c12_counts", [n, a, k, w], time=900, opts=_P, maxwit=1) for n, k, w in [(2, 5, 100), (3, 5, 100), (4, 5, 50), (5, 5, 30), (6, 5, 20), (7, 4, 8), (8, 3, 5), (9, 3, 4)] for a in range(5)]
    + [J("c12_shares", [n, a, k], time=600, opts=_P, maxwit=2) for n, k in [(2, 5), (3, 5), (4, 5), (5, 4), (6, 3), (7, 3), (8, 3), (9, 3)] for a in range(5)]
    + [J("c12_deck", [d], shards=4, time=600, opts=_P, maxwit=4) for d in range(6)]
    + [J("c12_scale", [g, o, 50], time=600, opts=["--inc", "100", "--hard", "60000"]) for g in range(2, 51) for o in (1, 3, 100)]
    + [J("c12_plays", [n, c, w], time=600, opts=_P, maxwit=1) for n, c, w in [(2, 10, 100), (3, 6, 100), (4, 4, 50), (5, 4, 20), (6, 3, 20), (7, 2, 10), (8, 2, 8), (9, 2, 6)]],
    bounds="two to nine players; every deal of ranges of three to five (nine players: three) combos at once, whose kickers decide for every set of one to four winners, and of ranges that all play the board (everyone ties), every weight symbolic up to 100 (more players: smaller, so that the total stays below 2^64); every board and two hands out of each of six sets of nine cards; shares with 16 combinations of concrete weights; weights with a common factor",
    outside="equities and shares are compared for concrete weights only (the counts they follow from for all weights); other hands on other boards, whose strengths C01 decides",
    asserts={1: "shape of the result", 2: "winner-set totals", 3: "wins of a player", 4: "total of a hand", 5: "wins of a hand", 6: "ties of a hand", 10: "shared ties of a player", 11: "equity outside 0..1", 12: "equity",
             13: "shared ties of a hand", 14: "equity of a hand", 15: "win rate of a hand", 16: "tie rate of a hand", 17: "equities do not sum to 1", 20: "refused although deals exist"},
)



def _r(*ranks):
    return sum(1 << r for r in ranks)


def _h(*holes):
    "rank pairs of the players, as c13_suits reads them"
    return sum((a << 4 | b) << (8 * i) for i, (a, b) in enumerate(holes))


def _n(*counts):
    return sum(c << (8 * i) for i, c in enumerate(counts))


def _b(*ranks):
    return sum(r << (4 * i) for i, r in enumerate(ranks))


_AK, _QJ, _98, _AA, _77, _65 = (12, 11), (10, 9), (7, 6), (12, 12), (5, 5), (4, 3)
# board ranks, holes, combos, live ranks, largest weight, first combo
_C13 = [
    # nothing on the board
    (0, (), (_AK, _QJ), (8, 4), (12, 8, 2), 50, 3),
    (0, (), (_AK, _AK), (6, 6), (10, 9, 8), 50, 5),
    (0, (), (_AA, _77), (6, 6), (11, 5, 0), 50, 0),
    (0, (), (_98, _65), (6, 6), (5, 2, 8), 50, 4),
    (0, (), (_AK, _QJ), (4, 3), (12, 8, 5, 2), 50, 3),
    (0, (), (_AK, _QJ, _98), (3, 3, 3), (12, 8, 2), 20, 4),
    (0, (), (_AK, _AK, _77), (3, 3, 2), (10, 9, 8), 20, 1),
    # one card, two cards
    (1, (8,), (_AK, _QJ), (16, 4), (12, 8, 2), 50, 3),
    (1, (9,), (_77, _98), (6, 6), (10, 9, 8), 50, 3),
    (2, (8, 3), (_AK, _QJ), (8, 4), (12, 8, 2), 50, 3),
    (2, (7, 7), (_AA, _98), (6, 6), (10, 9, 8), 50, 2),
    # flop
    (3, (7, 5, 3), (_AK, _QJ), (16, 4), (12, 8, 2), 50, 3),
    (3, (9, 8, 1), (_AK, _77), (16, 6), (10, 5, 0), 50, 0),
    (3, (9, 9, 2), (_QJ, _98), (16, 4), (10, 9, 7), 50, 1),
    (3, (4, 3, 2), (_65, _65), (9, 9), (12, 5, 6), 50, 6),
    (3, (7, 5, 3), (_AK, _QJ, _98), (4, 4, 4), (12, 8, 2), 20, 3),
    (3, (8, 5, 2), (_AK, _AK, _AK, _AK), (4, 4, 4, 4), (12, 11, 1), 8, 4),
    # turn
    (4, (7, 5, 3, 1), (_AK, _QJ), (16, 4), (12, 8, 2), 50, 3),
    (4, (9, 8, 7, 2), (_AK, _65), (12, 6), (10, 6, 5), 50, 2),
    (4, (9, 9, 2, 2), (_QJ, _77), (12, 6), (10, 9, 5), 50, 0),
    (4, (8, 5, 2, 0), (_AK, _AK, _QJ), (4, 4, 4), (12, 9, 1), 20, 4),
]
_S13 = {0: 1, 1: 2, 2: 4, 3: 6, 4: 8}


def _c13(t):
    return [J("c13_suits", [b, _b(*br), _h(*h), _n(*n), _r(*l), w, f], shards=_S13[b], time=t, opts=_P, maxwit=1) for b, br, h, n, l, w, f in _C13]


PROPS["C13"] = dict(
    feature="c13",
    quick=_c13(300) + [J("c13_place", [b, d], shards={0: 1, 3: 6, 4: 4}[b], time=300, opts=_P, maxwit=1) for b, d in [(0, 0), (0, 3), (3, 0), (4, 1), (4, 3)]]
    + [J("c13_dead", [b, f, st, s], shards=4, time=300, opts=_P, maxwit=1) for b, f, st, s in [(0, 20, 1, 0), (3, 0, 5, 1), (4, 12, 3, 2)]] + [J("c13_split", [46, 45, 2], time=100, opts=_P), J("c13_split", [46, 45, 100], time=200, opts=_P)],
    thorough=_c13(1200) + [J("c13_place", [b, d], shards={0: 1, 3: 8, 4: 4}[b], time=1200, opts=_P, maxwit=1) for b in (0, 3, 4) for d in range(6)]
    + [J("c13_dead", [b, f, st, s], shards=4, time=1200, opts=_P, maxwit=1) for b in (0, 1, 2, 3, 4) for f, st, s in [(20, 1, 0), (0, 5, 1), (12, 3, 2), (0, 7, 3)]] + [J("c13_split", [46, 45, 2], time=100, opts=_P), J("c13_split", [72, 60, 100], time=900, opts=_P)],
    bounds="boards of none to four cards. Twenty-one families of given ranks (two, three and four players; up to 16 combos of all suits per range, each with a symbolic weight; three or four live ranks in all suits besides the unused hole cards): every suit of every board card. Six sets of nine cards of which every choice is the board and two hands and the rest is live. Ten cards each live or dead. Two thousand deals on one flop of three suits with the full deck (more than one batch).",
    outside="decks of more than about twenty live cards with all suits in play; five or more players with cards to come; shares are compared for concrete weights only",
    asserts={1: "shape of the result", 2: "winner-set totals", 3: "wins of a player", 4: "total of a hand", 5: "wins of a hand", 6: "ties of a hand", 10: "shared ties of a player", 11: "equity outside 0..1", 12: "equity",
             13: "shared ties of a hand", 14: "equity of a hand", 15: "win rate of a hand", 16: "tie rate of a hand", 17: "equities do not sum to 1", 20: "refused although deals exist", 21: "hand of the first player",
             22: "winner-set totals are not the sums over the first player's combos", 23: "hand of the second player"},
)

_C14 = [J("c14_args", [c], shards=12, time=300, maxwit=2) for c in (0, 1)]
_C14 += [J("c14_any", [c, 2, b], time=300, opts=_P, maxwit=2) for c in (0, 1) for b in (0, 3, 5)]
_C14 += [J("c14_conflict", [c, n, b], time=300, opts=_P, maxwit=2) for c in (0, 1) for n, b in ((2, 3), (2, 4), (2, 5), (3, 5))]
_C14 += [J("c14_some", [c, w], time=300, opts=_P, maxwit=1) for c in (0, 1) for w in (0, 1, 2)]
_C14 += [J("c14_last", [c, n, b], time=300, opts=_P, maxwit=2) for c in (0, 1) for n in (2, 5, 9) for b in (0, 3, 5)]
_C14 += [J("c14_random", a, time=300, opts=_P, maxwit=1) for a in ([0, 2, 0, 1, 0], [0, 2, 3, 2, 0], [0, 3, 4, 1, 5], [0, 4, 5, 0, 0], [1, 2, 0, 1, 5], [1, 6, 0, 2, 3], [1, 9, 5, 1, 0])]
PROPS["C14"] = dict(
    feature="c14",
    quick=_C14,
    thorough=_C14 + [J("c14_any", [c, 3, b], shards=28, time=1500, opts=_P, maxwit=1) for c in (0, 1) for b in (0, 4)] + [J("c14_last", [c, n, b], time=300, opts=_P, maxwit=2) for c in (0, 1) for n in range(2, 10) for b in range(6)]
    + [J("c14_random", [1, n, b, 1, 0], time=600, opts=_P, maxwit=1) for n in range(2, 10) for b in range(6)],
    bounds="0..11 players without combos with every set of board cards and every disjoint set of dead cards (symbolic); two players (thorough: three) with any two of eight cards of any weight and any of 39 cards dead on boards of none, three and five cards (preparation only, no thread); two and three players with any two of seven cards on boards of three to five cards, answered and checked; three players with three combos and any of six cards dead; two to nine players with the largest number of dead cards and one more; ranges of all hands for up to nine players, cancelled at the first checkpoint, one and two threads",
    outside="boards and dead cards that overlap, cards beyond the deck, requests whose total weight reaches 2^64; random choices beyond the ones of one seed",
    asserts={1: "wrong error for invalid arguments", 2: "possible request refused", 3: "impossible request not reported as conflicting", 4: "partly impossible ranges", 5: "full ranges refused", 6: "largest number of dead cards", 7: "conflict",
             11: "equity outside 0..1", 12: "shape of the result", 13: "equities do not sum to 1"},
)

def _c15(t, boards):
    return ([J("c15_full", [k, nb, h], time=t, opts=_P, maxwit=1) for k in boards for nb in ((5, 4) if k else (5, 4, 3)) for h in (0, 100)]
            + [J("c15_live", [k, nb, n, h, p, 0], time=t, opts=_P, maxwit=1) for k in boards for nb, n, h, p in ((5, 12, 100, 2), (4, 10, 100, 2), (3, 10, 0, 2), (0, 9, 100, 2), (4, 8, 100, 3), (5, 7, 0, 3))]
            + [J("c15_live", [k, nb, n, h, 2, 1], time=t, opts=_P, maxwit=1) for k in boards for nb, n, h in ((5, 11, 100), (4, 10, 0), (0, 9, 100), (3, 9, 0))])


PROPS["C15"] = dict(
    feature="c15",
    quick=_c15(300, (0, 2, 4, 6)),
    thorough=_c15(1200, range(10)) + [J("c15_full", [k, 3, h], time=1200, opts=_P, maxwit=1) for k in range(10) for h in (0, 100)] + [J("c15_live", [k, b, 13 - (b > 3), 0, 3, 0], time=1200, opts=_P, maxwit=1) for k in (0, 3, 5) for b in (0, 3, 5)],
    bounds="ten boards (quick: four) and their first three and four cards: a range of all 1326 combos, one weight per class, every seventh weight symbolic, against two combos; two and three players with every combo of 7..12 live cards, each weight symbolic, on complete, partial and empty boards, also with hands and classes that are never dealt because the other player always holds a certain card; the same with fixed weights, for the quotients",
    outside="other boards; quotients for other than the fixed weights; class totals beyond 2^64 (their parts would have overflowed before); tie rates of made-hand and draw rows",
    asserts={1: "shape of the result", 2: "possible combo marked invalid", 3: "weight of a hand", 4: "category of a hand", 5: "draw flags of a hand", 6: "impossible combo not empty", 7: "totals of the hands do not sum to the weight of all deals",
             8: "wins of the hands do not sum to the player's", 9: "ties of the hands do not sum to the player's", 10: "class not found by name", 11: "validity of a class", 12: "refused", 13: "hand not found by its name", 20: "wins of a class", 21: "ties of a class", 22: "total of a class",
             23: "shared ties of a class", 24: "equity of a class", 25: "win rate of a class", 26: "weight of a class", 27: "tie rate of a class", 30: "wins of a made-hand row", 31: "ties of a made-hand row", 32: "total of a made-hand row",
             33: "shared ties of a made-hand row", 34: "equity of a made-hand row", 35: "win rate of a made-hand row", 40: "wins of a draw row", 41: "ties of a draw row", 42: "total of a draw row", 43: "shared ties of a draw row",
             44: "equity of a draw row", 45: "win rate of a draw row", 60: "equity of a hand", 61: "win rate of a hand", 62: "tie rate of a hand"},
)

def _c16(t, rows):
    """family, threads, preemptions, free choices, holdings at a time, cancel, symbolic weights, shards"""
    return [J("c16_run", [f, n, p + 256 * c, b, k, s], shards=sh, time=t, opts=_P, maxwit=1) for f, n, p, c, b, k, s, sh in rows]


_C16 = [(0, 1, 0, 0, 0, 0, 0, 1), (0, 3, 0, 0, 2, 0, 0, 1), (1, 4, 1, 0, 5, 0, 0, 4), (0, 2, 1, 1, 4, 0, 0, 2), (1, 2, 2, 0, 9, 0, 0, 8), (1, 3, 1, 2, 12, 0, 0, 4), (2, 2, 1, 1, 5, 0, 1, 3), (3, 2, 0, 1, 0, 0, 0, 1)]
_C16 += [(0, 2, 1, 1, 4, k, 0, 2) for k in (1, 2, 3)]
_C16 += [(4, 1, 0, 0, 0, k, 0, 1) for k in (0, 1, 2, 3)] + [(4, 2, 0, 1, 5, k, 0, 1) for k in (0, 1, 3)] + [(4, 2, 1, 0, 17, 3, 0, 4), (4, 3, 0, 1, 7, 0, 0, 1), (5, 2, 1, 0, 10, 0, 0, 2)]
PROPS["C16"] = dict(
    feature="c16",
    hook=True,
    engine_confirms=True,
    quick=_c16(400, _C16),
    thorough=_c16(1500, _C16 + [(0, 2, 2, 1, 4, k, 0, 16) for k in (0, 1, 2)] + [(1, 3, 2, 0, 12, 0, 0, 32), (1, 4, 1, 3, 5, 0, 0, 16), (2, 3, 1, 2, 4, 0, 1, 16), (3, 2, 1, 1, 0, 0, 0, 16), (0, 3, 1, 3, 5, 0, 0, 16), (0, 4, 1, 1, 4, 3, 0, 16), (4, 2, 1, 0, 9, 0, 0, 16), (4, 3, 1, 0, 17, 4, 0, 32), (5, 2, 2, 0, 16, 0, 0, 32)]),
    fallback=_c16(400, _C16),
    bounds="two to four workers on six sets of ranges (flops with 990 boards per holding, two of them with a hand of its own for each holding and enough boards that every worker hands in its counts several times, a complete board with three players, a turn with four players and symbolic weights, two holdings without board, shared out as the program does): every schedule with the stated number of preemptions at atomic operations (one; two for two workers on a complete board and in the thorough tier) and of free choices between threads that can run when one blocks or ends (none to three), the cancel token set from the start or at the first or second callback; batches of two to twelve holdings (cfg hook), so that they are shared by the workers",
    outside="more preemptions; weak memory orders (the schedules are interleavings); more than four workers; the first callbacks after cancelling are not bounded in time unless the token was set before the start",
    asserts={1: "shape of the result", 2: "winner-set totals", 3: "wins of a player", 4: "total of a hand", 5: "wins of a hand", 6: "ties of a hand", 10: "shared ties of a player", 11: "equity outside 0..1", 12: "equity", 13: "shared ties of a hand", 14: "equity of a hand",
             15: "win rate of a hand", 16: "tie rate of a hand", 17: "equities do not sum to 1", 20: "refused", 30: "progress above 100", 31: "fewer callbacks than workers", 32: "cancelled counts do not agree with each other", 33: "cancelled run counts a deal twice",
             34: "workers go on after cancelling", 35: "weights of the hands after cancelling"},
)

_Q = ["--steps", "2000000000"]


def _forced(t, l):
    return [J("c17_forced", list(a), time=t, opts=_Q, maxwit=1) for a in l]


def _c17(t, first, nxt, count):
    return ([J("c17_first", list(a), time=t, opts=_Q, maxwit=2) for a in first] + [J("c17_next", list(a), time=t, opts=_Q, maxwit=2) for a in nxt] + [J("c17_count", list(a), time=t, opts=_Q, maxwit=1) for a in count])


PROPS["C17"] = dict(
    feature="c17",
    hook=True,
    quick=_c17(300, [(0, 5, 4), (0, 4, 4), (0, 3, 5), (1, 5, 3), (1, 4, 3), (1, 3, 5), (1, 2, 5), (2, 5, 4), (0, 2, 6)],
               [(0, 5, 0, 3, 6), (0, 5, 4094, 3, 6), (0, 4, 0, 2, 4), (0, 4, 4095, 1, 4), (0, 4, 4094, 2, 6), (1, 5, 0, 3, 5), (1, 4, 0, 2, 4), (1, 4, 4095, 2, 6), (2, 5, 4094, 1, 3), (2, 5, 4095, 1, 4), (2, 5, 100, 2, 2), (0, 3, 8191, 1, 5), (1, 3, 50, 1, 4)],
               [(f, b, 1, s, n, 0) for f in (0, 1, 2) for b, s, n in ((5, 1, 1), (4, 0, 5000), (3, 1, 1))]
               + [(f, b, 4, s, n, 1) for f, b, s, n in ((0, 4, 0, 5000), (0, 5, 1, 1), (1, 3, 1, 1), (1, 5, 0, 1), (2, 4, 0, 1))])
    + _forced(300, [(2, 5, 1), (2, 4, 2), (3, 3, 3), (4, 5, 4), (3, 4, 5)]),
    thorough=_c17(1500, [(f, b, 10 - b) for f in (0, 1, 2) for b in (5, 4, 3, 2, 1)], [(f, b, n, 2, 9 - b) for f in (0, 1, 2) for b in (5, 4, 3) for n in (0, 77, 4094, 4095, 8191)], [(f, b, sd, s, n, th) for f in (0, 1, 2) for b in (0, 3, 4, 5) for sd in (2, 3) for s, n in ((1, 1), (0, 9000)) for th in (0, 1)])
    + _forced(1500, [(n, b, s) for n in (2, 3, 4, 5, 6) for b in (0, 2, 3, 4, 5) for s in (11, 12)]),
    fallback=_forced(300, [(n, b, s) for n in (2, 3, 4) for b in (3, 4, 5) for s in (1, 2)]),
    bounds="two players whose combos share cards, three players joined to one range (a dozen live cards), and two players with ranges of 140 and more combos that are not joined (full deck), boards of two to five cards (thorough: one): the first deal, and the next one to three after 0, 50, 100, 4094, 4095 and 8191 deals (a batch has 4096), for every value of up to 2..7 random words, rejected ones included; whole batches of 4096 and 8192 deals of fixed random numbers with symbolic weights, counted deal by deal, also through approx_equity itself with combos that cannot be dealt in the ranges; two to four players with a single possible deal and symbolic weights",
    outside="more than the stated number of random words (long runs of rejected cards or holdings); other shapes of ranges; that the deals are equally likely (C22)",
    asserts={1: "shape of a deal", 2: "hand that is not a combo of the player's range, or counted for another one", 3: "board card that is dead", 4: "board does not complete the given one to five cards", 5: "card used twice, or dead", 6: "weight of a deal", 7: "refused",
             8: "number of deals", 9: "winner-set totals", 10: "wins of a player", 11: "total of a hand", 12: "wins or ties of a hand"},
)

def _c18(t, stop, thr):
    return [J("c18_stop", list(a), time=t, opts=_Q, maxwit=3) for a in stop] + [J("c18_threads", list(a[:6]), shards=a[6], time=t, opts=_Q, maxwit=1) for a in thr]


PROPS["C18"] = dict(
    feature="c18",
    hook=True,
    engine_confirms=True,
    quick=_c18(300, [(f, s, c, 0) for f, s, c in ((0, 1, 60000), (1, 2, 20000), (2, 3, 9000), (3, 4, 30000), (1, 5, 4097), (0, 6, 8192))] + [(f, s, c, 10) for f, s, c in ((0, 7, 0), (0, 8, 1), (1, 9, 4096), (2, 10, 12289), (3, 11, 13000), (0, 12, 40000))],
               [(0, 1, 2, 0, 0, 4, 1), (1, 2, 3, 0, 0, 6, 1), (0, 3, 2, 257, 1, 0, 4), (2, 4, 2, 1, 2, 0, 4), (2, 5, 2, 1, 0, 7, 4), (3, 6, 4, 0, 4, 0, 1)]),
    thorough=_c18(1500, [(f, s, c, 0) for f in range(4) for s in (21, 22, 23) for c in (4097, 30000, 100000)] + [(f, s, c, 10) for f in range(4) for s in (31, 32) for c in (0, 4095, 8193, 30000)],
                  [(f, s, n, 257, k, g, 16) for f in (0, 2, 3) for s, n, k, g in ((41, 2, 0, 6), (42, 2, 3, 0), (43, 3, 1, 0), (44, 3, 4, 5))]),
    fallback=_c18(300, [], [(0, 1, 2, 0, 0, 4, 1), (1, 2, 3, 0, 0, 6, 1), (0, 3, 2, 257, 1, 0, 4), (2, 4, 2, 1, 2, 0, 4), (2, 5, 2, 1, 0, 7, 4), (3, 6, 4, 0, 4, 0, 1), (2, 7, 1, 0, 0, 6, 1), (0, 8, 1, 0, 2, 0, 1)]),
    bounds="four sets of ranges (two and three players, boards of none, three and five cards, one without deviation), fixed seeds of the operating system's random numbers: one worker with every target that is a multiple of 1/16384 up to 1/16 (symbolic) or one of ten special ones, the token set at the stated deal (0..60000; a batch has 4096), against the deviations recomputed from the deals; two to four workers, every schedule with one preemption at an atomic operation and one free choice, the token set from the start or at a callback",
    outside="other random seeds; that the estimate is close to the true deviation; stopping time of several workers; starts in which a thousand random holdings in a row conflict",
    asserts={1: "progress above 100", 2: "fewer callbacks than workers", 3: "deals of a batch lost", 4: "number of batches", 5: "reported deviation", 6: "sums of the batches", 7: "goes on after the token was set", 8: "goes on although the deviation is below the target",
             9: "stops although the deviation is not below the target", 10: "stops before the token is set", 11: "equity outside 0..1", 12: "counts do not agree with each other", 13: "equities do not sum to 1", 14: "refused", 15: "weights of the hands"},
)

PROPS["C19"] = dict(
    feature="c19",
    quick=[J("c19_draw", [n], time=300) for n in (3, 4)] + [J("c19_made", [n], time=200) for n in (3, 4, 5)]
    + [J("c19_rename", [n, p, r], time=200) for n in (3, 4, 5) for p in (0, 1) for r in ((0, 1, 2) if n == 3 else (1, 2))],
    thorough=[J("c19_draw", [n], time=1500) for n in (3, 4)] + [J("c19_made", [n], time=900) for n in (3, 4, 5)]
    + [J("c19_rename", [n, p, r], time=1500, opts=["--hard", "1200000"]) for n in (3, 4, 5) for p in (0, 1) for r in (0, 1, 2)],
    bounds="every pair of hole cards and every board of three or four (made flush: up to five) cards, all symbolic, every made-hand rank 0..4 (5 for a made flush); the other flags under two renamings of the suits that generate all of them, made-hand ranks 4 and 5 (flop also: 2)",
    outside="made-hand ranks that contradict the cards (a flush without five cards of a suit, or the other way round)",
    asserts={1: "flush draw flag", 2: "backdoor flush draw flag", 3: "nut flag of a draw", 4: "draw flag with a made flush", 5: "nut flag of a made flush", 6: "straight draw flags change when the suits are renamed"},
)

PROPS["C20"] = dict(
    feature="c20",
    quick=[J(e, [n], time=300) for e in ("c20_draw", "c20_made") for n in (3, 4, 5)],
    thorough=[J(e, [n], time=1500) for e in ("c20_draw", "c20_made") for n in (3, 4, 5)],
    bounds="every pair of hole cards and every board of three to five cards, all symbolic, every made-hand rank 0..8",
    outside="made-hand ranks that contradict the cards",
    asserts={1: "straight draw flag although no card completes a straight", 2: "no straight draw flag with four ranks of a straight", 3: "open-ended or double flag with a single completing rank", 4: "backdoor straight flag",
             5: "straight draw flag with a made straight or better"},
)

PROPS["C21"] = dict(
    feature="c21",
    quick=[J("c21_nut", [n, s], time=300) for s in (1, 0) for n in (3, 4, 5)],
    thorough=[J("c21_nut", [n, s], time=1500) for s in (1, 0) for n in (3, 4, 5)],
    bounds="every pair of hole cards and every board of three to five cards, all symbolic, every made-hand rank 0..8",
    outside="made-hand ranks that contradict the cards",
    asserts={1: "nut straight flag although a better straight is possible", 2: "the best possible straight without the flag", 3: "nut straight flag without a made straight"},
)

META = dict(
    setup="cd engine && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/build/engine cargo build --release --offline -q",
    technique="symbolic execution of the crate's LLVM IR, branches and assertions decided by SMT (z3, cvc5), counterexamples replayed natively",
    note="Trusted: rustc up to LLVM IR (release, opt-level 2, overflow checks on), the engine's semantics of that IR (cross-checked on every run by replaying solver models natively), z3/cvc5.",
    notes="One engine (/verif/engine) executes the real code symbolically; harnesses in /verif/harness; check.py drives both. See DESIGN.md.",
    na={},
    hooks=dict(guard="--cfg pokers_verif", enable="RUSTFLAGS=--cfg pokers_verif when the harness of C16, C17 or C18 is built (check.py, cargo_env)", source_commits=["50c85778ba0913eb6a7aed27547142246f32e3f5", "b61ec4e1a558c8f1a9b0f58a07c7b33bf1efc35a"]),
)


def _c22(t, jobs):
    return [J("c22_deal", list(a[:5]) + [int(a[5] > 1)] + list(a[6:]), shards=a[5], time=t, opts=_Q, maxwit=2, freq="c22_freq", cost=t + 10 * a[5] + (1000 if len(a) > 6 else 0)) for a in jobs]


PROPS["C22"] = dict(
    feature="c22",
    hook=True,
    quick=_c22(400, [(0, 5, 0, 1, 2, 1), (0, 4, 0, 1, 3, 1), (1, 4, 0, 1, 3, 1), (2, 4, 0, 1, 3, 1), (0, 3, 0, 1, 3, 1), (1, 3, 0, 1, 3, 1), (0, 4, 0, 2, 4, 1), (1, 5, 0, 3, 4, 1), (1, 4, 0, 2, 4, 1),
                     (0, 4, 4096, 1, 3, 1), (1, 5, 4096, 2, 4, 1), (3, 5, 0, 1, 3, 8)]
               + [(4, 5, 0, d, d + 2, 2, g, c) for d, g, c in ((2, 1, 1), (2, 2, 7), (2, 1, 3), (3, 2, 7), (2, 2, 26), (3, 1, 33))]),
    thorough=_c22(1500, [(0, 5, 0, 4, 7, 1), (2, 4, 0, 1, 4, 8), (2, 3, 0, 1, 3, 8), (2, 3, 0, 1, 4, 8), (0, 3, 0, 1, 4, 8), (1, 3, 0, 1, 4, 8), (0, 4, 0, 2, 5, 8), (1, 4, 0, 3, 6, 8), (0, 4, 4096, 1, 4, 1), (0, 4, 4096, 2, 5, 8), (2, 4, 4096, 1, 3, 8),
                         (3, 5, 0, 1, 3, 8), (3, 5, 0, 2, 3, 8), (3, 5, 0, 3, 4, 8), (3, 5, 4096, 1, 3, 8)]
                  + [(4, 5, 0, d, d + 2, 8, g, c) for d in (2, 3, 4) for g in (1, 2) for c in (1, 3, 7, 15, 23, 26, 33, 41, 44, 57)]),
    fallback=[J("c22_share", [f, 4, s], time=300, opts=_Q, maxwit=1) for f in (0, 1, 2) for s in (1, 2)],
    bounds="two players whose combos share cards, three players joined to one range (a dozen live cards), two players and a full deck, and twice two players with 128 combos each that are not joined and share cards; boards of three to five cards: the first deal, the next one or two, and the first ones after a batch of 4096 deals; for each number of random words up to 2..4 (rejected cards and holdings included): the measure of the random words that lead to each legal deal, counted exactly (for the deals after the first of the large ranges: given one random word of the first deal, among those in which that player's hand stays)",
    outside="more than the stated number of random words; other shapes of ranges; boards of fewer cards; dependence between deals; the generator of the random words; differences below a millionth",
    asserts={1: "a deal that is not legal", 2: "deals that are not equally likely", 3: "how often a hand is dealt in a run (only when the hooks do not build)"},
)
