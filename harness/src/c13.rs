//! C13: with cards to come, exact equity equals counting every deal and every board.
use crate::e2e::*;
use crate::sx;

fn compare(v: &[Vec<C>], board: u64, dead: u64, shares: bool) {
    let want = naive(v, board, dead);
    match exact(v, board, dead, 1) {
        Ok(r) => {
            same_counts(v, &r, &want);
            if shares {
                same_shares(v, &r, &want);
            }
        }
        Err(_) => sx::check(want.deals == 0, 20),
    }
    sx::observe(want.deals);
    sx::reach(100);
}
/// every suit of two ranks, from the first on
fn suited(hi: u64, lo: u64, from: u64, count: u64, top: u64, board: u64) -> Vec<C> {
    let mut v: Vec<C> = Vec::with_capacity(16);
    let mut unit = false;
    for k in from..16 {
        let (a, b) = (card(hi, k / 4), card(lo, k & 3));
        if a > b && v.len() < count as usize {
            // one combo that the board does not rule out has weight 1, so that the scale stays
            let free = board & (1 << a | 1 << b) == 0;
            v.push((a, b, if free && !unit { 1 } else { weight(top) }));
            unit |= free;
        }
    }
    v
}
/// ranks of the live cards as bits; the rest of the deck is dead
fn dead(live: u64, v: &[Vec<C>], board: u64) -> u64 {
    let mut m = board;
    for r in 0..13 {
        if live >> r & 1 == 1 {
            m |= 15 << (4 * r);
        }
    }
    for p in v {
        for c in p {
            m |= bits(c);
        }
    }
    !m & ((1 << 52) - 1)
}
/// params: board cards, their ranks (hex digits), ranks of the holes (hex digits: two per player), combos of each range,
/// live ranks, largest weight. Suits of the board are forked.
#[no_mangle]
pub extern "C" fn c13_suits() {
    let b = sx::param(0);
    let br = sx::param(1);
    let hr = sx::param(2);
    let count = sx::param(3);
    let live = sx::param(4);
    let hi = sx::param(5);
    let mut board = 0u64;
    let mut key = 0;
    for i in 0..b {
        let s = sx::conc(sx::range(0, 3));
        key = 4 * key + s;
        let c = card(br >> (4 * i) & 15, s);
        if board >> c & 1 == 1 {
            sx::assume(false);
        }
        board |= 1 << c;
    }
    if b > 0 {
        sx::shard(key);
    }
    let mut v: Vec<Vec<C>> = Vec::with_capacity(4);
    let mut i = 0;
    loop {
        let d = hr >> (8 * i) & 0xff;
        if d == 0 {
            break;
        }
        v.push(suited(d >> 4, d & 15, sx::param(6) * i, count >> (8 * i) & 0xff, hi, board));
        i += 1;
    }
    let dead = dead(live, &v, board);
    compare(&v, board, dead, false);
}
/// Nine cards; every choice of param 0 board cards and two hands from them, the rest live, everything else dead.
/// param 1: which cards
#[no_mangle]
pub extern "C" fn c13_place() {
    const DECKS: [[u8; 9]; 6] = [
        // eight to king of one suit, a few others
        [24, 28, 32, 36, 40, 44, 33, 37, 26],
        // ace to six, wheels, with pairs
        [48, 0, 4, 9, 13, 17, 50, 2, 14],
        // four aces, kings and queens
        [48, 49, 50, 51, 44, 45, 46, 40, 41],
        // three ranks in all suits but one
        [1, 2, 3, 21, 22, 23, 40, 41, 42],
        // pairs
        [0, 1, 12, 13, 24, 25, 36, 37, 50],
        // two suits, straights
        [16, 17, 20, 21, 24, 25, 28, 29, 32],
    ];
    let b = sx::param(0);
    let d = DECKS[sx::param(1) as usize];
    // 0 live, 1 board, 2 first hand, 3 second hand
    let mut place = [0u64; 9];
    let mut count = [0u64; 4];
    for i in 0..9 {
        place[i] = sx::conc(sx::range(0, 3));
        count[place[i] as usize] += 1;
        if count[1] > b || count[2] > 2 || count[3] > 2 || count[0] > 5 - b {
            sx::assume(false);
        }
        if i == 2 {
            sx::shard(place[0] * 16 + place[1] * 4 + place[2]);
        }
    }
    let mut board = 0;
    let mut all = 0;
    let mut hands = [[0u8; 2]; 2];
    let mut at = [0; 2];
    for i in 0..9 {
        all |= 1u64 << d[i];
        match place[i] {
            0 => {}
            1 => board |= 1 << d[i],
            p => {
                let p = p as usize - 2;
                hands[p][at[p]] = d[i];
                at[p] += 1;
            }
        }
    }
    let v: Vec<Vec<C>> = hands.iter().map(|h| vec![(h[0].max(h[1]), h[0].min(h[1]), 100)]).collect();
    compare(&v, board, !all & ((1 << 52) - 1), true);
}
/// Which of ten cards are live is forked. params: board cards (of 2s 8d Jh Kc), first of the ten, step, suit of the hands
#[no_mangle]
pub extern "C" fn c13_dead() {
    let b = sx::param(0);
    let s = sx::param(3);
    let mut board = 0u64;
    for (i, c) in [card(0, s), card(6, (s + 1) & 3), card(9, s), card(11, (s + 2) & 3)].iter().enumerate() {
        if (i as u64) < b {
            board |= 1 << c;
        }
    }
    let mut v: Vec<Vec<C>> = Vec::with_capacity(2);
    v.push(vec![(card(12, s), card(10, s), 1), (card(12, (s + 1) & 3), card(10, (s + 1) & 3), weight(100)), (card(12, (s + 1) & 3), card(10, (s + 3) & 3), weight(100))]);
    v.push(vec![(card(8, s), card(7, s), 1), (card(8, (s + 2) & 3), card(8, s), weight(100))]);
    let mut used = board;
    for p in &v {
        for c in p {
            used |= bits(c);
        }
    }
    let mut live = 0u64;
    let mut c = sx::param(1);
    let mut n = 0;
    let mut key = 0;
    for _ in 0..10 {
        while used >> (c % 52) & 1 == 1 || live >> (c % 52) & 1 == 1 {
            c += 1;
        }
        let on = sx::conc(sx::range(0, 1));
        n += on;
        key = 2 * key + on;
        live |= on << (c % 52);
        c += sx::param(2);
    }
    sx::shard(key);
    if n < 5 - b || n > 8 {
        sx::assume(false);
    }
    compare(&v, board, !(live | used) & ((1 << 52) - 1), false);
}
/// Many deals on a flop of three suits: the results are the sums of those for each combo of the first player.
/// params: combos of the first player, of the second, symbolic weights up to
#[no_mangle]
pub extern "C" fn c13_split() {
    let board = 1u64 << card(4, 0) | 1 << card(2, 1) | 1 << card(0, 2);
    let mut a: Vec<C> = Vec::with_capacity(80);
    let mut b: Vec<C> = Vec::with_capacity(80);
    let mut k = 0;
    // offsuit holdings of the ranks 12..9 and 8..5
    for (v, top, n) in [(&mut a, 12u64, sx::param(0) as usize), (&mut b, 8, sx::param(1) as usize)] {
        for i in 0..4 {
            for j in i + 1..4 {
                for s in 0..4u64 {
                    for t in 0..4u64 {
                        if s != t && v.len() < n {
                            k += 1;
                            let w = if v.len() == 0 {
                                1
                            } else if k % 16 == 5 && sx::param(2) > 2 {
                                weight(sx::param(2))
                            } else {
                                (k % 100) as u8 + 1
                            };
                            v.push((card(top - i, s), card(top - j, t), w));
                        }
                    }
                }
            }
        }
    }
    let whole = match exact(&[a.clone(), b.clone()], board, 0, 1) {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 20);
            return;
        }
    };
    let mut by_mask = [0u64; 4];
    let mut wins = vec![0u64; b.len()];
    let mut ties = vec![0u64; b.len()];
    let mut total = vec![0u64; b.len()];
    for c in &a {
        let one = vec![(c.0, c.1, 1)];
        match exact(&[one, b.clone()], board, 0, 1) {
            Ok(r) => {
                let w = c.2 as u64;
                for m in 0..4 {
                    by_mask[m] += w * r.wins_by_mask[m];
                }
                for (i, x) in b.iter().enumerate() {
                    let h = &r.hand_results[1326 + pokers::get_card_index(x.0, x.1)];
                    wins[i] += w * h.wins;
                    ties[i] += w * h.ties;
                    total[i] += w * h.total;
                }
                let h = &r.hand_results[pokers::get_card_index(c.0, c.1)];
                let g = &whole.hand_results[pokers::get_card_index(c.0, c.1)];
                sx::check(g.total == w * h.total && g.wins == w * h.wins && g.ties == w * h.ties, 21);
            }
            Err(_) => sx::check(false, 20),
        }
    }
    for m in 0..4 {
        sx::check(whole.wins_by_mask[m] == by_mask[m], 22);
    }
    for (i, x) in b.iter().enumerate() {
        let h = &whole.hand_results[1326 + pokers::get_card_index(x.0, x.1)];
        sx::check(h.wins == wins[i] && h.ties == ties[i] && h.total == total[i], 23);
    }
    sx::observe(whole.eval_count);
    sx::reach(100);
}
