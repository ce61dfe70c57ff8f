//! C12: on a complete board exact equity credits exactly the best hands.
use crate::e2e::*;
use crate::sx;

fn set(b: &[u8]) -> u64 {
    b.iter().fold(0, |m, c| m | 1 << c)
}
fn compare(v: &[Vec<C>], board: u64, dead: u64, threads: u8, shares: bool) {
    let want = naive(v, board, dead);
    match exact(v, board, dead, threads) {
        Ok(r) => {
            same_counts(v, &r, &want);
            if shares {
                same_shares(v, &r, &want);
            }
            sx::observe(r.eval_count);
        }
        Err(_) => sx::check(want.deals == 0, 20),
    }
    sx::observe(want.deals);
    sx::reach(100);
}
/// K J 9 7 5 of mixed suits; the higher hole card is one of five kickers, the lower one never matters. One player per
/// suit and kicker, so that up to four players tie.
fn ladder(n: usize, from: u64, levels: u64, mut w: impl FnMut(usize, u64) -> u8) -> (Vec<Vec<C>>, u64) {
    let board = set(&[card(11, 0), card(9, 1), card(7, 2), card(5, 3), card(3, 0)]);
    const KICK: [u64; 5] = [12, 10, 8, 6, 4];
    let mut v: Vec<Vec<C>> = Vec::with_capacity(9);
    for i in 0..n {
        let mut r: Vec<C> = Vec::with_capacity(9);
        let low = card(i as u64 / 4, (i as u64 + 1) & 3);
        for k in 0..levels {
            r.push((card(KICK[((from + k) % 5) as usize], i as u64 & 3), low, w(i, k)));
        }
        v.push(r);
    }
    (v, board)
}
/// params: players, first kicker, kickers, largest weight: all deals at once, each with weights of its own
#[no_mangle]
pub extern "C" fn c12_counts() {
    let hi = sx::param(3);
    let (v, board) = ladder(sx::param(0) as usize, sx::param(1), sx::param(2), |_, k| if k == 0 { 1 } else { weight(hi) });
    compare(&v, board, 0, 1, false);
}
/// params: players, first kicker, kickers; concrete weights, shares compared as well
#[no_mangle]
pub extern "C" fn c12_shares() {
    let n = sx::param(0) as usize;
    let a = sx::conc(sx::range(0, 3));
    let b = sx::conc(sx::range(0, 3));
    sx::shard(4 * a + b);
    const W: [[u8; 4]; 4] = [[100, 100, 100, 100], [1, 2, 3, 4], [100, 99, 1, 50], [7, 0, 21, 14]];
    // the total weight of many players has to stay below 2^64
    const SMALL: [[u8; 4]; 4] = [[10, 10, 10, 10], [1, 2, 3, 4], [10, 9, 1, 5], [7, 0, 14, 21]];
    let w = if n > 6 { &SMALL } else { &W };
    let (v, board) = ladder(n, sx::param(1), sx::param(2), |i, k| w[if i % 3 == 0 { a } else { b } as usize][(k as usize + i) & 3]);
    compare(&v, board, 0, 1, true);
}
/// nine cards; every choice of a board and two hands from them. param 0: which cards
#[no_mangle]
pub extern "C" fn c12_deck() {
    const DECKS: [[u8; 9]; 6] = [
        // eight to king of one suit, a few others
        [24, 28, 32, 36, 40, 44, 33, 37, 26],
        // ace to six, wheels, with pairs
        [48, 0, 4, 9, 13, 17, 50, 2, 14],
        // four aces, kings and queens
        [48, 49, 50, 51, 44, 45, 46, 40, 41],
        // one suit
        [1, 9, 13, 21, 25, 33, 41, 45, 49],
        // pairs
        [0, 1, 12, 13, 24, 25, 36, 37, 50],
        // two suits, straights
        [16, 17, 20, 21, 24, 25, 28, 29, 32],
    ];
    let d = DECKS[sx::param(0) as usize];
    // 0 unused, 1 board, 2 first hand, 3 second hand
    let mut place = [0u64; 9];
    let mut count = [0u32; 4];
    for i in 0..9 {
        place[i] = sx::conc(sx::range(1, 3));
        count[place[i] as usize] += 1;
        if count[1] > 5 || count[2] > 2 || count[3] > 2 {
            sx::assume(false);
        }
        if i == 2 {
            sx::shard(place[0] * 9 + place[1] * 3 + place[2]);
        }
    }
    let mut board = 0;
    let mut hands = [[0u8; 2]; 2];
    let mut at = [0; 2];
    for i in 0..9 {
        match place[i] {
            1 => board |= 1 << d[i],
            p => {
                let p = p as usize - 2;
                hands[p][at[p]] = d[i];
                at[p] += 1;
            }
        }
    }
    let v: Vec<Vec<C>> = hands.iter().map(|h| vec![(h[0].max(h[1]), h[0].min(h[1]), 100)]).collect();
    compare(&v, board, 0, 1, true);
}
/// the board is the best hand: every player ties. params: players, combos each, largest weight
#[no_mangle]
pub extern "C" fn c12_plays() {
    let (n, c, hi) = (sx::param(0), sx::param(1), sx::param(2));
    let board = set(&[card(12, 0), card(11, 1), card(10, 2), card(9, 3), card(8, 0)]);
    let v: Vec<Vec<C>> = (0..n).map(|i| (0..c).map(|k| (card(3 + (c * i + k) / 4, (c * i + k) & 3), card(i / 4, i & 3), if k == 0 { 1 } else { weight(hi) })).collect()).collect();
    compare(&v, board, 0, 1, false);
}
/// weights with a common factor params: factor, weight of the other range, largest multiple
#[no_mangle]
pub extern "C" fn c12_scale() {
    let g = sx::param(0) as u8;
    let other = sx::param(1) as u8;
    let hi = (100 / g).min(sx::param(2) as u8);
    let (v, board) = ladder(2, 0, 3, |i, k| {
        if i == 0 {
            if k == 0 {
                g
            } else {
                g * sx::range(1, hi as u64) as u8
            }
        } else {
            other
        }
    });
    compare(&v, board, 0, 1, false);
}
