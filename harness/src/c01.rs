//! C01: scores order hands exactly as the rules do.
//!
//! Every strength has a canonical hand. `c01_chain` shows that the scores of the canonical hands increase strictly from
//! the weakest to the strongest and carry the category; the other entries show that every hand has the score of the
//! canonical hand of its strength.
use crate::sx;
use pokers::{Hand, CARDS};

/// strength by the rules: category 0..8, then up to five ranks that break ties
fn strength(count: &[u8; 13], n: usize, flush: bool) -> (u8, [u8; 5]) {
    let mut have = 0u32;
    for r in 0..13 {
        if count[r] > 0 {
            have |= 1 << r;
        }
    }
    let mut straight = None;
    if n >= 5 {
        for top in (3..13u32).rev() {
            // the ace also counts below the deuce
            let need = if top == 3 { 0x100f } else { 0x1f << (top - 4) };
            if have & need == need {
                straight = Some(top as u8);
                break;
            }
        }
    }
    // ranks by multiplicity, then by rank, both falling
    let take = |wanted: &[u8], t: &mut [u8; 5]| {
        let mut used = 0u32;
        let mut k = 0;
        for &w in wanted {
            for r in (0..13).rev() {
                if count[r] >= w && used >> r & 1 == 0 {
                    used |= 1 << r;
                    t[k] = r as u8;
                    k += 1;
                    break;
                }
            }
        }
    };
    // 255 marks a place without a card
    let mut t = [255u8; 5];
    if flush {
        if let Some(s) = straight {
            t[0] = s;
            return (8, t);
        }
    }
    let groups = |w: u8| {
        let mut k = 0;
        for c in count {
            k += (*c >= w) as u32;
        }
        k
    };
    if groups(4) > 0 {
        take(&[4, 1], &mut t);
        return (7, t);
    }
    if groups(3) > 0 && groups(2) > 1 {
        take(&[3, 2], &mut t);
        return (6, t);
    }
    if flush {
        take(&[1, 1, 1, 1, 1], &mut t);
        return (5, t);
    }
    if let Some(s) = straight {
        t[0] = s;
        return (4, t);
    }
    if groups(3) > 0 {
        take(&[3, 1, 1], &mut t);
        return (3, t);
    }
    if groups(2) > 1 {
        take(&[2, 2, 1], &mut t);
        return (2, t);
    }
    if groups(2) > 0 {
        take(&[2, 1, 1, 1], &mut t);
        return (1, t);
    }
    take(&[1, 1, 1, 1, 1], &mut t);
    (0, t)
}
fn key(s: &(u8, [u8; 5])) -> u64 {
    let mut k = s.0 as u64;
    for r in s.1 {
        k = k << 4 | (r.wrapping_add(1) & 15) as u64;
    }
    k
}
/// a hand of that strength with at most five cards
fn canonical(s: &(u8, [u8; 5])) -> Hand {
    let t = &s.1;
    let mut r = [255u8; 5];
    match s.0 {
        8 | 4 => {
            for i in 0..5u8 {
                r[i as usize] = if t[0] == 3 && i == 4 { 12 } else { t[0] - i };
            }
        }
        7 => r = [t[0], t[0], t[0], t[0], t[1]],
        6 => r = [t[0], t[0], t[0], t[1], t[1]],
        3 => r = [t[0], t[0], t[0], t[1], t[2]],
        2 => r = [t[0], t[0], t[1], t[1], t[2]],
        1 => r = [t[0], t[0], t[1], t[2], t[3]],
        _ => r = *t,
    }
    let mut h = Hand::default();
    let mut count = [0u8; 13];
    for (i, &x) in r.iter().enumerate() {
        if x < 13 {
            let mut suit = count[x as usize];
            if s.0 == 0 || s.0 == 4 {
                suit = (i == 0) as u8;
            }
            count[x as usize] += 1;
            h += CARDS[4 * x as usize + suit as usize];
        }
    }
    h
}
/// counts of the next multiset of n ranks, with at most four of each
fn multisets(n: usize, from: usize, count: &mut [u8; 13], f: &mut impl FnMut(&[u8; 13])) {
    if n == 0 {
        f(count);
        return;
    }
    for r in from..13 {
        if count[r] < 4 {
            count[r] += 1;
            multisets(n - 1, r, count, f);
            count[r] -= 1;
        }
    }
}
/// param 0: number of cards (2..5): all strengths in order
#[no_mangle]
pub extern "C" fn c01_chain() {
    let n = sx::param(0) as usize;
    let mut all: Vec<(u64, (u8, [u8; 5]))> = Vec::with_capacity(8000);
    let mut count = [0u8; 13];
    multisets(n, 0, &mut count, &mut |c| {
        let s = strength(c, n, false);
        all.push((key(&s), s));
        if n == 5 && c.iter().all(|&x| x < 2) {
            let s = strength(c, n, true);
            all.push((key(&s), s));
        }
    });
    all.sort_unstable_by_key(|x| x.0);
    let mut last = 0u16;
    for i in 0..all.len() {
        if i > 0 {
            sx::assume(all[i - 1].0 < all[i].0);
        }
        let v = canonical(&all[i].1).evaluate();
        sx::check(v > last, 1);
        sx::check(v / 4096 == all[i].1 .0 as u16 + 1, 2);
        last = v;
    }
    sx::observe(all.len() as u64);
    sx::reach(100);
}
/// param 0: number of cards; every multiset of ranks, suits symbolic
#[no_mangle]
pub extern "C" fn c01_plain() {
    let n = sx::param(0) as usize;
    sx::merge(false);
    let mut r = [0u64; 7];
    let mut count = [0u8; 13];
    for k in 0..n {
        r[k] = sx::conc(sx::range(if k > 0 { r[k - 1] } else { 0 }, 12));
        count[r[k] as usize] += 1;
        if count[r[k] as usize] > 4 {
            sx::assume(false);
        }
        if k == 2 {
            sx::shard(r[0] * 169 + r[1] * 13 + r[2]);
        }
    }
    sx::merge(true);
    let mut suits = [0u64; 7];
    let mut h = Hand::default();
    for k in 0..n {
        // shifted so that all zero is a hand without a flush
        let alone = (k == 0 || r[k - 1] != r[k]) && (k + 1 == n || r[k + 1] != r[k]);
        let mut j = 0;
        while j < k && r[k - 1 - j] == r[k] {
            j += 1;
        }
        let s = (sx::range(0, 3) + if alone { k as u64 } else { j as u64 }) & 3;
        if k > 0 && r[k] == r[k - 1] {
            sx::assume(suits[k - 1] < s);
        }
        suits[k] = s;
        h += CARDS[(4 * r[k] + s) as usize];
    }
    let want = canonical(&strength(&count, n, false)).evaluate();
    let plain = h.evaluate_without_flush();
    sx::check(plain == want, 3);
    // exactly when no suit has five cards: c01_noflush, c01_flush
    sx::assume(!h.has_flush());
    sx::check(h.evaluate() == want, 4);
    sx::observe(want as u64);
    sx::reach(100);
}
/// params: number of cards, number of cards of the flush suit; every set of flush ranks, flush suit and other cards
/// symbolic
#[no_mangle]
pub extern "C" fn c01_flush() {
    let n = sx::param(0) as usize;
    let m = sx::param(1) as usize;
    sx::merge(false);
    let mut r = [0u64; 7];
    let mut count = [0u8; 13];
    for k in 0..m {
        r[k] = sx::conc(sx::range(if k > 0 { r[k - 1] + 1 } else { 0 }, 12 - (m - 1 - k) as u64));
        count[r[k] as usize] = 1;
        if k == 2 {
            sx::shard(r[0] * 169 + r[1] * 13 + r[2]);
        }
    }
    sx::merge(true);
    let suit = sx::conc(sx::range(0, 3));
    let mut h = Hand::default();
    for k in 0..m {
        h += CARDS[(4 * r[k] + suit) as usize];
    }
    let mut before = 0;
    for k in m..n {
        let c = sx::range(0, 51);
        sx::assume(c & 3 != suit);
        if k > m {
            sx::assume(before < c);
        }
        before = c;
        h += CARDS[c as usize];
    }
    let want = canonical(&strength(&count, m, true)).evaluate();
    sx::check(h.evaluate() == want, 5);
    sx::observe(want as u64);
    sx::reach(100);
}
/// param 0: number of cards, all symbolic: without five of a suit there is no flush
#[no_mangle]
pub extern "C" fn c01_noflush() {
    let n = sx::param(0) as usize;
    let mut held = [0u64; 4];
    let mut seen = 0u64;
    let mut h = Hand::default();
    for _ in 0..n {
        let c = sx::range(0, 51);
        sx::assume(seen >> c & 1 == 0);
        seen |= 1 << c;
        for x in 0..4u64 {
            held[x as usize] += (c & 3 == x) as u64;
        }
        h += CARDS[c as usize];
    }
    for x in held {
        sx::assume(x < 5);
    }
    sx::check(!h.has_flush(), 6);
    sx::reach(100);
}
