//! C02: a Hand describes exactly the set of cards put into it.
use crate::{spec, sx};
use pokers::{Hand, CARDS};

/// n distinct symbolic cards, any order
fn cards(n: usize) -> [u8; 7] {
    let mut c = [0u8; 7];
    let mut seen = 0u64;
    for k in 0..n {
        c[k] = sx::range(0, 51) as u8;
        let b = spec::bit(c[k] as u64);
        sx::assume(seen & b == 0);
        seen |= b;
    }
    c
}
/// params: n, split. Adding one by one, in reverse, and in two parts (hole cards + board) gives one value.
#[no_mangle]
pub extern "C" fn c02_build() {
    let n = sx::param(0) as usize;
    let split = sx::param(1) as usize;
    let c = cards(n);
    let mut a = Hand::default();
    for k in 0..n {
        a += CARDS[c[k] as usize];
    }
    let mut b = Hand::default();
    for k in (0..n).rev() {
        b = b + CARDS[c[k] as usize];
    }
    let mut part = Hand::default();
    for k in split..n {
        part += CARDS[c[k] as usize];
    }
    let d = if split == 2 && n >= 2 {
        part + Hand::from_hole_cards(c[0], c[1])
    } else {
        let mut first = Hand::default();
        let mut started = false;
        for k in 0..split.min(n) {
            if started {
                first += CARDS[c[k] as usize];
            } else {
                first = CARDS[c[k] as usize];
                started = true;
            }
        }
        if started {
            part + first
        } else {
            part
        }
    };
    sx::check(a == b, 1);
    sx::check(a == d, 2);
    let mut want = 0u64;
    for k in 0..n {
        want |= spec::bit(c[k] as u64);
    }
    sx::check(a.get_mask() == want, 3);
    sx::check(a.count() == n as u32, 4);
    // membership for every card
    let q = sx::range(0, 51) as u8;
    let mut member = false;
    for k in 0..n {
        member |= c[k] == q;
    }
    sx::check(a.contains(q) == member, 5);
    let mut ranks = 0u16;
    for k in 0..n {
        ranks |= 1 << (c[k] >> 2);
    }
    sx::check(a.get_rank_mask() == ranks, 6);
    let mut flush = false;
    let mut key = 0u16;
    for s in 0..4u8 {
        let mut cnt = 0;
        let mut m = 0u16;
        for k in 0..n {
            let mine = c[k] & 3 == s;
            cnt += mine as i32;
            m |= (mine as u16) << (c[k] >> 2);
        }
        sx::check(a.suit_count(s) == cnt, 7);
        sx::check(a.get_suit_mask(s) == m, 8);
        flush |= cnt >= 5;
        key |= if cnt >= 5 { m } else { 0 };
    }
    sx::check(a.has_flush() == flush, 9);
    sx::check(a.get_flush_key() == key as usize, 10);
    sx::observe(a.get_key());
    sx::observe(a.get_mask());
    sx::observe(a.get_flush_key() as u64);
    sx::reach(1);
}
/// From a bit mask: every mask of at most seven cards describes its cards.
#[no_mangle]
pub extern "C" fn c02_mask() {
    let m = sx::range(0, (1 << 52) - 1);
    sx::assume(m.count_ones() <= 7);
    let a = Hand::from_bit_mask(m);
    let mut want = 0u64;
    for c in 0..52 {
        if m >> c & 1 == 1 {
            want |= spec::bit(c);
        }
    }
    let mut sum = Hand::default();
    for c in 0..52usize {
        if m >> c & 1 == 1 {
            sum.key = sum.key.wrapping_add(CARDS[c].key);
            sum.mask |= CARDS[c].mask;
        }
    }
    sx::check(a == sum, 23);
    sx::check(a.get_mask() == want, 20);
    sx::check(a.count() == m.count_ones(), 21);
    for s in 0..4 {
        sx::check(a.suit_count(s) == (m & (0x1111111111111 << s)).count_ones() as i32, 22);
    }
    sx::observe(a.get_key());
    sx::reach(1);
}
