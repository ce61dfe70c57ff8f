//! C11: combining ranges keeps exactly the legal joint deals.
use crate::sx;
use pokers::equity_calculator::CombinedRange;
use pokers::hand_range::Combo;
use pokers::{Hand, HandRange};

type C = (u8, u8, u8);
fn bits(c: &C) -> u64 {
    1u64 << c.0 | 1u64 << c.1
}
/// every way to pick one combo per member, in turn
fn picks(v: &[Vec<C>], members: &[usize], at: usize, used: u64, cur: &mut Vec<C>, f: &mut impl FnMut(&[C])) {
    if at == members.len() {
        f(cur);
        return;
    }
    for c in &v[members[at]] {
        if used & bits(c) == 0 {
            cur.push(*c);
            picks(v, members, at + 1, used | bits(c), cur, f);
            cur.pop();
        }
    }
}
fn run(v: &[Vec<C>], exact: bool) {
    let mut ranges = Vec::with_capacity(9);
    for r in v {
        ranges.push(HandRange { hands: r.iter().map(|x| Combo(x.0, x.1, x.2)).collect(), char_vec: Vec::new() });
    }
    let groups = CombinedRange::from_ranges(&ranges);
    let mut seen = [0u32; 9];
    for g in &groups {
        let members = &g.players()[..g.player_count()];
        for &m in members {
            sx::check(m < v.len(), 1);
            seen[m] += 1;
        }
    }
    for s in &seen[..v.len()] {
        sx::check(*s == 1, 1);
    }
    for g in &groups {
        let members = &g.players()[..g.player_count()];
        sx::check(g.size() == g.combos().len(), 2);
        for c in g.combos() {
            let mut mask = 0;
            for (k, _) in members.iter().enumerate() {
                let h = &c.hole_cards[k];
                mask |= bits(h);
                sx::check(c.hands[k] == Hand::from_hole_cards(h.0, h.1), 3);
            }
            sx::check(c.mask == mask, 4);
        }
        let mut n = 0;
        if exact {
            picks(v, members, 0, 0, &mut Vec::with_capacity(9), &mut |want| {
                n += 1;
                let mut any = false;
                for c in g.combos() {
                    let h: &[C] = &c.hole_cards;
                    let mut ok = true;
                    for (k, w) in want.iter().enumerate() {
                        ok &= (h[k].0 == w.0) & (h[k].1 == w.1) & (h[k].2 == w.2);
                    }
                    any |= ok;
                }
                sx::check(any, 5);
            });
        } else {
            // concrete cards: the sorted holdings agree
            let key = |h: &[C]| h.iter().fold(0u128, |k, c| k << 12 | (c.0 as u128) << 6 | c.1 as u128);
            let mut want = Vec::with_capacity(20000);
            picks(v, members, 0, 0, &mut Vec::with_capacity(9), &mut |w| {
                n += 1;
                want.push(key(w));
            });
            let mut got: Vec<u128> = Vec::with_capacity(20000);
            for c in g.combos() {
                got.push(key(&c.hole_cards[..members.len()]));
                for (k, m) in members.iter().enumerate() {
                    let h = &c.hole_cards[k];
                    for o in &v[*m] {
                        if (o.0 == h.0) & (o.1 == h.1) {
                            sx::check(o.2 == h.2, 7);
                        }
                    }
                }
            }
            want.sort_unstable();
            got.sort_unstable();
            sx::check(want == got, 5);
        }
        sx::check(n == g.combos().len(), 6);
        sx::observe(n as u64);
    }
    sx::observe(groups.len() as u64);
    sx::reach(100);
}
fn combo(lo: u64, hi: u64) -> C {
    let (a, b) = (sx::range(lo, hi) as u8, sx::range(lo, hi) as u8);
    sx::assume(a > b);
    (a, b, sx::range(0, 100) as u8)
}
/// param 0: sizes of the ranges as decimal digits; cards (from param 1 to param 2) and weights symbolic
#[no_mangle]
pub extern "C" fn c11_any() {
    let mut v: Vec<Vec<C>> = Vec::with_capacity(9);
    let mut p = sx::param(0);
    while p > 0 {
        let mut r: Vec<C> = Vec::with_capacity(9);
        for _ in 0..p % 10 {
            let c = combo(sx::param(1), sx::param(2));
            for o in &r {
                sx::assume((o.0 != c.0) | (o.1 != c.1));
            }
            r.push(c);
        }
        v.push(r);
        p /= 10;
    }
    v.reverse();
    run(&v, true);
}
/// two ranges too large to be joined with each other (param 0 cards each, every combo of them), and ranges of param 1
/// (decimal digits) symbolic combos from neighbouring cards
#[no_mangle]
pub extern "C" fn c11_large() {
    let n = sx::param(0) as u8;
    let mut big: Vec<C> = Vec::with_capacity(300);
    for a in 0..n {
        for b in 0..a {
            big.push((a, b, 100 - a));
        }
    }
    let mut v: Vec<Vec<C>> = vec![big.clone()];
    let mut p = sx::param(1);
    while p > 0 {
        let mut r: Vec<C> = Vec::with_capacity(9);
        for _ in 0..p % 10 {
            let c = combo(n as u64 - 1, n as u64 + 2);
            for o in &r {
                sx::assume((o.0 != c.0) | (o.1 != c.1));
            }
            r.push((sx::conc(c.0 as u64) as u8, sx::conc(c.1 as u64) as u8, c.2));
        }
        v.push(r);
        p /= 10;
    }
    v.insert(sx::param(2) as usize, big);
    run(&v, false);
}
