//! C09: removing conflicting combos keeps exactly the compatible ones.
use crate::sx;
use pokers::hand_range::Combo;
use pokers::HandRange;

fn run(n: usize, cards: impl Fn(usize) -> (u8, u8), board: u64, dead: u64) {
    let mut c: Vec<(u8, u8, u8)> = Vec::with_capacity(64);
    for i in 0..n {
        let (a, b) = cards(i);
        c.push((a, b, sx::range(0, 255) as u8));
    }
    let hands = c.iter().map(|x| Combo(x.0, x.1, x.2)).collect();
    let mut r = HandRange { hands, char_vec: Vec::new() };
    r.remove_conflicting_combos(board, dead);
    let gone = board | dead;
    let mut j = 0;
    for i in 0..n {
        let (a, b, w) = c[i];
        if (gone >> a & 1) | (gone >> b & 1) == 0 {
            sx::check(j < r.hands.len(), 1);
            if j < r.hands.len() {
                let h = r.hands[j];
                sx::check((h.0 == a) & (h.1 == b), 2);
                sx::check(h.2 == w, 3);
            }
            j += 1;
        }
    }
    sx::check(j == r.hands.len(), 4);
    sx::observe(r.hands.len() as u64);
    sx::reach(100);
}
/// param 0: number of combos; every card, weight and mask symbolic
#[no_mangle]
pub extern "C" fn c09_any() {
    let n = sx::param(0) as usize;
    let full = (1u64 << 52) - 1;
    let (board, dead) = (sx::range(0, full), sx::range(0, full));
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        let (a, b) = (sx::range(0, 51) as u8, sx::range(0, 51) as u8);
        sx::assume(a != b);
        v.push((a, b));
    }
    run(n, |i| v[i], board, dead);
}
/// a longer range (param 0 neighbouring combos from param 1 on), board and dead cards symbolic within a window
#[no_mangle]
pub extern "C" fn c09_long() {
    let n = sx::param(0) as usize;
    let at = sx::param(1) as usize;
    let mut all = Vec::with_capacity(1326);
    for a in 0..52u8 {
        for b in 0..a {
            all.push((a, b));
        }
    }
    let lo = all[at].1.min(46);
    let (p, q) = (sx::range(0, 31), sx::range(0, 7));
    run(n, |i| all[at + i], p << lo, q << all[at].0);
}
