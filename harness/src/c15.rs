//! C15: the entries of hands, classes, made hands and draws add up to the same deals.
use crate::e2e::*;
use crate::sx;
use pokers::{get_card_index, get_draw, Hand, SimulationResults, UnitResults};

fn near(a: f64, b: f64) -> bool {
    let d = a - b;
    (d < 1e-9) & (d > -1e-9)
}
#[derive(Clone, Copy, Default)]
struct Sum {
    wins: u64,
    ties: u64,
    total: u64,
    shared: f64,
    weight: u64,
    dealt: u64,
}
impl Sum {
    fn add(&mut self, h: &UnitResults, w: u8) {
        self.wins += h.wins;
        self.ties += h.ties;
        self.total += h.total;
        self.shared += h.corrected_ties;
        self.weight += w as u64;
        self.dealt += 1;
    }
    /// first: base of the assertion ids; shares: compare quotients as well
    fn same(&self, g: &UnitResults, first: u32, shares: bool) {
        sx::check(g.wins == self.wins, first);
        sx::check(g.ties == self.ties, first + 1);
        sx::check(g.total == self.total, first + 2);
        if shares {
            let t = (self.total as f64).max(1.);
            sx::check(near(g.corrected_ties / t, self.shared / t), first + 3);
            sx::check(near(g.equity, (self.wins as f64 + self.shared) / t), first + 4);
            sx::check(near(g.winrate, self.wins as f64 / t), first + 5);
        }
    }
}
const NAMES: &[u8; 13] = b"23456789TJQKA";
fn name(hi: usize, lo: usize, suited: bool) -> String {
    let mut s = String::with_capacity(4);
    s.push(NAMES[hi] as char);
    s.push(NAMES[lo] as char);
    if hi != lo {
        s.push(if suited { 's' } else { 'o' });
    }
    s
}
fn format_pair(a: u8, b: u8) -> String {
    let mut s = String::with_capacity(4);
    for x in [a, b] {
        s.push(NAMES[x as usize / 4] as char);
        s.push(b"shcd"[x as usize & 3] as char);
    }
    s
}
/// classes: 13 * higher rank + lower rank if suited or a pair, the other way round if not
fn class(c: &C) -> usize {
    let (a, b) = (c.0.max(c.1) as usize, c.0.min(c.1) as usize);
    if a & 3 == b & 3 {
        13 * (a / 4) + b / 4
    } else {
        13 * (b / 4) + a / 4
    }
}
pub fn whole(v: &[Vec<C>], r: &SimulationResults, board: u64, dead: u64, shares: bool) {
    let n = v.len();
    let nb = board.count_ones();
    let b = board_hand(board);
    let mut deals = 0;
    for x in &r.wins_by_mask {
        deals += x;
    }
    sx::check(r.hand_results.len() == 1326 * n && r.combo_results.len() == 169 * n, 1);
    for i in 0..n {
        let mut valid = [false; 1326];
        let mut all = Sum::default();
        let mut classes = [Sum::default(); 169];
        let mut made = [Sum::default(); 9];
        let mut draws = [Sum::default(); 10];
        for c in &v[i] {
            if bits(c) & (board | dead) != 0 {
                continue;
            }
            let k = get_card_index(c.0, c.1);
            valid[k] = true;
            let h = &r.hand_results[1326 * i + k];
            sx::check(h.valid, 2);
            sx::check(h.weight == c.2 as u32, 3);
            all.add(h, c.2);
            if h.total > 0 {
                classes[class(c)].add(h, c.2);
            }
            if shares {
                let t = (h.total as f64).max(1.);
                sx::check(near(h.equity, (h.wins as f64 + h.corrected_ties) / t), 60);
                sx::check(near(h.winrate, h.wins as f64 / t), 61);
                sx::check(near(h.tierate, h.ties as f64 / t), 62);
                let mut s = String::with_capacity(4);
                for x in [c.0.max(c.1), c.0.min(c.1)] {
                    s.push(NAMES[x as usize / 4] as char);
                    s.push(b"shcd"[x as usize & 3] as char);
                }
                // pairs: spades before hearts before clubs before diamonds
                if c.0 / 4 == c.1 / 4 {
                    s = format_pair(c.0.min(c.1), c.0.max(c.1));
                }
                match r.get_hand_result(i, s) {
                    Ok(g) => sx::check(g.wins == h.wins && g.ties == h.ties && g.total == h.total && g.weight == h.weight && g.valid, 13),
                    Err(_) => sx::check(false, 13),
                }
            }
            if nb >= 3 {
                let holding = Hand::from_hole_cards(c.0, c.1);
                let cat = ((b + holding).evaluate() / 4096) as usize - 1;
                sx::check(h.rank as usize == cat, 4);
                made[cat].add(h, c.2);
                if nb < 5 {
                    let d = get_draw(holding, b, cat as u8);
                    sx::check(h.draw == d, 5);
                    for k in 0..7 {
                        if d >> k & 1 == 1 {
                            draws[k].add(h, c.2);
                        }
                    }
                    if d & 128 != 0 {
                        draws[if d & 32 != 0 {
                            8
                        } else if d & 64 != 0 {
                            7
                        } else {
                            9
                        }]
                        .add(h, c.2);
                    }
                }
            }
        }
        for k in 0..1326 {
            if !valid[k] {
                let h = &r.hand_results[1326 * i + k];
                sx::check(!h.valid && h.total == 0 && h.wins == 0 && h.ties == 0, 6);
                sx::check(h.equity == 0. && h.winrate == 0. && h.tierate == 0., 6);
            }
        }
        sx::check(all.total == deals, 7);
        sx::check(all.wins == r.wins[i], 8);
        if shares {
            sx::check(near(all.shared / (deals as f64).max(1.), r.ties[i] / (deals as f64).max(1.)), 9);
        }
        for hi in 0..13 {
            for lo in 0..=hi {
                for s in 0..if hi == lo { 1 } else { 2 } {
                    let w = &classes[if s == 0 { 13 * hi + lo } else { 13 * lo + hi }];
                    let g = match r.get_combo_result(i, name(hi, lo, s == 0)) {
                        Ok(g) => g,
                        Err(_) => {
                            sx::check(false, 10);
                            return;
                        }
                    };
                    sx::check(g.valid == (w.dealt > 0), 11);
                    w.same(&g, 20, shares);
                    let size = if hi == lo { 6 } else if s == 0 { 4 } else { 12 };
                    sx::check(g.weight as u64 == w.weight / size, 26);
                    if shares {
                        sx::check(near(g.tierate, w.ties as f64 / (w.total as f64).max(1.)), 27);
                    }
                }
            }
        }
        if nb >= 3 {
            sx::check(r.board_results.len() == 9 * n && r.board_draws.len() == 10 * n, 1);
            for k in 0..9 {
                made[k].same(&r.board_results[9 * i + k], 30, shares);
            }
            for k in 0..10 {
                draws[k].same(&r.board_draws[10 * i + k], 40, shares);
            }
        }
    }
}
fn go(v: &[Vec<C>], board: u64, dead: u64, shares: bool) {
    match exact(v, board, dead, 1) {
        Ok(r) => whole(v, &r, board, dead, shares),
        Err(_) => sx::check(false, 12),
    }
    sx::reach(100);
}
const BOARDS: [[u8; 5]; 10] = [
    // two tone, straight and flush draws
    [48, 37, 28, 40, 3],
    // paired
    [36, 37, 10, 23, 48],
    // one suit
    [20, 28, 36, 5, 9],
    // three in a row
    [33, 28, 26, 18, 51],
    // wheel
    [49, 2, 7, 12, 44],
    // trips
    [4, 5, 6, 50, 51],
    // four of a suit, straight flush near
    [24, 28, 32, 40, 1],
    // two pair
    [12, 13, 44, 45, 22],
    // broadway, one card of each suit
    [48, 45, 42, 39, 32],
    // a straight flush on the board
    [3, 7, 11, 15, 19],
];
fn board_of(k: u64, cards: u64) -> u64 {
    BOARDS[k as usize].iter().take(cards as usize).fold(0, |m, c| m | 1 << c)
}
/// params: board, number of its cards, highest symbolic weight (0: fixed weights and quotients). The first player may hold any
/// combo, with one weight per class; the second holds one of two. A deck that leaves few cards to come.
#[no_mangle]
pub extern "C" fn c15_full() {
    let nb = sx::param(1);
    let board = board_of(sx::param(0), nb);
    let hi = sx::param(2);
    let mut v: Vec<Vec<C>> = Vec::with_capacity(2);
    // the second player's cards
    let mut free: Vec<u8> = Vec::with_capacity(52);
    for k in 0..52u32 {
        let c = ((k * 11 + 5) % 52) as u8;
        if board >> c & 1 == 0 {
            free.push(c);
        }
    }
    let q: Vec<C> = vec![(free[0], free[1], 1), (free[2], free[3], 3)];
    let mut w = [0u8; 169];
    for k in 0..169 {
        w[k] = if hi == 0 { (k * 37 % 100 + 1) as u8 } else if k % 7 == 0 { weight(hi) } else { (k % 100 + 2) as u8 };
    }
    let mut p: Vec<C> = Vec::with_capacity(1326);
    let mut one = true;
    for a in 1..52u8 {
        for b in 0..a {
            let c = (a, b, 0);
            let mut x = w[class(&c)];
            if bits(&c) & board == 0 && one {
                x = 1;
                one = false;
            }
            p.push((a, b, x));
        }
    }
    v.push(p);
    v.push(q);
    go(&v, board, 0, hi == 0);
}
/// params: board, its cards, live cards besides, highest weight, players, never: all players hold any combo of the live cards, with weights
/// of their own; never: the second always holds a certain card
#[no_mangle]
pub extern "C" fn c15_live() {
    let nb = sx::param(1);
    let board = board_of(sx::param(0), nb);
    let hi = sx::param(3);
    let never = sx::param(5) != 0;
    let mut free: Vec<u8> = Vec::with_capacity(52);
    let mut dead = 0;
    for k in 0..52u64 {
        let c = ((k * 11 + 5 * sx::param(0)) % 52) as u8;
        if board >> c & 1 == 0 {
            if (free.len() as u64) < sx::param(2) {
                free.push(c);
            } else {
                dead |= 1u64 << c;
            }
        }
    }
    let mut v: Vec<Vec<C>> = Vec::with_capacity(2);
    for i in 0..sx::param(4) as usize {
        let mut p: Vec<C> = Vec::with_capacity(100);
        for x in 0..free.len() {
            // the others always hold the first card, so many hands and whole classes of the first are never dealt
            let ys = if never && i > 0 { x.min(if (x as u64) < 3 { 1 } else { 0 }) } else { x };
            for y in 0..ys {
                let (a, b) = (free[x].max(free[y]), free[x].min(free[y]));
                let k = p.len();
                p.push((a, b, if k == 0 { 1 } else if hi > 0 { weight(hi) } else { ((7 * i + k) % 100 + 1) as u8 }));
            }
        }
        // some that are not possible
        p.push((if dead >> 50 & 1 == 1 { 50 } else { 51 }, free[0].min(40), 9));
        let last = p.len() - 1;
        if bits(&p[last]) & (board | dead) == 0 || p[last].0 == p[last].1 {
            p.pop();
        }
        v.push(p);
    }
    go(&v, board, dead, hi == 0);
}
