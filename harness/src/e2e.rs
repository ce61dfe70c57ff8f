//! Running the calculators, and a direct count of every deal to compare them with.
use crate::{spec, sx};
use pokers::hand_range::Combo;
use pokers::{exact_equity, get_card_index, Hand, HandRange, SimulationResults, SimulatorError, CARDS};
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

/// a combo: two cards and a weight
pub type C = (u8, u8, u8);

pub fn ranges(v: &[Vec<C>]) -> Vec<HandRange> {
    let mut r = Vec::with_capacity(16);
    for p in v {
        r.push(HandRange { hands: p.iter().map(|x| Combo(x.0, x.1, x.2)).collect(), char_vec: Vec::new() });
    }
    r
}
pub fn exact(v: &[Vec<C>], board: u64, dead: u64, threads: u8) -> Result<SimulationResults, SimulatorError> {
    exact_equity(&ranges(v), board, dead, threads, Arc::new(AtomicBool::new(false)), |_| {})
}
pub fn bits(c: &C) -> u64 {
    1u64 << c.0 | 1u64 << c.1
}
pub fn board_hand(board: u64) -> Hand {
    let mut h = Hand::default();
    for c in 0..52 {
        if board >> c & 1 == 1 {
            h += CARDS[c];
        }
    }
    h
}
/// counts of one hand of one player
#[derive(Clone, Copy, Default)]
pub struct Cell {
    pub wins: u64,
    pub ties: u64,
    pub total: u64,
}
pub struct Naive {
    pub n: usize,
    /// total weight by set of winners
    pub by_mask: Vec<u64>,
    /// per player, per combo of the range
    pub cells: Vec<Vec<Cell>>,
    /// ties of each player: weight by number of tied players
    pub shared: Vec<[u64; 10]>,
    /// the same per combo
    pub cell_shared: Vec<Vec<[u64; 10]>>,
    pub deals: u64,
}
impl Naive {
    pub fn new(v: &[Vec<C>]) -> Naive {
        let n = v.len();
        Naive {
            n,
            by_mask: vec![0; 1 << n],
            cells: v.iter().map(|r| vec![Cell::default(); r.len()]).collect(),
            shared: vec![[0; 10]; n],
            cell_shared: v.iter().map(|r| vec![[0; 10]; r.len()]).collect(),
            deals: 0,
        }
    }
    pub fn add(&mut self, pick: &[usize], hands: &[Hand], board: Hand, w: u64) {
        let mut best = 0;
        let mut mask = 0usize;
        let mut k = 0usize;
        for i in 0..self.n {
            let s = (board + hands[i]).evaluate();
            if s > best {
                best = s;
                mask = 0;
                k = 0;
            }
            if s == best {
                mask |= 1 << i;
                k += 1;
            }
        }
        self.by_mask[mask] += w;
        self.deals += 1;
        for i in 0..self.n {
            let c = &mut self.cells[i][pick[i]];
            c.total += w;
            if mask >> i & 1 == 1 {
                if k == 1 {
                    c.wins += w;
                } else {
                    c.ties += w;
                    self.shared[i][k] += w;
                    self.cell_shared[i][pick[i]][k] += w;
                }
            }
        }
    }
    pub fn total(&self) -> u64 {
        let mut t = 0;
        for x in &self.by_mask {
            t += x;
        }
        t
    }
}
fn boards(deck: &[u8], from: usize, left: u32, board: Hand, f: &mut impl FnMut(Hand)) {
    if left == 0 {
        f(board);
        return;
    }
    for i in from..deck.len() {
        boards(deck, i + 1, left - 1, board + CARDS[deck[i] as usize], f);
    }
}
fn deals(v: &[Vec<C>], at: usize, used: u64, w: u64, pick: &mut Vec<usize>, f: &mut impl FnMut(&[usize], u64, u64)) {
    if at == v.len() {
        f(pick, used, w);
        return;
    }
    for (k, c) in v[at].iter().enumerate() {
        if used & bits(c) == 0 {
            pick.push(k);
            deals(v, at + 1, used | bits(c), w * c.2 as u64, pick, f);
            pick.pop();
        }
    }
}
/// every legal deal and every completion of the board
pub fn naive(v: &[Vec<C>], board: u64, dead: u64) -> Naive {
    let mut r = Naive::new(v);
    let b = board_hand(board);
    let left = 5 - board.count_ones();
    let mut pick = Vec::with_capacity(16);
    deals(v, 0, board | dead, 1, &mut pick, &mut |pick, used, w| {
        let mut hands = [Hand::default(); 9];
        for i in 0..v.len() {
            let c = &v[i][pick[i]];
            hands[i] = Hand::from_hole_cards(c.0, c.1);
        }
        let mut deck = [0u8; 52];
        let mut n = 0;
        for c in 0..52u8 {
            if used >> c & 1 == 0 {
                deck[n] = c;
                n += 1;
            }
        }
        boards(&deck[..n], 0, left, b, &mut |b| r.add(pick, &hands, b, w));
    });
    r
}
/// a weight that leaves the scale of its range alone when another combo of the range has weight 1
pub fn weight(hi: u64) -> u8 {
    sx::range(2, hi) as u8
}
pub fn card(rank: u64, suit: u64) -> u8 {
    (4 * rank + suit) as u8
}
/// bit of a card in the masks of the calculators
pub fn at(c: u8) -> u64 {
    let _ = spec::RANKS;
    1u64 << c
}
fn near(a: f64, b: f64) -> bool {
    let d = a - b;
    (d < 1e-9) & (d > -1e-9)
}
/// integer results: winner sets, wins, and wins, ties and totals of every hand
pub fn same_counts(v: &[Vec<C>], r: &SimulationResults, want: &Naive) {
    let n = v.len();
    let mut total = 0;
    for x in &r.wins_by_mask {
        total += x;
    }
    let t = want.total();
    // equal up to a common scale
    let direct = total == t;
    let same = |got: u64, want: u64| if direct { got == want } else { got.wrapping_mul(t) == want.wrapping_mul(total) };
    sx::check(r.wins_by_mask.len() == 1 << n, 1);
    sx::check(r.wins.len() == n && r.ties.len() == n && r.equities.len() == n, 1);
    sx::check((total == 0) == (t == 0), 2);
    for m in 0..1usize << n {
        sx::check(same(r.wins_by_mask[m], want.by_mask[m]), 2);
    }
    for i in 0..n {
        sx::check(same(r.wins[i], want.by_mask[1 << i]), 3);
        for (k, c) in v[i].iter().enumerate() {
            let h = &r.hand_results[1326 * i + get_card_index(c.0, c.1)];
            let w = &want.cells[i][k];
            sx::check(same(h.total, w.total), 4);
            sx::check(same(h.wins, w.wins), 5);
            sx::check(same(h.ties, w.ties), 6);
        }
    }
}
/// shares (weights concrete): equities, ties split equally, shares of every hand
pub fn same_shares(v: &[Vec<C>], r: &SimulationResults, want: &Naive) {
    let n = v.len();
    let t = want.total() as f64;
    let mut total = 0;
    for x in &r.wins_by_mask {
        total += x;
    }
    let scale = if total > 0 { t / total as f64 } else { 0. };
    let mut sum = 0.;
    for i in 0..n {
        let mut ties = 0.;
        for k in 2..=n {
            ties += want.shared[i][k] as f64 / k as f64;
        }
        let e = if t > 0. { (want.by_mask[1 << i] as f64 + ties) / t } else { 0. };
        sx::check(near(r.ties[i] * scale / t.max(1.), ties / t.max(1.)), 10);
        sx::check(r.equities[i] >= 0. && r.equities[i] <= 1., 11);
        sx::check(near(r.equities[i], e), 12);
        sum += r.equities[i];
        for (k, c) in v[i].iter().enumerate() {
            let h = &r.hand_results[1326 * i + get_card_index(c.0, c.1)];
            let w = &want.cells[i][k];
            let mut ties = 0.;
            for m in 2..=n {
                ties += want.cell_shared[i][k][m] as f64 / m as f64;
            }
            let d = (w.total as f64).max(1.);
            sx::check(near(h.corrected_ties * scale / d, ties / d), 13);
            let f = |x: f64| if w.total > 0 { x / d } else { 0. };
            sx::check(near(h.equity, f(w.wins as f64 + ties)), 14);
            sx::check(near(h.winrate, f(w.wins as f64)), 15);
            sx::check(near(h.tierate, f(w.ties as f64)), 16);
        }
    }
    sx::check(near(sum, if t > 0. { 1. } else { 0. }), 17);
}
