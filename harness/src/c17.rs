//! C17: every simulated deal is legal and counted for the right hands.
use crate::e2e::*;
use crate::{rng, sx};
#[cfg(pokers_verif)]
use pokers::equity_calculator::verif::random_walk;
use pokers::{approx_equity, get_card_index, Hand, SimulationResults, SimulatorError};
use pokers::HandRange;
use rand::RngCore;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

struct Watch {
    v: Vec<Vec<C>>,
    board: u64,
    dead: u64,
    /// deals seen, number of deals whose random numbers are fixed, number of deals to look at
    deals: u64,
    fixed: u64,
    last: u64,
    draws: u64,
    most: u64,
    state: u64,
    tally: Option<Naive>,
    /// the token is set at this deal
    stop: u64,
    token: Arc<AtomicBool>,
}
static mut W: Option<Watch> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut Watch {
    unsafe { W.as_mut().unwrap() }
}
#[no_mangle]
pub fn pokers_verif_batch_size(n: u64) -> u64 {
    n
}
/// sees every deal before it is evaluated
#[no_mangle]
pub fn pokers_verif_deal(hands: &[Hand], weight: u64, board: &Hand, lookup: &[usize]) {
    #[allow(static_mut_refs)]
    if unsafe { W.is_none() } {
        return;
    }
    let w = w();
    let n = w.v.len();
    w.deals += 1;
    if w.deals == w.stop {
        w.token.store(true, Ordering::SeqCst);
    }
    if w.tally.is_none() && w.deals <= w.fixed {
        return;
    }
    sx::check(hands.len() == n && lookup.len() == n, 1);
    let mut used = board_hand(w.dead).get_mask();
    sx::check(used & board.get_mask() == 0, 3);
    sx::check(board.get_mask() & board_hand(w.board).get_mask() == board_hand(w.board).get_mask(), 4);
    sx::check(board.get_mask().count_ones() == 5 && board.count() == 5, 4);
    used |= board.get_mask();
    let mut product = 1u64;
    let mut pick = [0usize; 9];
    for i in 0..n {
        let mut found = false;
        let mut x = 0u64;
        for (k, c) in w.v[i].iter().enumerate() {
            let h = Hand::from_hole_cards(c.0, c.1);
            let same = (hands[i].get_mask() == h.get_mask()) & (hands[i].get_key() == h.get_key()) & (lookup[i] == 1326 * i + get_card_index(c.0, c.1));
            found |= same;
            x = if same { c.2 as u64 } else { x };
            if w.tally.is_some() && same {
                pick[i] = k;
            }
        }
        sx::check(found, 2);
        sx::check(used & hands[i].get_mask() == 0, 5);
        used |= hands[i].get_mask();
        product *= x;
    }
    sx::check(weight == product, 6);
    if let Some(t) = &mut w.tally {
        t.add(&pick[..n], hands, *board, product);
    }
    if w.deals >= w.last && w.last > 0 {
        sx::reach(100);
        sx::done();
    }
}
/// random numbers: fixed until the deals of interest, then any
struct Any;
impl Any {
    fn fixed(&self) -> Option<u64> {
        let w = w();
        if w.deals < w.fixed {
            w.state = w.state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let x = w.state;
            return Some((x >> 32) ^ (x << 16));
        }
        w.draws += 1;
        if w.draws > w.most {
            // beyond the stated number of draws
            sx::assume(false);
        }
        None
    }
}
impl RngCore for Any {
    fn next_u32(&mut self) -> u32 {
        match self.fixed() {
            Some(x) => x as u32,
            None => sx::range(0, 0xffff_ffff) as u32,
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self.fixed() {
            Some(x) => x,
            None => sx::range(0, u64::MAX),
        }
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.next_u32() as u8;
        }
    }
}
/// ranges, and the cards to come that are live besides them
fn family(k: u64, sym: bool) -> (Vec<Vec<C>>, Vec<u8>) {
    let w = |c: u8| if sym { weight(20) } else { c };
    match k {
        // two players whose combos share cards
        0 => (vec![vec![(51, 50, 1), (50, 46, w(3)), (47, 46, w(7))], vec![(51, 47, 1), (46, 45, w(5)), (50, 49, w(2))]], vec![3, 10, 17, 24, 31, 40]),
        // three, always joined
        1 => (vec![vec![(51, 50, 1), (39, 38, w(3))], vec![(51, 47, 1), (46, 45, w(5))], vec![(50, 39, 1), (30, 5, w(9))]], vec![2, 9, 16, 23, 32]),
        // two players with ranges too large to be joined
        _ => {
            let mut a: Vec<C> = Vec::with_capacity(200);
            let mut b: Vec<C> = Vec::with_capacity(200);
            for x in 26..52u8 {
                for y in 26..x {
                    if a.len() < 170 {
                        a.push((x, y, if a.len() == 0 { 1 } else { (a.len() % 7 + 2) as u8 }));
                    }
                }
            }
            for x in 6..40u8 {
                for y in 6..x {
                    if (x + y) % 4 == 0 && b.len() < 150 {
                        b.push((x, y, if b.len() == 0 { 1 } else { (b.len() % 9 + 2) as u8 }));
                    }
                }
            }
            (vec![a, b], vec![])
        }
    }
}
const BOARD: [u8; 5] = [20, 33, 6, 11, 15];
fn start(k: u64, cards: u64, sym: bool) -> (Vec<Vec<C>>, u64, u64) {
    let (v, live) = family(k, sym);
    let board = BOARD.iter().take(cards as usize).fold(0u64, |m, c| m | 1 << c);
    let mut dead = !0u64 >> 12 & !board;
    for p in &v {
        for c in p {
            dead &= !bits(c);
        }
    }
    for c in &live {
        dead &= !(1u64 << c);
    }
    (v, board, if k < 2 { dead } else { 0 })
}
/// without the hooks there is nothing to observe
#[cfg(not(pokers_verif))]
fn random_walk<R: RngCore>(_: &[HandRange], _: u64, _: u64, _: f64, _: Arc<AtomicBool>, _: &mut R) -> Result<SimulationResults, SimulatorError> {
    Err(SimulatorError::TooFewPlayers)
}
/// through: approximate equity itself, with one worker and random numbers from the operating system's
fn walk(v: &[Vec<C>], board: u64, dead: u64, fixed: u64, last: u64, most: u64, seed: u64, stop: u64, through: bool) -> Result<SimulationResults, SimulatorError> {
    // what can be dealt
    let can: Vec<Vec<C>> = v.iter().map(|p| p.iter().copied().filter(|c| bits(c) & (board | dead) == 0).collect()).collect();
    let token = Arc::new(AtomicBool::new(false));
    let t = if stop > 0 { Some(Naive::new(&can)) } else { None };
    unsafe { W = Some(Watch { v: can, board, dead, deals: 0, fixed, last, draws: 0, most, state: seed * 2 + 1, tally: t, stop, token: token.clone() }) };
    // what cannot be dealt, between the other combos
    let mut v = v.to_vec();
    let gone: Vec<u8> = (0..52).filter(|c| (board | dead) >> c & 1 == 1).collect();
    for (i, p) in v.iter_mut().enumerate() {
        if gone.len() > 1 {
            p.insert(1, (gone[gone.len() - 1], gone[0], 6));
            p.insert(0, (p[1].0, gone[i % gone.len()], 4));
        }
    }
    let r = ranges(&v);
    if through {
        rng::seed(seed);
        approx_equity(&r, board, dead, 1, 0., token, |_| {})
    } else {
        random_walk(&r, board, dead, 0., token, &mut Any)
    }
}
/// params: ranges, board cards, draws: the first deal, for any random numbers
#[no_mangle]
pub extern "C" fn c17_first() {
    let (v, board, dead) = start(sx::param(0), sx::param(1), false);
    let _ = walk(&v, board, dead, 0, 1, sx::param(2), 0, 0, false);
    // no deal found
    sx::reach(101);
}
/// params: ranges, board cards, fixed deals before, deals, draws: some deals in a row, for any random numbers
#[no_mangle]
pub extern "C" fn c17_next() {
    let (v, board, dead) = start(sx::param(0), sx::param(1), false);
    let _ = walk(&v, board, dead, sx::param(2), sx::param(2) + sx::param(3), sx::param(4), 7, 0, false);
    sx::reach(101);
}
/// params: ranges, board cards, seed, symbolic weights, deal at which the token is set, through approximate equity: whole batches, and what is reported about it
#[no_mangle]
pub extern "C" fn c17_count() {
    let (v, board, dead) = start(sx::param(0), sx::param(1), sx::param(3) != 0);
    let r = match walk(&v, board, dead, u64::MAX, 0, 0, sx::param(2), sx::param(4), sx::param(5) != 0) {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 7);
            return;
        }
    };
    let w = w();
    let t = w.tally.as_ref().unwrap();
    sx::check(r.eval_count == t.deals && t.deals > 0, 8);
    for m in 0..1usize << w.v.len() {
        sx::check(r.wins_by_mask[m] == t.by_mask[m], 9);
    }
    for i in 0..w.v.len() {
        sx::check(r.wins[i] == t.by_mask[1 << i], 10);
        for (k, c) in w.v[i].iter().enumerate() {
            let h = &r.hand_results[1326 * i + get_card_index(c.0, c.1)];
            let x = &t.cells[i][k];
            sx::check(h.total == x.total, 11);
            sx::check(h.wins == x.wins && h.ties == x.ties, 12);
        }
    }
    sx::observe(r.eval_count);
    sx::reach(100);
}
/// params: players, board cards, seed of the cards: a single deal is possible, so every deal of approximate equity is it
#[no_mangle]
pub extern "C" fn c17_forced() {
    let (n, cards) = (sx::param(0) as usize, sx::param(1) as usize);
    let mut deck = [0u8; 52];
    let mut x = sx::param(2) * 2 + 1;
    rng::seed(x);
    for i in 0..52usize {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let j = (x >> 33) as usize % (i + 1);
        deck[i] = deck[j];
        deck[j] = i as u8;
    }
    let board = deck[2 * n..2 * n + cards].iter().fold(0u64, |m, c| m | 1 << c);
    let rest = deck[2 * n + cards..2 * n + 5].iter().fold(0u64, |m, c| m | 1 << c);
    let mut dead = !0u64 >> 12 & !board & !rest;
    let mut v: Vec<Vec<C>> = Vec::with_capacity(9);
    let mut product = 1;
    for i in 0..n {
        let c = (deck[2 * i], deck[2 * i + 1], if i == 0 { 1 } else { weight(100) });
        dead &= !bits(&c);
        product *= c.2 as u64;
        let mut p = vec![c];
        if i > 0 {
            // conflicts with the only combo of the first player
            p.insert(i & 1, (deck[0], deck[2 * i], 1));
        }
        v.push(p);
    }
    unsafe { W = None };
    let all = v.iter().enumerate().map(|(i, p)| { let mut p = p.clone(); p.insert(0, (deck[2 * i + 1], deck[51], 10)); p }).collect::<Vec<_>>();
    let r = match approx_equity(&ranges(&all), board, dead, 1, 0., Arc::new(AtomicBool::new(true)), |_| {}) {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 7);
            return;
        }
    };
    let mut t = Naive::new(&v);
    let mut hands = [Hand::default(); 9];
    let mut pick = [0; 9];
    for i in 0..n {
        hands[i] = Hand::from_hole_cards(deck[2 * i], deck[2 * i + 1]);
        pick[i] = if i > 0 && i & 1 == 0 { 1 } else { 0 };
    }
    t.add(&pick[..n], &hands, board_hand(board | rest), r.eval_count * product);
    sx::check(r.eval_count > 0, 8);
    for m in 0..1usize << n {
        sx::check(r.wins_by_mask[m] == t.by_mask[m], 9);
    }
    for i in 0..n {
        sx::check(r.wins[i] == t.by_mask[1 << i], 10);
        for (k, c) in v[i].iter().enumerate() {
            let h = &r.hand_results[1326 * i + get_card_index(c.0, c.1)];
            let x = &t.cells[i][k];
            sx::check(h.total == x.total, 11);
            sx::check(h.wins == x.wins && h.ties == x.ties, 12);
        }
    }
    sx::reach(100);
}
