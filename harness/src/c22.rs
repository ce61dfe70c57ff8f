//! C22: simulated deals are unbiased: every legal deal is equally likely.
use crate::e2e::*;
use crate::{rng, sx};
#[cfg(pokers_verif)]
use pokers::equity_calculator::verif::random_walk;
use pokers::{approx_equity, get_card_index, Hand, HandRange, SimulationResults, SimulatorError};
use rand::RngCore;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

struct Watch {
    v: Vec<Vec<C>>,
    /// board cards given
    board: u64,
    /// every legal deal, sorted
    all: Vec<u32>,
    deals: u64,
    fixed: u64,
    last: u64,
    draws: u64,
    most: u64,
    state: u64,
    shards: bool,
    /// this random word of the first deal is given, and only deals in which this player (1..) keeps his hand count
    given: u64,
    word: u64,
    kept: usize,
    /// counting deals natively: any of these
    freq: Option<Vec<u64>>,
    hits: u64,
}
static mut W: Option<Watch> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut Watch {
    unsafe { W.as_mut().unwrap() }
}
#[no_mangle]
pub fn pokers_verif_batch_size(n: u64) -> u64 {
    n
}
/// cards to come
fn to_come(board: u64) -> u32 {
    5 - board.count_ones()
}
fn code(pick: usize, cards: &[u8]) -> u32 {
    cards.iter().fold(pick as u32, |x, c| x << 6 | *c as u32)
}
#[no_mangle]
pub fn pokers_verif_deal(hands: &[Hand], _: u64, board: &Hand, _: &[usize]) {
    #[allow(static_mut_refs)]
    if unsafe { W.is_none() } {
        return;
    }
    let w = w();
    w.deals += 1;
    if w.deals < w.last && (w.given == 0 || w.freq.is_some() || w.deals <= w.fixed) {
        return;
    }
    let mut pick = 0;
    let mut stride = 1;
    // the player who keeps his hand: last digit, so that the deals that count come one after the other
    let n = w.v.len();
    let by = if w.given > 0 { w.given as usize - 1 } else { 0 };
    let mut keeps = 0;
    for d in 1..=n {
        let i = (by + d) % n;
        let m = sx::conc(hands[i].get_mask());
        let k = w.v[i].iter().position(|c| Hand::from_hole_cards(c.0, c.1).get_mask() == m);
        sx::check(k.is_some(), 1);
        keeps = k.unwrap_or(0);
        pick += stride * keeps;
        stride *= w.v[i].len();
    }
    if w.given > 0 && w.freq.is_none() {
        if w.kept == usize::MAX {
            w.kept = keeps;
        } else if w.kept != keeps {
            sx::done();
        }
        if w.deals < w.last {
            return;
        }
    }
    let m = sx::conc(board.get_mask());
    let mut cards = [0u8; 5];
    let mut n = 0;
    for c in 0..52u8 {
        if w.board >> c & 1 == 0 && m & crate::spec::bit(c as u64) != 0 && n < 5 {
            cards[n] = c;
            n += 1;
        }
    }
    let key = w.all.binary_search(&code(pick, &cards[..n]));
    sx::check(key.is_ok(), 1);
    let key = key.unwrap_or(0) as u64;
    if let Some(f) = &w.freq {
        w.hits += f.contains(&key) as u64;
        std::panic::resume_unwind(Box::new(()));
    }
    // the legal deals among which this one is looked at
    let (mut lo, mut n) = (0, w.all.len() as u64);
    if w.given > 0 {
        let size = stride / w.v[by].len();
        let of = |x: &u32| (*x as usize >> (6 * to_come(w.board))) / size == keeps;
        lo = w.all.iter().position(of).unwrap_or(0) as u64;
        n = w.all.iter().filter(|x| of(x)).count() as u64;
    }
    sx::measure(key, lo << 32 | n);
    sx::observe(key);
    sx::reach(100);
    sx::done();
}
/// random numbers: fixed until the deals of interest, then any
struct Any;
impl Any {
    fn fixed(&self) -> Option<u64> {
        let w = w();
        if w.freq.is_some() {
            w.state = w.state.wrapping_add(0x9e3779b97f4a7c15);
            let x = (w.state ^ w.state >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
            let x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
            return Some(x ^ x >> 31);
        }
        if w.deals < w.fixed {
            w.state = w.state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let x = w.state;
            return Some((x >> 32) ^ (x << 16));
        }
        w.draws += 1;
        if w.draws == w.given {
            return Some(w.word);
        }
        // in the first deal of two players with a hand given: no second try
        if w.draws > w.most || (w.given > 0 && w.deals == 0 && w.draws > 2) {
            // beyond the stated number of draws
            sx::assume(false);
        }
        None
    }
    fn any(&self, bits: u32) -> u64 {
        let x = sx::range(0, u64::MAX >> (64 - bits));
        if w().shards && w().draws == 1 {
            sx::shard(sx::conc(x >> (bits - 3)));
        }
        x
    }
}
impl RngCore for Any {
    fn next_u32(&mut self) -> u32 {
        match self.fixed() {
            Some(x) => x as u32,
            None => self.any(32) as u32,
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self.fixed() {
            Some(x) => x,
            None => self.any(64),
        }
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.next_u32() as u8;
        }
    }
}
/// ranges, and the cards to come that are live besides them (none given: all)
fn family(k: u64) -> (Vec<Vec<C>>, Vec<u8>) {
    match k {
        // two players whose combos share cards
        0 => (vec![vec![(51, 50, 1), (50, 46, 3), (47, 46, 7)], vec![(51, 47, 1), (46, 45, 5), (50, 49, 2)]], vec![3, 10, 17, 24, 31, 40]),
        // three, always joined
        1 => (vec![vec![(51, 50, 1), (39, 38, 3)], vec![(51, 47, 1), (46, 45, 5)], vec![(50, 39, 1), (30, 5, 9)]], vec![2, 9, 16, 23, 32]),
        // a full deck
        2 => (vec![vec![(51, 0, 1), (25, 50, 3)], vec![(51, 47, 2), (46, 0, 5), (1, 2, 2)]], vec![]),
        // two players with ranges too large to be joined, which share some cards; their sizes are powers of two, so that no
        // random word is refused for being in the uneven part
        _ => {
            let mut a: Vec<C> = Vec::with_capacity(200);
            let mut b: Vec<C> = Vec::with_capacity(200);
            for x in 34..52u8 {
                for y in 34..x {
                    if a.len() < 128 {
                        a.push((x, y, (a.len() % 7 + 1) as u8));
                    }
                }
            }
            for x in 0..22u8 {
                for y in 0..x {
                    if b.len() < 128 && BOARD.iter().all(|c| *c != x && *c != y) {
                        b.push((x, y, (b.len() % 9 + 1) as u8));
                    }
                }
            }
            // some (or many) combos that exclude some of the other player's
            let many = if k == 3 { 5 } else { 40 };
            for i in 0..many {
                b[3 * i as usize + 1] = (34 + i % 16, 35 + i % 16 + i / 16, 2);
            }
            (vec![a, b], vec![])
        }
    }
}
const BOARD: [u8; 5] = [20, 33, 6, 11, 15];
fn start(k: u64, cards: usize, fixed: u64, last: u64, most: u64, shards: bool, given: u64, seed: u64) -> (Vec<HandRange>, u64, u64) {
    let (v, live) = family(k);
    let board = BOARD[..cards].iter().fold(0u64, |m, c| m | 1 << c);
    let mut dead = 0u64;
    if live.len() > 0 {
        dead = !0u64 >> 12 & !board;
        for p in &v {
            for c in p {
                dead &= !bits(c);
            }
        }
        for c in &live {
            dead &= !(1u64 << c);
        }
    }
    // every legal deal
    let mut all = Vec::with_capacity(20000);
    let n: usize = v.iter().map(|p| p.len()).product();
    let by = if given > 0 { given as usize - 1 } else { 0 };
    for pick in 0..n {
        let mut used = board | dead;
        let mut r = pick;
        let mut ok = true;
        for d in 1..=v.len() {
            let p = &v[(by + d) % v.len()];
            let b = bits(&p[r % p.len()]);
            r /= p.len();
            ok &= used & b == 0;
            used |= b;
        }
        if !ok {
            continue;
        }
        match cards {
            5 => all.push(code(pick, &[])),
            4 => {
                for a in 0..52 {
                    if used >> a & 1 == 0 {
                        all.push(code(pick, &[a]));
                    }
                }
            }
            _ => {
                for a in 0..52 {
                    for b in a + 1..52 {
                        if (used >> a | used >> b) & 1 == 0 {
                            all.push(code(pick, &[a, b]));
                        }
                    }
                }
            }
        }
    }
    let r = ranges(&v);
    unsafe { W = Some(Watch { v, board, all, deals: 0, fixed, last, draws: 0, most, state: 15, shards, given, word: seed.wrapping_mul(0x9e3779b97f4a7c15), kept: usize::MAX, freq: None, hits: 0 }) };
    (r, board, dead)
}
/// without the hooks there is nothing to observe
#[cfg(not(pokers_verif))]
fn random_walk<R: RngCore>(_: &[HandRange], _: u64, _: u64, _: f64, _: Arc<AtomicBool>, _: &mut R) -> Result<SimulationResults, SimulatorError> {
    Err(SimulatorError::TooFewPlayers)
}
/// params: ranges, board cards (3..5), fixed deals before, deal looked at, words, shared out: which inputs lead to which deal
#[no_mangle]
pub extern "C" fn c22_deal() {
    let (r, board, dead) = start(sx::param(0), sx::param(1) as usize, sx::param(2), sx::param(2) + sx::param(3), sx::param(4), sx::param(5) != 0, sx::param(6), sx::param(7));
    sx::forkidx();
    let _ = random_walk(&r, board, dead, 0., Arc::new(AtomicBool::new(false)), &mut Any);
    // no deal found
    sx::reach(101);
}
/// the same parameters, native only; inputs: how many deals, and which: their frequency among many walks
#[no_mangle]
pub extern "C" fn c22_freq() {
    if sx::engine() {
        return;
    }
    let (r, board, dead) = start(sx::param(0), sx::param(1) as usize, 0, sx::param(2) + sx::param(3), 0, false, sx::param(6), sx::param(7));
    let n = sx::range(0, 1 << 20);
    let keys: Vec<u64> = (0..n).map(|_| sx::range(0, u64::MAX)).collect();
    let share = keys.len() as f64 / w().all.len() as f64;
    w().freq = Some(keys);
    let t = std::time::Instant::now();
    let mut walks = 0u64;
    while t.elapsed().as_secs() < 45 {
        w().deals = 0;
        let _ = std::panic::catch_unwind(|| {
            let _ = random_walk(&r, board, dead, 0., Arc::new(AtomicBool::new(false)), &mut Any);
        });
        walks += 1;
    }
    let expected = walks as f64 * share;
    let sigma = (expected * (1. - share)).sqrt();
    println!("{} walks: {} of these deals, {:.1} expected, sigma {:.1}", walks, w().hits, expected, sigma);
    sx::check((w().hits as f64 - expected).abs() <= 6. * sigma + 3., 2);
}
/// params: ranges (0..2), board cards, seed: without the hooks, how often each hand is dealt in some batches of fixed random numbers
#[no_mangle]
pub extern "C" fn c22_share() {
    let (mut v, _) = family(sx::param(0));
    for p in v.iter_mut() {
        for c in p.iter_mut() {
            c.2 = 1;
        }
    }
    let board = BOARD[..sx::param(1) as usize].iter().fold(0u64, |m, c| m | 1 << c);
    rng::seed(sx::param(2));
    let token = Arc::new(AtomicBool::new(false));
    let t = token.clone();
    let calls = Cell::new(0);
    let r = approx_equity(&ranges(&v), board, 0, 1, 0., token, move |_| {
        calls.set(calls.get() + 1);
        if calls.get() >= 4 {
            t.store(true, Ordering::SeqCst);
        }
    });
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 3);
            return;
        }
    };
    let n: usize = v.iter().map(|p| p.len()).product();
    let mut cells = vec![vec![0u64; 8]; v.len()];
    let mut all = 0;
    for pick in 0..n {
        let mut used = board;
        let mut q = pick;
        let mut ok = true;
        for p in &v {
            let b = bits(&p[q % p.len()]);
            q /= p.len();
            ok &= used & b == 0;
            used |= b;
        }
        if ok {
            all += 1;
            let mut q = pick;
            for i in 0..v.len() {
                cells[i][q % v[i].len()] += 1;
                q /= v[i].len();
            }
        }
    }
    for i in 0..v.len() {
        for (k, c) in v[i].iter().enumerate() {
            let e = r.eval_count as f64 * cells[i][k] as f64 / all as f64;
            let x = r.hand_results[1326 * i + get_card_index(c.0, c.1)].total as f64;
            sx::check((x - e).abs() <= 8. * e.sqrt() + 8., 3);
        }
    }
    sx::check(r.eval_count > 0, 3);
    sx::reach(100);
}
