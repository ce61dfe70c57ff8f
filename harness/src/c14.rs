//! C14: invalid requests are refused with the matching error, valid ones are answered, and nothing panics.
use crate::e2e::*;
use crate::sx;
use pokers::hand_range::Combo;
use pokers::{approx_equity, exact_equity, HandRange, SimulationResults, SimulatorError};
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

fn run(calc: u64, r: &[HandRange], board: u64, dead: u64, threads: u8, cancel: bool) -> Result<SimulationResults, SimulatorError> {
    let c = Arc::new(AtomicBool::new(cancel));
    if calc == 0 {
        exact_equity(r, board, dead, threads, c, |_| {})
    } else {
        approx_equity(r, board, dead, threads, 0.1, c, |_| {})
    }
}
fn code(r: &Result<SimulationResults, SimulatorError>) -> u32 {
    match r {
        Ok(_) => 0,
        Err(SimulatorError::TooFewPlayers) => 1,
        Err(SimulatorError::TooManyPlayers) => 2,
        Err(SimulatorError::TooManyBoardCards) => 3,
        Err(SimulatorError::TooManyDeadCards) => 4,
        Err(SimulatorError::ConflictingRanges) => 5,
    }
}
fn sane(n: usize, r: &SimulationResults) {
    let mut e = 0.;
    for x in &r.equities {
        sx::check(*x >= 0. && *x <= 1., 11);
        e += *x;
    }
    let mut t = 0u64;
    for x in &r.wins_by_mask {
        t += x;
    }
    sx::check(r.equities.len() == n && r.wins.len() == n && r.wins_by_mask.len() == 1 << n, 12);
    sx::check(if t == 0 { e == 0. } else { e > 1. - 1e-6 && e < 1. + 1e-6 }, 13);
}
/// params: calculator. Ranges without combos: every count of players, every board and every set of dead cards is refused
/// by the first check that fails, and ranges without combos last.
#[no_mangle]
pub extern "C" fn c14_args() {
    let n = sx::conc(sx::range(0, 11));
    sx::shard(n);
    let board = sx::range(0, (1 << 52) - 1);
    let dead = sx::range(0, (1 << 52) - 1);
    sx::assume(board & dead == 0);
    let mut r = Vec::with_capacity(16);
    for _ in 0..n {
        r.push(HandRange { hands: Vec::new(), char_vec: Vec::new() });
    }
    let got = code(&run(sx::param(0), &r, board, dead, 1, true));
    let d = dead.count_ones() as u64;
    let want = if n < 2 {
        1
    } else if n > 9 {
        2
    } else if board.count_ones() > 5 {
        3
    } else if 52 < d + 5 + 2 * n {
        4
    } else {
        5
    };
    sx::check(got == want, 1);
    sx::observe(got as u64);
    sx::reach(100);
}
/// params: calculator, players, board cards. One combo each, any two of seven cards, three cards of the board among them and
/// one dead: refused as conflicting exactly when the combos cannot be dealt together.
#[no_mangle]
pub extern "C" fn c14_conflict() {
    let n = sx::param(1) as usize;
    const CARDS: [u8; 7] = [0, 5, 13, 18, 30, 41, 51];
    let dead = 1u64 << 41;
    let mut board = 1u64 << 51;
    for c in [47, 22, 10, 3].iter().take(sx::param(2) as usize - 1) {
        board |= 1 << c;
    }
    // a deck of few cards
    let live = 0x7fu64 | 1 << 13 | 1 << 18 | 1 << 30 | 1 << 36 | 1 << 44 | 1 << 50 | board;
    let gone = if sx::param(2) < 4 { !live & ((1 << 52) - 1) | dead } else { dead };
    let mut v: Vec<Vec<C>> = Vec::with_capacity(4);
    let mut used = board | gone;
    let mut legal = true;
    for p in 0..n {
        let a = sx::conc(sx::range(0, 6));
        let b = sx::conc(sx::range(0, 6));
        if p == 0 {
            sx::shard(7 * a + b);
        }
        if a <= b {
            sx::assume(false);
        }
        let c = (CARDS[a as usize], CARDS[b as usize], 100);
        legal = legal && used & bits(&c) == 0;
        used |= bits(&c);
        v.push(vec![c]);
    }
    let r = run(sx::param(0), &ranges(&v), board, gone, 1, true);
    if legal {
        sx::check(code(&r) == 0, 2);
        sane(n, r.as_ref().unwrap());
    } else {
        sx::check(code(&r) == 5, 3);
    }
    sx::observe(code(&r) as u64);
    sx::reach(100);
}
/// params: calculator, number of the player whose range may be empty, kind. Two combos each; a range none of whose combos
/// is possible, beside others: refused; otherwise answered
#[no_mangle]
pub extern "C" fn c14_some() {
    let n = 3;
    let board = 1u64 << 50 | 1 << 46 | 1 << 31 | 1 << 20 | 1 << 9;
    let who = sx::param(1) as usize;
    let mut v: Vec<Vec<C>> = Vec::with_capacity(4);
    let mut gone = 0;
    for p in 0..n {
        let k = 8 * p as u8;
        v.push(vec![(k + 4, k, 1), (k + 5, k + 3, 100), (k + 6, k + 2, 7)]);
        v[p].retain(|c| bits(c) & board == 0);
    }
    // any of the six cards dead
    for i in 0..6 {
        if sx::conc(sx::range(0, 1)) == 1 {
            let c = &v[who][(i / 2) % v[who].len()];
            gone |= 1u64 << if i % 2 == 0 { c.0 } else { c.1 };
        }
    }
    let possible = v[who].iter().any(|c| bits(c) & gone == 0);
    let r = run(sx::param(0), &ranges(&v), board, gone, 1, true);
    sx::check(code(&r) == if possible { 0 } else { 5 }, 4);
    if let Ok(r) = &r {
        sane(n, r);
    }
    sx::reach(100);
}
/// params: calculator, players, board cards, threads, dead cards: ranges of all hands, cancelled: answered
#[no_mangle]
pub extern "C" fn c14_random() {
    let n = sx::param(1) as usize;
    let mut board = 0u64;
    for c in [51, 38, 25, 12, 3].iter().take(sx::param(2) as usize) {
        board |= 1 << c;
    }
    let mut dead = 0u64;
    let mut c = 0;
    while (dead.count_ones() as u64) < sx::param(4) {
        if board >> c & 1 == 0 {
            dead |= 1 << c;
        }
        c = (c + 7) % 52;
    }
    let mut hands = Vec::with_capacity(1326);
    for a in 1..52u8 {
        for b in 0..a {
            hands.push(Combo(a, b, 100));
        }
    }
    let r: Vec<HandRange> = (0..n).map(|_| HandRange { hands: hands.clone(), char_vec: Vec::new() }).collect();
    let r = run(sx::param(0), &r, board, dead, sx::param(3) as u8, true);
    sx::check(code(&r) == 0, 5);
    sane(n, r.as_ref().unwrap());
    sx::reach(100);
}
/// params: calculator, players, board cards. The largest number of dead cards: answered.
#[no_mangle]
pub extern "C" fn c14_last() {
    let n = sx::param(1);
    let b = sx::param(2);
    // hole cards first, then the board, then cards to come
    let mut v: Vec<Vec<C>> = Vec::with_capacity(9);
    for i in 0..n as u8 {
        v.push(vec![(2 * i + 1, 2 * i, 100)]);
    }
    let mut board = 0u64;
    for i in 0..b {
        board |= 1 << (2 * n + i);
    }
    // five cards more than the holes need, of which b are the board: the number of dead cards does not count the board
    let mut gone = 0u64;
    for i in 0..52 - 2 * n - 5 {
        gone |= 1 << (51 - i);
    }
    let short = sx::conc(sx::range(0, 1));
    if short == 1 {
        gone |= 1 << (2 * n + 4);
        if b == 5 {
            board &= !(1 << (2 * n + 4));
        }
    }
    let r = run(sx::param(0), &ranges(&v), board, gone, 1, true);
    sx::check(code(&r) == if short == 1 { 4 } else { 0 }, 6);
    if let Ok(r) = &r {
        sane(n as usize, r);
    }
    sx::reach(100);
}
/// params: calculator, players. One combo each of any two of eight cards and of any weight, any dead cards; no thread,
/// so that only the preparation of the request is run: refused as conflicting exactly when the combos cannot be dealt together.
#[no_mangle]
pub extern "C" fn c14_any() {
    let n = sx::param(1) as usize;
    let mut board = 0u64;
    for c in [51, 38, 25, 12, 3].iter().take(sx::param(2) as usize) {
        board |= 1 << c;
    }
    let dead = sx::range(0, (1 << 52) - 1) & 0xb77dbbbbddddd & !board;
    let mut v: Vec<Vec<C>> = Vec::with_capacity(4);
    let mut used = board | dead;
    let mut clash = 0;
    for _ in 0..n {
        let a = sx::conc(sx::range(0, 7)) as u8 * 7;
        let b = sx::conc(sx::range(0, 7)) as u8 * 7;
        let w = sx::range(1, 255) as u8;
        sx::assume(a > b);
        let c = (a, b, w);
        clash |= used & bits(&c);
        used |= bits(&c);
        v.push(vec![c]);
    }
    let r = run(sx::param(0), &ranges(&v), board, dead, 0, true);
    sx::check(code(&r) == if clash == 0 { 0 } else { 5 }, 7);
    sx::observe(code(&r) as u64);
    sx::reach(100);
}
