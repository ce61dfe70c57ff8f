//! C18: approximate equity stops, reports and accounts as documented.
use crate::e2e::*;
use crate::{rng, sx};
use pokers::{approx_equity, get_card_index, Hand, SimulationResults};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

/// the batches of a single worker
struct Watch {
    on: bool,
    n: usize,
    deals: u64,
    weight: f64,
    first: f64,
    sum: f64,
    sum2: f64,
    /// deviation after each batch
    stdev: Vec<f64>,
    cancel_at: u64,
    token: Option<Arc<AtomicBool>>,
}
static mut W: Watch = Watch { on: false, n: 0, deals: 0, weight: 0., first: 0., sum: 0., sum2: 0., stdev: Vec::new(), cancel_at: 0, token: None };
#[allow(static_mut_refs)]
fn w() -> &'static mut Watch {
    unsafe { &mut W }
}
#[no_mangle]
pub fn pokers_verif_batch_size(n: u64) -> u64 {
    n
}
#[no_mangle]
pub fn pokers_verif_deal(hands: &[Hand], weight: u64, board: &Hand, _: &[usize]) {
    let w = w();
    if !w.on {
        return;
    }
    let mut best = 0;
    let mut ties = 0;
    let mut win = false;
    for i in 0..w.n {
        let s = (*board + hands[i]).evaluate();
        if s > best {
            best = s;
            ties = 0;
            win = i == 0;
        }
        ties += (s == best) as u32;
    }
    let x = weight as f64;
    w.weight += x;
    if win {
        w.first += x / ties as f64;
    }
    w.deals += 1;
    if w.deals % 4096 == 0 {
        let e = w.first / w.weight;
        w.sum += e;
        w.sum2 += e * e;
        let k = w.stdev.len() as f64 + 1.;
        w.stdev.push((1e-9 + w.sum2 - w.sum * w.sum / k).sqrt() / k);
        w.weight = 0.;
        w.first = 0.;
    }
    if w.deals == w.cancel_at {
        if let Some(t) = &w.token {
            t.store(true, Ordering::SeqCst);
        }
    }
}
fn family(k: u64) -> (Vec<Vec<C>>, u64, u64) {
    match k {
        // often tied, a complete board
        0 => (vec![vec![(51, 50, 1), (50, 46, 3), (47, 46, 7)], vec![(51, 47, 1), (46, 45, 5), (50, 49, 2)]], 1 << 20 | 1 << 33 | 1 << 6 | 1 << 11 | 1 << 27, 0),
        // three players, two cards to come
        1 => (vec![vec![(51, 50, 1), (39, 38, 30)], vec![(51, 47, 1), (46, 45, 5)], vec![(50, 39, 1), (30, 5, 9)]], 1 << 20 | 1 << 33 | 1 << 6, 1 << 40),
        // the first player always wins: no deviation
        2 => (vec![vec![(51, 50, 100)], vec![(4, 0, 100), (5, 1, 100)]], 1 << 49 | 1 << 48 | 1 << 33, 0),
        // two players, no board
        _ => (vec![vec![(51, 50, 1), (39, 38, 3)], vec![(51, 47, 1), (46, 45, 5)]], 0, 0),
    }
}
/// every breakdown counts the same deals
fn sane(v: &[Vec<C>], r: &SimulationResults) {
    let n = v.len();
    let t: u64 = r.wins_by_mask.iter().sum();
    let mut e = 0.;
    for i in 0..n {
        let (mut total, mut wins, mut ties, mut all) = (0, 0, 0, 0);
        for c in v[i].iter() {
            let h = &r.hand_results[1326 * i + get_card_index(c.0, c.1)];
            sx::check(h.weight == c.2 as u32 && h.valid, 15);
            sx::check(h.wins + h.ties <= h.total, 12);
            total += h.total;
            wins += h.wins;
            ties += h.ties;
        }
        for (m, x) in r.wins_by_mask.iter().enumerate() {
            if m >> i & 1 == 1 && m != 1 << i {
                all += x;
            }
        }
        sx::check(total == t && wins == r.wins[i] && wins == r.wins_by_mask[1 << i], 12);
        sx::check(ties == all, 12);
        sx::check(r.equities[i] >= 0. && r.equities[i] <= 1., 11);
        e += r.equities[i];
    }
    sx::check(if t == 0 { e == 0. } else { e > 1. - 1e-6 && e < 1. + 1e-6 }, 13);
}
fn near(a: f64, b: f64) -> bool {
    let d = a - b;
    let m = 1e-6 * (if b < 0. { -b } else { b }) + 1e-12;
    d <= m && d >= -m
}
const TARGETS: [f64; 10] = [0., 1e-5, 0.0005, 0.001, 0.002, 0.004, 0.01, 1., 1e300, -1.];
/// params: ranges, seed, deal at which the token is set, number of targets (0: any multiple of 1/16384 up to 1/16): one worker; when it stops
#[no_mangle]
pub extern "C" fn c18_stop() {
    let (v, board, dead) = family(sx::param(0));
    rng::seed(sx::param(1));
    let target = if sx::param(3) == 0 { sx::range(0, 1024) as f64 / 16384. } else { TARGETS[sx::conc(sx::range(0, sx::param(3) - 1)) as usize] };
    let token = Arc::new(AtomicBool::new(sx::param(2) == 0));
    let x = w();
    x.on = true;
    x.n = v.len();
    x.cancel_at = sx::param(2);
    x.token = Some(token.clone());
    let calls = Cell::new(0u64);
    let over = Cell::new(false);
    let r = ranges(&v);
    let r = match approx_equity(&r, board, dead, 1, target, token.clone(), |p| {
        calls.set(calls.get() + 1);
        over.set(over.get() | (p > 100));
    }) {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 14);
            return;
        }
    };
    if sx::param(3) != 0 {
        sx::check(!over.get(), 1);
    }
    sx::check(calls.get() >= 1, 2);
    let x = w();
    let m = x.stdev.len();
    // whole batches only, all of them reported
    sx::check(x.deals % 4096 == 0 && r.eval_count == x.deals && m > 0, 3);
    sx::check(r.batch_count == m as f64, 4);
    sx::check(near(r.stdev, x.stdev[m - 1]), 5);
    sx::check(near(r.batch_sum, x.sum) && near(r.batch_sum2, x.sum2), 6);
    // the batch in which the token was set
    let limit = if x.cancel_at == 0 { 1 } else { (x.cancel_at as usize + 4095) / 4096 };
    sx::check(m <= limit, 7);
    for k in 1..m {
        sx::check(k == 1 || x.stdev[k - 1] * (1. + 1e-9) >= target, 8);
    }
    sx::check(m == limit || (m > 1 && x.stdev[m - 1] * (1. - 1e-9) <= target), 9);
    sane(&v, &r);
    sx::observe(r.eval_count);
    sx::observe(r.stdev.to_bits());
    sx::reach(100);
}
/// params: ranges, seed, workers, preemptions + 256 * choices, cancel (0: never, 1: from the start, k: at callback k - 1), target
#[no_mangle]
pub extern "C" fn c18_threads() {
    let (v, board, dead) = family(sx::param(0));
    rng::seed(sx::param(1));
    let threads = sx::param(2);
    let cancel = sx::param(4);
    let target = TARGETS[sx::param(5) as usize];
    let token = Arc::new(AtomicBool::new(cancel == 1));
    let seen = token.clone();
    let calls = Cell::new(0u64);
    let over = Cell::new(false);
    let r = ranges(&v);
    sx::preempt(sx::param(3) as u32);
    let r = approx_equity(&r, board, dead, threads as u8, target, token, |p| {
        calls.set(calls.get() + 1);
        over.set(over.get() | (p > 100));
        if calls.get() + 1 == cancel {
            seen.store(true, Ordering::SeqCst);
        }
    });
    sx::preempt(0);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 14);
            return;
        }
    };
    sx::check(!over.get(), 1);
    sx::check(calls.get() >= threads, 2);
    sx::check(r.eval_count % 4096 == 0 && r.batch_count * 4096. == r.eval_count as f64, 4);
    sx::check(r.batch_count >= 1., 4);
    sx::check(near(r.stdev, (1e-9 + r.batch_sum2 - r.batch_sum * r.batch_sum / r.batch_count).sqrt() / r.batch_count), 5);
    sx::check(r.batch_sum >= 0. && r.batch_sum <= r.batch_count && r.batch_sum2 <= r.batch_sum, 6);
    if cancel == 0 {
        sx::check(r.batch_count >= 2., 9);
    } else if cancel == 1 {
        sx::check(r.eval_count <= 4096 * threads, 7);
    } else if target <= 0. {
        sx::check(calls.get() + 1 >= cancel, 10);
    }
    sane(&v, &r);
    sx::reach(100);
}
