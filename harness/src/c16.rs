//! C16: exact equity does not depend on threads, schedules or the cancel token.
use crate::e2e::*;
use crate::sx;
use pokers::{exact_equity, get_card_index, Hand, SimulationResults};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

/// holdings a worker takes at a time; 0: as many as the program likes
static mut BATCH: u64 = 0;
#[no_mangle]
pub fn pokers_verif_batch_size(n: u64) -> u64 {
    pause();
    let b = unsafe { BATCH };
    if b == 0 {
        n
    } else {
        n.min(b)
    }
}
#[no_mangle]
pub fn pokers_verif_deal(_: &[Hand], _: u64, _: &Hand, _: &[usize]) {}
/// outside the engine: let the threads drift apart
fn pause() {
    if !sx::engine() {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.subsec_nanos());
        std::thread::sleep(std::time::Duration::from_micros((t / 64 % 7 * 40) as u64));
    }
}
fn family(k: u64, sym: bool) -> (Vec<Vec<C>>, u64, u64) {
    let w = |c: u8| if sym { weight(100) } else { c };
    match k {
        // flop, 990 boards for each holding
        0 => (
            vec![
                vec![(51, 50, 1), (49, 48, w(3)), (47, 43, w(100)), (40, 37, w(7))],
                vec![(46, 42, 1), (39, 35, w(5)), (51, 46, w(9)), (30, 29, w(11)), (13, 9, w(2)), (28, 24, w(50))],
            ],
            1 << 20 | 1 << 33 | 1 << 6,
            0,
        ),
        // complete board, three players
        1 => (
            vec![
                vec![(51, 50, 1), (49, 48, w(3)), (47, 43, w(100)), (40, 37, w(7))],
                vec![(46, 42, 1), (39, 35, w(5)), (51, 46, w(9))],
                vec![(45, 41, 1), (38, 34, w(5)), (29, 26, w(9))],
            ],
            1 << 20 | 1 << 33 | 1 << 6 | 1 << 11 | 1 << 52 - 37,
            0,
        ),
        // turn, four players, few live cards
        2 => (
            vec![vec![(51, 50, 1), (49, 48, w(3))], vec![(46, 42, 1), (39, 35, w(5))], vec![(45, 41, 1), (38, 34, w(9))], vec![(51, 47, 1), (37, 36, w(2))]],
            1 << 20 | 1 << 33 | 1 << 6 | 1 << 11,
            0x3f00_0000,
        ),
        // flop of one suit, one holding for each hand of the second player (the counts of a hand tell which holdings
        // were counted), and enough boards that every worker hands in its counts several times
        4 | 5 => {
            let mut b = Vec::new();
            for x in (0..50u8).rev() {
                for y in (0..x).rev() {
                    let taken = |c: u8| [34, 22, 6].contains(&c) || [51, 50].contains(&c);
                    if !taken(x) && !taken(y) && (x as usize * 7 + y as usize * 3) % if k == 4 { 5 } else { 17 } == 0 {
                        b.push((x, y, if b.len() == 0 { 1 } else { 1 + (b.len() % 9) as u8 }));
                    }
                }
            }
            (vec![vec![(51, 50, 1)], b], 1 << 34 | 1 << 22 | 1 << 6, 0)
        }
        // no board: more than one holding only if the program shares them out itself
        _ => (vec![vec![(51, 50, 1)], vec![(47, 46, 1), (31, 30, 2)]], 0, 0),
    }
}
fn sum(r: &SimulationResults) -> u64 {
    r.wins_by_mask.iter().sum()
}
/// nothing counted twice, and every breakdown counts the same deals
fn part(v: &[Vec<C>], r: &SimulationResults, full: &Naive) {
    let n = v.len();
    let t = sum(r);
    for m in 0..1 << n {
        sx::check(r.wins_by_mask[m] <= full.by_mask[m], 33);
    }
    let mut e = 0.;
    for i in 0..n {
        let (mut total, mut wins) = (0, 0);
        for (k, c) in v[i].iter().enumerate() {
            let h = &r.hand_results[1326 * i + get_card_index(c.0, c.1)];
            sx::check(h.total <= full.cells[i][k].total, 33);
            sx::check(h.wins <= full.cells[i][k].wins && h.ties <= full.cells[i][k].ties, 33);
            sx::check(h.weight == c.2 as u32 && h.valid, 35);
            total += h.total;
            wins += h.wins;
        }
        sx::check(total == t && wins == r.wins[i] && wins == r.wins_by_mask[1 << i], 32);
        sx::check(r.equities[i] >= 0. && r.equities[i] <= 1., 32);
        e += r.equities[i];
    }
    sx::check(if t == 0 { e == 0. } else { e > 1. - 1e-6 && e < 1. + 1e-6 }, 32);
}
/// params: family, threads, preemptions + 256 * choices, holdings at a time, cancel (0: never, 1: from the start,
/// k: at callback k - 1), symbolic weights
#[no_mangle]
pub extern "C" fn c16_run() {
    let (v, board, dead) = family(sx::param(0), sx::param(5) != 0);
    let threads = sx::param(1);
    unsafe { BATCH = sx::param(3) };
    let cancel = sx::param(4);
    let full = if sx::param(0) != 3 { naive(&v, board, dead) } else { Naive::new(&v) };
    let r = ranges(&v);
    let token = Arc::new(AtomicBool::new(cancel == 1));
    let seen = token.clone();
    let calls = Cell::new(0u64);
    let over = Cell::new(false);
    sx::preempt(sx::param(2) as u32);
    let r = exact_equity(&r, board, dead, threads as u8, token, |p| {
        calls.set(calls.get() + 1);
        over.set(over.get() | (p > 100));
        if calls.get() + 1 == cancel {
            seen.store(true, Ordering::SeqCst);
        }
    });
    sx::preempt(0);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            sx::check(false, 20);
            return;
        }
    };
    sx::check(!over.get(), 30);
    sx::check(calls.get() >= threads, 31);
    if sx::param(0) == 3 {
        sx::check(sum(&r) == 3 * 1712304, 2);
        sx::check(r.hand_results[get_card_index(51, 50)].total == 3 * 1712304, 4);
    } else if cancel == 0 {
        same_counts(&v, &r, &full);
        if sx::param(5) == 0 {
            same_shares(&v, &r, &full);
        }
    } else {
        part(&v, &r, &full);
        if cancel == 1 {
            // every worker stops when it has looked at ten thousand deals, after the holding it is at
            sx::check(r.eval_count <= threads * 11000, 34);
        }
    }
    if cancel == 0 {
        sx::observe(sum(&r));
    }
    sx::reach(100);
}
