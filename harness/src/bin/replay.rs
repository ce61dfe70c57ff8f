//! Native replay: `replay <entry> <inputs,comma separated|-> [params,comma separated]`
//! exit 0: the entry ran to its end; 7: an assertion failed; 9: an assumption does not hold for these inputs;
//! anything else (panic, signal): as the process ended.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
static IN: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
static PARAMS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static FAILED: AtomicBool = AtomicBool::new(false);

#[no_mangle]
extern "C" fn sx_range(lo: u64, hi: u64) -> u64 {
    let mut g = IN.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    let v = g.0.get(i).copied().unwrap_or(lo);
    if v < lo || v > hi {
        println!("INPUT {} = {} outside {}..{}", i, v, lo, hi);
        std::process::exit(9);
    }
    v
}
#[no_mangle]
extern "C" fn sx_assume(c: bool) {
    if !c {
        if FAILED.load(Ordering::SeqCst) {
            std::process::exit(7);
        }
        println!("ASSUME violated");
        std::process::exit(9);
    }
}
#[no_mangle]
extern "C" fn sx_assert(c: bool, id: u32) {
    if !c {
        println!("ASSERT {} failed", id);
        FAILED.store(true, Ordering::SeqCst);
    }
}
#[no_mangle]
extern "C" fn sx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sx_param(i: u32) -> u64 {
    PARAMS.lock().unwrap().get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
extern "C" fn sx_shard(_: u64) {}
#[no_mangle]
extern "C" fn sx_observe(v: u64) {
    println!("OBS {}", v);
}
#[no_mangle]
extern "C" fn sx_reach(_: u32) {}
#[no_mangle]
extern "C" fn sx_merge(_: u32) {}
#[no_mangle]
extern "C" fn sx_symtab(_: u32) {}
#[no_mangle]
extern "C" fn sx_measure(_: u64, _: u64) {}
#[no_mangle]
extern "C" fn sx_preempt(_: u32) {}
#[no_mangle]
extern "C" fn sx_done() {
    if FAILED.load(Ordering::SeqCst) {
        std::process::exit(7);
    }
    println!("OK");
    std::process::exit(0);
}
#[no_mangle]
extern "C" fn sx_engine() -> bool {
    false
}

fn list(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::entry(&a[1]).expect("entry");
    IN.lock().unwrap().0 = a.get(2).map(|s| list(s)).unwrap_or_default();
    *PARAMS.lock().unwrap() = a.get(3).map(|s| list(s)).unwrap_or_default();
    f();
    if FAILED.load(Ordering::SeqCst) {
        std::process::exit(7);
    }
    println!("OK");
}
