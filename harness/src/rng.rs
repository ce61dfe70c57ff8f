//! The bytes the operating system would give to seed random number generators: a fixed sequence, so that a run of the
//! program is decided by the harness' inputs alone, here and in the replay.
use std::sync::atomic::{AtomicU64, Ordering};

static STATE: AtomicU64 = AtomicU64::new(1);

pub fn seed(s: u64) {
    STATE.store(s.wrapping_mul(2) + 1, Ordering::SeqCst);
}

/// # Safety
/// as getrandom(2)
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let x = STATE.load(Ordering::SeqCst);
        let x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        STATE.store(x, Ordering::SeqCst);
        *buf.add(i) = (x >> 33) as u8;
    }
    len as isize
}

#[used]
static KEEP: unsafe extern "C" fn(*mut u8, usize, u32) -> isize = getrandom;
