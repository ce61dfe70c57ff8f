//! C20: straight draw flags are sound and complete.
use crate::draws::deal;
use crate::sx;
use pokers::get_draw;

/// the ten straights as rank sets, lowest (ace to five) first
fn straight(i: u32) -> u32 {
    if i == 0 {
        0b1_0000_0000_1111
    } else {
        0b11111 << (i - 1)
    }
}
fn has(m: u32) -> bool {
    let mut r = false;
    for i in 0..10 {
        r |= m & straight(i) == straight(i);
    }
    r
}
fn ranks(h: &[u64], b: &[u64]) -> u32 {
    let mut m = 0;
    for &c in h {
        m |= 1u32 << (c >> 2);
    }
    for &c in b {
        m |= 1u32 << (c >> 2);
    }
    m
}
/// param 0: board cards; a made hand below a straight
#[no_mangle]
pub extern "C" fn c20_draw() {
    let nb = sx::param(0) as usize;
    let (h, b, hole, board) = deal(nb);
    let rank = sx::range(0, 3) as u8;
    let m = ranks(&h, &b[..nb]);
    sx::assume(!has(m));
    let d = get_draw(hole, board, rank);
    let mut outs = 0u32;
    for r in 0..13 {
        outs += has(m | 1 << r) as u32;
    }
    let mut four = false;
    let mut three = false;
    for i in 0..10 {
        let k = (m & straight(i)).count_ones();
        four |= (i > 0) & (k == 4);
        three |= k >= 3;
    }
    sx::check((d & 7 == 0) | (outs > 0), 1);
    sx::check((d & 7 != 0) | !four, 2);
    sx::check((d & 5 == 0) | (outs > 1), 3);
    sx::check((d & 8 == 0) | ((nb == 3) & three), 4);
    sx::observe(d as u64);
    sx::reach(100);
}
/// a straight or better
#[no_mangle]
pub extern "C" fn c20_made() {
    let nb = sx::param(0) as usize;
    let (h, b, hole, board) = deal(nb);
    let rank = sx::range(4, 8) as u8;
    // rank 5 is a flush
    let mut flush = false;
    for k in 0..4 {
        let mut n = 0;
        for &c in h.iter().chain(b[..nb].iter()) {
            n += (c & 3 == k) as u32;
        }
        flush |= n >= 5;
    }
    sx::assume((rank != 5) | flush);
    let d = get_draw(hole, board, rank);
    sx::check(d & 15 == 0, 5);
    sx::observe(d as u64);
    sx::reach(100);
}
