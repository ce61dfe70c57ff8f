//! C21: the nut straight flag marks exactly the best straight the board allows.
use crate::draws::deal;
use crate::sx;
use pokers::get_draw;

/// the ten straights as rank sets, lowest (ace to five) first
fn straight(i: u32) -> u32 {
    if i == 0 {
        0b1_0000_0000_1111
    } else {
        0b11111 << (i - 1)
    }
}
/// params: board cards, made hand is a straight
#[no_mangle]
pub extern "C" fn c21_nut() {
    let nb = sx::param(0) as usize;
    let (h, b, hole, board) = deal(nb);
    let mut on_board = 0u32;
    for &c in &b[..nb] {
        on_board |= 1 << (c >> 2);
    }
    let all = on_board | 1 << (h[0] >> 2) | 1 << (h[1] >> 2);
    // highest straight of the hand, and highest straight that two cards can make with the board; 0: none
    let mut mine = 0u32;
    let mut best = 0u32;
    for i in 0..10 {
        let s = straight(i);
        mine = if all & s == s { i + 1 } else { mine };
        best = if (on_board & s).count_ones() >= 3 { i + 1 } else { best };
    }
    if sx::param(1) == 1 {
        sx::assume(mine > 0);
        let d = get_draw(hole, board, 4);
        sx::check((d & 16 == 0) | (mine == best), 1);
        sx::check((d & 16 != 0) | (mine != best), 2);
        sx::observe(d as u64);
    } else {
        let rank = sx::range(0, 8) as u8;
        sx::assume(rank != 4);
        // rank 5 is a flush, the others below a full house hold no straight
        let mut flush = false;
        for k in 0..4 {
            let mut n = 0;
            for &c in h.iter().chain(b[..nb].iter()) {
                n += (c & 3 == k) as u32;
            }
            flush |= n >= 5;
        }
        sx::assume((rank != 5) | flush);
        sx::assume((rank > 4) | (mine == 0));
        let d = get_draw(hole, board, rank);
        sx::check(d & 16 == 0, 3);
        sx::observe(d as u64);
    }
    sx::reach(100);
}
