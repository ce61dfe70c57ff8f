//! C19: flush draw flags match the cards.
use crate::draws::deal;
use crate::sx;
use pokers::{get_draw, Hand, CARDS};

struct Suits {
    count: [u32; 4],
    /// ranks of the board, of the hole cards
    board: [u32; 4],
    hole: [u32; 4],
}
fn suits(hole: &[u64], board: &[u64]) -> Suits {
    let mut s = Suits { count: [0; 4], board: [0; 4], hole: [0; 4] };
    for k in 0..4u64 {
        let i = k as usize;
        for &c in hole {
            let on = (c & 3 == k) as u32;
            s.count[i] += on;
            s.hole[i] |= on << (c >> 2);
        }
        for &c in board {
            let on = (c & 3 == k) as u32;
            s.count[i] += on;
            s.board[i] |= on << (c >> 2);
        }
    }
    s
}
/// does the player hold the highest card of the suit that is not on the board
fn nut(s: &Suits, i: usize) -> bool {
    let mut r = false;
    let mut open = true; // every higher card is on the board
    for k in (0..13).rev() {
        r |= open & (s.hole[i] >> k & 1 == 1);
        open &= s.board[i] >> k & 1 == 1;
    }
    r
}
/// param 0: board cards; a made hand below a flush
#[no_mangle]
pub extern "C" fn c19_draw() {
    let nb = sx::param(0) as usize;
    let (h, b, hole, board) = deal(nb);
    let rank = sx::range(0, 4) as u8;
    let s = suits(&h, &b[..nb]);
    let (mut fd, mut bd, mut nuts) = (false, false, false);
    for i in 0..4 {
        sx::assume(s.count[i] < 5);
        let f = s.count[i] == 4;
        let k = (nb == 3) & (s.count[i] == 3);
        fd |= f;
        bd |= k;
        nuts |= (f | k) & nut(&s, i);
    }
    let d = get_draw(hole, board, rank);
    sx::check((d & 32 != 0) == fd, 1);
    sx::check((d & 64 != 0) == bd, 2);
    sx::check((d & 128 != 0) == nuts, 3);
    sx::observe(d as u64);
    sx::reach(100);
}
/// a made flush
#[no_mangle]
pub extern "C" fn c19_made() {
    let nb = sx::param(0) as usize;
    let (h, b, hole, board) = deal(nb);
    let s = suits(&h, &b[..nb]);
    let mut any = false;
    let mut nuts = false;
    for i in 0..4 {
        let f = s.count[i] >= 5;
        any |= f;
        nuts |= f & nut(&s, i);
    }
    sx::assume(any);
    // five cards of the suit on the board that are its five highest make a straight flush, not a flush
    for i in 0..4 {
        sx::assume(s.board[i] & 0x1f00 != 0x1f00);
    }
    let d = get_draw(hole, board, 5);
    sx::check(d & 96 == 0, 4);
    sx::check((d & 128 != 0) == nuts, 5);
    sx::observe(d as u64);
    sx::reach(100);
}
/// the same cards with the suits renamed (param 1: rotated by one, or two of them exchanged)
#[no_mangle]
pub extern "C" fn c19_rename() {
    let nb = sx::param(0) as usize;
    let (h, b, hole, board) = deal(nb);
    let f = |c: u64| {
        let s = c & 3;
        let t = if sx::param(1) == 0 { (s + 1) & 3 } else { s ^ ((s < 2) as u64) };
        (c & !3 | t) as usize
    };
    let rank = [2u8, 4, 5][sx::param(2) as usize];
    let s = suits(&h, &b[..nb]);
    let mut flush = false;
    for i in 0..4 {
        flush |= s.count[i] >= 5;
    }
    sx::assume(flush == (rank == 5));
    let d = get_draw(hole, board, rank);
    let mut board2 = Hand::default();
    for &c in &b[..nb] {
        board2 += CARDS[f(c)];
    }
    let e = get_draw(Hand::from_hole_cards(f(h[0]) as u8, f(h[1]) as u8), board2, rank);
    // the flush flags are pinned down by c19_draw and c19_made
    sx::check((d ^ e) & 31 == 0, 6);
    sx::observe(d as u64);
    sx::reach(100);
}
