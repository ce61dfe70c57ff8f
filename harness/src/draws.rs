//! Cards for the draw flags: two hole cards and a board, all distinct.
use crate::sx;
use pokers::{Hand, CARDS};

pub fn deal(nb: usize) -> ([u64; 2], [u64; 5], Hand, Hand) {
    let mut hole = [0u64; 2];
    let mut board = [0u64; 5];
    let mut used = 0u64;
    let mut draw = || {
        let c = sx::range(0, 51);
        sx::assume(used >> c & 1 == 0);
        used |= 1 << c;
        c
    };
    for h in hole.iter_mut() {
        *h = draw();
    }
    for b in board.iter_mut().take(nb) {
        *b = draw();
    }
    // the order within a hand does not matter (C02)
    sx::assume(hole[0] < hole[1]);
    for i in 1..nb {
        sx::assume(board[i - 1] < board[i]);
    }
    let h = Hand::from_hole_cards(hole[0] as u8, hole[1] as u8);
    let mut b = Hand::default();
    for &c in board.iter().take(nb) {
        b += CARDS[c as usize];
    }
    (hole, board, h, b)
}
