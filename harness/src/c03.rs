//! C03: two-card indexing is a bijection shared by indexes and names.
use crate::{spec, sx};
use pokers::hand_evaluator::get_card_index;
use pokers::{Hand, COMBO_TO_INDEX, HAND_TO_INDEX, INDEX_TO_COMBO, INDEX_TO_HAND};

/// class 0..169 of two distinct cards in the documented layout: pairs AA..22, then suited AK..32, then offsuit
fn class(c1: u64, c2: u64) -> u64 {
    let (r1, r2) = (c1 >> 2, c2 >> 2);
    let (hi, lo) = if r1 > r2 { (r1, r2) } else { (r2, r1) };
    let h = 12 - hi; // 0 for an ace
    let l = 12 - lo;
    if r1 == r2 {
        h
    } else {
        // non-pair classes before those with this higher rank: 12 + 11 + ...
        let n = h * (25 - h) / 2 + (l - h - 1);
        if c1 & 3 == c2 & 3 {
            13 + n
        } else {
            91 + n
        }
    }
}
fn class_of_index(i: u64) -> u64 {
    if i < 78 {
        i / 6
    } else if i < 78 + 312 {
        13 + (i - 78) / 4
    } else {
        91 + (i - 390) / 12
    }
}
/// both cards symbolic: order does not matter, in range, the two computations agree, and the index lies in its class's group
#[no_mangle]
pub extern "C" fn c03_index() {
    let c1 = sx::range(0, 51);
    let c2 = sx::range(0, 51);
    sx::assume(c1 != c2);
    let i = get_card_index(c1 as u8, c2 as u8) as u64;
    let j = get_card_index(c2 as u8, c1 as u8) as u64;
    sx::check(i == j, 1);
    sx::check(i < 1326, 2);
    let k = Hand::from_hole_cards(c1 as u8, c2 as u8).get_card_index() as u64;
    sx::check(i == k, 3);
    sx::check(class_of_index(i) == class(c1, c2), 4);
    sx::observe(i);
    sx::reach(1);
}
/// two holdings, all cards symbolic: equal index only for equal holdings (one class at a time: param 0 unused)
#[no_mangle]
pub extern "C" fn c03_inj() {
    let a = [sx::range(0, 51), sx::range(0, 51)];
    let b = [sx::range(0, 51), sx::range(0, 51)];
    sx::assume(a[0] < a[1] && b[0] < b[1]);
    // indexes in the same class group (c03_index) and therefore the same ranks and suitedness
    let ci = sx::conc(class(a[0], a[1]));
    sx::assume(class(b[0], b[1]) == ci);
    sx::assume(a[0] != b[0] || a[1] != b[1]);
    let i = get_card_index(a[0] as u8, a[1] as u8);
    let j = get_card_index(b[0] as u8, b[1] as u8);
    sx::check(i != j, 5);
    sx::reach(1);
}
fn rank_no(b: u8) -> u64 {
    let mut r = 99;
    for k in 0..13 {
        if spec::RANKS[k] == b {
            r = k as u64;
        }
    }
    r
}
fn suit_no(b: u8) -> u64 {
    let mut r = 99;
    for k in 0..4 {
        if spec::SUITS[k] == b {
            r = k as u64;
        }
    }
    r
}
/// for every index: its name is the two cards whose index it is (both computations), its class name is that of its group
#[no_mangle]
pub extern "C" fn c03_names() {
    let i = sx::conc(sx::range(0, 1325)) as usize;
    sx::shard(i as u64);
    let n = INDEX_TO_HAND[i].as_bytes();
    sx::check(n.len() == 4, 10);
    if n.len() != 4 {
        return;
    }
    let (r1, s1, r2, s2) = (rank_no(n[0]), suit_no(n[1]), rank_no(n[2]), suit_no(n[3]));
    let ok = r1 < 13 && r2 < 13 && s1 < 4 && s2 < 4 && (r1, s1) != (r2, s2);
    sx::check(ok, 11);
    if !ok {
        return;
    }
    let (a, b) = ((4 * r1 + s1) as u8, (4 * r2 + s2) as u8);
    sx::check(get_card_index(a, b) == i, 12);
    sx::check(get_card_index(b, a) == i, 13);
    sx::check(Hand::from_hole_cards(b, a).get_card_index() == i, 14);
    let cn = INDEX_TO_COMBO[class_of_index(i as u64) as usize].as_bytes();
    let (hi, lo) = if r1 > r2 { (r1, r2) } else { (r2, r1) };
    let ok = cn.len() >= 2 && cn[0] == spec::RANKS[hi as usize] && cn[1] == spec::RANKS[lo as usize];
    sx::check(ok, 15);
    if r1 == r2 {
        sx::check(cn.len() == 2, 16);
    } else {
        sx::check(cn.len() == 3 && cn[2] == if s1 == s2 { b's' } else { b'o' }, 17);
    }
    sx::observe(a as u64);
    sx::observe(b as u64);
    sx::reach(1);
}
/// looking a name up gives back its index
#[no_mangle]
pub extern "C" fn c03_lookup() {
    let warm = HAND_TO_INDEX.len() == 1326 && COMBO_TO_INDEX.len() == 169;
    sx::check(warm, 20);
    let i = sx::conc(sx::range(0, 1325 + 169)) as usize;
    if i < 1326 {
        sx::check(HAND_TO_INDEX.get(INDEX_TO_HAND[i]) == Some(&i), 21);
    } else {
        let k = i - 1326;
        sx::check(COMBO_TO_INDEX.get(INDEX_TO_COMBO[k]) == Some(&k), 22);
    }
    sx::reach(1);
}
