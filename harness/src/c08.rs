//! C08: combo ordering is a total order that agrees with equality; display.
use crate::{spec, sx};
use pokers::hand_range::Combo;
use std::cmp::Ordering;

fn any() -> Combo {
    Combo(sx::range(0, 255) as u8, sx::range(0, 255) as u8, sx::range(0, 255) as u8)
}
fn n(o: Ordering) -> i32 {
    o as i8 as i32
}
#[no_mangle]
pub extern "C" fn c08_order() {
    sx::merge(true);
    let (a, b, c) = (any(), any(), any());
    let ab = n(a.cmp(&b));
    let ba = n(b.cmp(&a));
    let bc = n(b.cmp(&c));
    let ac = n(a.cmp(&c));
    sx::check(ab == -ba, 1);
    sx::check(!(ab <= 0 && bc <= 0) || ac <= 0, 2);
    sx::check(!(ab <= 0 && bc < 0) || ac < 0, 3);
    let same = a.0 == b.0 && a.1 == b.1;
    sx::check((ab == 0) == same, 4);
    sx::check((a == b) == same, 5);
    sx::check((a != b) == !same, 6);
    sx::check(a.partial_cmp(&b) == Some(a.cmp(&b)), 7);
    sx::check(n(Combo(a.0, a.1, b.2).cmp(&Combo(b.0, b.1, c.2))) == ab, 8);
    let (ra, rb) = (a.0 >> 2, b.0 >> 2);
    sx::check(ra == rb || (ab < 0) == (ra < rb), 9);
    let (qa, qb) = (a.1 >> 2, b.1 >> 2);
    sx::check(ra != rb || qa == qb || (ab < 0) == (qa < qb), 10);
    sx::check((a < b) == (ab < 0) && (a <= b) == (ab <= 0) && (a > b) == (ab > 0) && (a >= b) == (ab >= 0), 11);
    sx::observe(ab as u64);
    sx::observe(bc as u64);
    sx::observe(ac as u64);
    sx::reach(1);
}
/// display of a combo of two cards, any order, any weight
#[no_mangle]
pub extern "C" fn c08_show() {
    let c = Combo(sx::range(0, 51) as u8, sx::range(0, 51) as u8, sx::range(0, 255) as u8);
    let s = c.to_string();
    let b = s.as_bytes();
    sx::check(b.len() == 4, 20);
    if b.len() == 4 {
        sx::check(b[0] == spec::RANKS[(c.0 >> 2) as usize], 21);
        sx::check(b[1] == spec::SUITS[(c.0 & 3) as usize], 22);
        sx::check(b[2] == spec::RANKS[(c.1 >> 2) as usize], 23);
        sx::check(b[3] == spec::SUITS[(c.1 & 3) as usize], 24);
        sx::observe(b[0] as u64);
        sx::observe(b[3] as u64);
    }
    sx::reach(1);
}
