//! C07: card text and card numbers convert both ways without loss.
use crate::sx;
use pokers::hand_range::*;

const R: &[u8] = b"23456789tjqka";
const S: &[u8] = b"shcd";

/// rank of a character in any case, 255 if it is none
fn rank(c: u8) -> u8 {
    let l = if (c >= b'A') & (c <= b'Z') { c | 32 } else { c };
    let mut r = 255u8;
    for i in 0..13 {
        r = if l == R[i] { i as u8 } else { r };
    }
    r
}
/// suit of a character, 255 if it is none
fn suit(c: u8, any_case: bool) -> u8 {
    let l = if any_case & (c >= b'A') & (c <= b'Z') { c | 32 } else { c };
    let mut r = 255u8;
    for i in 0..4 {
        r = if l == S[i] { i as u8 } else { r };
    }
    r
}
fn is_name(b: &[u8], c: u8) -> bool {
    (rank(b[0]) == c >> 2) & (suit(b[1], false) == c & 3)
}
fn text(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(16);
    for _ in 0..n {
        v.push(sx::range(0, 127) as u8);
    }
    v
}
fn st(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// Sets of cards: param 1 cards starting at param 0 are in or out independently, the others are all in (param 2 = 1),
/// all out (0), or every second one in (2).
#[no_mangle]
pub extern "C" fn c07_set() {
    let (at, k) = (sx::param(0), sx::param(1));
    let win = sx::range(0, (1 << k) - 1) << at;
    let full = (1u64 << 52) - 1;
    let rest = match sx::param(2) {
        0 => 0,
        1 => full,
        _ => full & 0x5555_5555_5555_5555,
    };
    let m = win | (rest & !(((1 << k) - 1) << at));
    sx::shard(sx::conc(win >> at & 15));
    let t = mask_to_string(m);
    sx::check(t.len() == 2 * m.count_ones() as usize, 1);
    let b = t.as_bytes();
    // names of the cards of the set, each once
    let mut i = 0;
    let mut seen = 0u64;
    while i + 1 < b.len() {
        let c = 4 * rank(b[i]) as u64 + suit(b[i + 1], false) as u64;
        sx::check(c < 52, 2);
        seen |= 1 << (c & 63);
        i += 2;
    }
    sx::check(seen == m, 3);
    sx::check(get_card_mask(&t) == m, 4);
    sx::observe(t.len() as u64);
    sx::reach(100);
}
#[no_mangle]
pub extern "C" fn c07_card() {
    let c = sx::range(0, 51) as u8;
    let t = card_to_string(c);
    sx::check(t.len() == 2, 5);
    sx::check(is_name(t.as_bytes(), c), 6);
    sx::check(get_card_mask(&t) == 1u64 << c, 7);
    match card_from_str(&t) {
        Ok(d) => sx::check(c == d, 8),
        Err(_) => sx::check(false, 8),
    }
    sx::observe(t.as_bytes()[0] as u64);
    sx::reach(100);
}
#[no_mangle]
pub extern "C" fn c07_hole() {
    let a = sx::conc(sx::range(0, 51)) as u8;
    sx::shard(a as u64);
    let b = sx::conc(sx::range(0, 51)) as u8;
    sx::assume(a != b);
    let e = sx::conc(sx::range(0, 3)) as u8 * 13 + 7;
    let f = 51 - e;
    let ok = |t: &str, a: u8, b: u8| {
        let t = t.as_bytes();
        t.len() == 4 && (is_name(&t[..2], a) & is_name(&t[2..], b) | is_name(&t[..2], b) & is_name(&t[2..], a))
    };
    match hole_to_string((a, b)) {
        Ok(t) => {
            sx::check(ok(&t, a, b), 9);
            sx::check(get_card_mask(&t) == 1 << a | 1 << b, 10);
        }
        Err(_) => sx::check(false, 9),
    }
    match holes_to_strings(&[(a, b), (e, f)]) {
        Ok(v) => {
            sx::check(v.len() == 2, 11);
            if v.len() == 2 {
                sx::check(ok(&v[0], a, b), 12);
                sx::check(ok(&v[1], e, f), 13);
            }
        }
        Err(_) => sx::check(false, 11),
    }
    sx::reach(100);
}
/// param 0: length
#[no_mangle]
pub extern "C" fn c07_mask_text() {
    let n = sx::param(0) as usize;
    let v = text(n);
    let m = get_card_mask(st(&v));
    let mut e = 0u64;
    let mut good = n % 2 == 0;
    for p in 0..n / 2 {
        let (r, s) = (rank(v[2 * p]), suit(v[2 * p + 1], true));
        good &= (r < 13) & (s < 4);
        e |= 1u64 << ((4 * (r & 15) + (s & 3)) & 63);
    }
    sx::check(m == if good { e } else { 0 }, 14);
    sx::observe(m);
    sx::reach(100);
}
/// param 0: length
#[no_mangle]
pub extern "C" fn c07_card_text() {
    let n = sx::param(0) as usize;
    let v = text(n);
    let r = card_from_str(st(&v));
    match r {
        Ok(c) => {
            sx::check(n == 2, 15);
            if n == 2 {
                // a suit in upper case may be refused or read
                sx::check((rank(v[0]) == c >> 2) & (suit(v[1], true) == c & 3), 16);
            }
            sx::observe(c as u64);
        }
        Err(_) => {
            if n == 2 {
                sx::check((rank(v[0]) == 255) | (suit(v[1], false) == 255), 17);
            }
            sx::observe(255);
        }
    }
    sx::reach(100);
}
/// Three cards in a row, with or without a space between them. param 0: 0 all six characters symbolic; 1..6 any text of
/// that many characters less one; 7 with spaces; 8 one character too many
#[no_mangle]
pub extern "C" fn c07_flop() {
    let p = sx::param(0);
    let mut v;
    let at: [usize; 3];
    match p {
        7 => {
            v = text(8);
            v[2] = b' ';
            v[5] = b' ';
            at = [0, 3, 6];
        }
        0 => {
            v = text(6);
            at = [0, 2, 4];
        }
        8 => {
            v = text(7);
            at = [0, 2, 4];
        }
        k => {
            v = text(k as usize - 1);
            at = [0, 0, 0];
        }
    }
    for (i, c) in v.iter().enumerate() {
        if !(p == 7 && (i == 2 || i == 5)) {
            // other white space: not specified
            sx::assume((*c != 32) & ((*c < 9) | (*c > 13)));
        }
    }
    if p == 0 || p == 7 {
        sx::shard(sx::conc(v[0] as u64 & 7));
    }
    let r = flop_from_str(st(&v));
    if p != 0 && p != 7 {
        sx::check(r.is_err(), 18);
        sx::reach(100);
        return;
    }
    let card = |i: usize, any: bool| {
        let (r, s) = (rank(v[at[i]]), suit(v[at[i] + 1], any));
        if (r < 13) & (s < 4) {
            4 * r + s
        } else {
            255
        }
    };
    match r {
        Ok(f) => {
            let c = [card(0, true), card(1, true), card(2, true)];
            sx::check((c[0] != 255) & (c[1] != 255) & (c[2] != 255), 19);
            sx::check((f[0] < f[1]) & (f[1] < f[2]), 20);
            for x in f {
                sx::check((x == c[0]) | (x == c[1]) | (x == c[2]), 21);
            }
            sx::observe(f[0] as u64);
        }
        Err(_) => {
            let c = [card(0, false), card(1, false), card(2, false)];
            sx::check((c[0] == 255) | (c[1] == 255) | (c[2] == 255) | (c[0] == c[1]) | (c[1] == c[2]) | (c[0] == c[2]), 22);
        }
    }
    sx::reach(100);
}
