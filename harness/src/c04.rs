//! C04: a range item expands to exactly the hands it denotes.
use crate::sx;
use pokers::HandRange;

const R: &[u8] = b"23456789TJQKA";
const S: &[u8] = b"shcd";

/// which combos an item denotes, as conditions on a combo with higher rank h, lower rank l
struct Den {
    h: (u8, u8),
    l: (u8, u8),
    /// pairs only (h == l)
    pair: bool,
    suited: bool,
    offsuit: bool,
    /// or this single combo
    one: Option<(u8, u8)>,
}
fn within(x: u8, (a, b): (u8, u8)) -> bool {
    (x >= a) & (x <= b)
}
fn ord(a: u8, b: u8) -> (u8, u8) {
    if a < b {
        (a, b)
    } else {
        (b, a)
    }
}
fn rank() -> u8 {
    sx::conc(sx::range(0, 12)) as u8
}
fn suffix(t: &mut Vec<u8>, k: u64) {
    if k == 1 {
        t.push(b'o');
    }
    if k == 2 {
        t.push(b's');
    }
}
/// param 0: form of the item; param 1: number of weight digits (0: no weight)
#[no_mangle]
pub extern "C" fn c04_item() {
    let form = sx::param(0);
    let digits = sx::param(1);
    let mut t: Vec<u8> = Vec::with_capacity(16);
    let d;
    let r1 = rank();
    sx::shard(r1 as u64);
    let r2 = rank();
    sx::shard(r2 as u64);
    match form {
        // two ranks, in either order
        0 => {
            let k = sx::conc(sx::range(0, 2));
            t.extend_from_slice(&[R[r1 as usize], R[r2 as usize]]);
            suffix(&mut t, k);
            let (a, b) = ord(r1, r2);
            d = Den { h: (b, b), l: (a, a), pair: false, suited: k != 1, offsuit: k != 2, one: None };
        }
        // plus
        1 => {
            sx::assume(r1 >= r2);
            let k = sx::conc(sx::range(0, 2));
            t.extend_from_slice(&[R[r1 as usize], R[r2 as usize]]);
            suffix(&mut t, k);
            t.push(b'+');
            d = if r1 == r2 {
                Den { h: (r1, 12), l: (r1, 12), pair: true, suited: k != 1, offsuit: k != 2, one: None }
            } else {
                Den { h: (r1, r1), l: (r2, r1 - 1), pair: false, suited: k != 1, offsuit: k != 2, one: None }
            };
        }
        // pair - pair
        2 => {
            t.extend_from_slice(&[R[r1 as usize], R[r1 as usize], b'-', R[r2 as usize], R[r2 as usize]]);
            let (a, b) = ord(r1, r2);
            d = Den { h: (a, b), l: (a, b), pair: true, suited: false, offsuit: true, one: None };
        }
        // same higher rank
        3 => {
            let r3 = rank();
            sx::assume(r2 < r1 && r3 < r1);
            let k = sx::conc(sx::range(0, 2));
            t.extend_from_slice(&[R[r1 as usize], R[r2 as usize]]);
            suffix(&mut t, k);
            t.extend_from_slice(&[b'-', R[r1 as usize], R[r3 as usize]]);
            suffix(&mut t, k);
            d = Den { h: (r1, r1), l: ord(r2, r3), pair: false, suited: k != 1, offsuit: k != 2, one: None };
        }
        // same lower rank
        4 => {
            let r3 = rank();
            sx::assume(r1 > r2 && r3 > r2);
            let k = sx::conc(sx::range(0, 2));
            t.extend_from_slice(&[R[r1 as usize], R[r2 as usize]]);
            suffix(&mut t, k);
            t.extend_from_slice(&[b'-', R[r3 as usize], R[r2 as usize]]);
            suffix(&mut t, k);
            d = Den { h: ord(r1, r3), l: (r2, r2), pair: false, suited: k != 1, offsuit: k != 2, one: None };
        }
        // two cards
        _ => {
            let s1 = sx::conc(sx::range(0, 3)) as u8;
            let s2 = sx::conc(sx::range(0, 3)) as u8;
            sx::assume(r1 != r2 || s1 != s2);
            t.extend_from_slice(&[R[r1 as usize], S[s1 as usize], R[r2 as usize], S[s2 as usize]]);
            let (a, b) = ord(4 * r1 + s1, 4 * r2 + s2);
            d = Den { h: (0, 0), l: (0, 0), pair: false, suited: false, offsuit: false, one: Some((b, a)) };
        }
    }
    let mut w = 100u32;
    if digits > 0 {
        t.push(b'@');
        w = 0;
        for _ in 0..digits {
            let c = sx::range(0, 9);
            t.push(b'0' + c as u8);
            w = 10 * w + c as u32;
        }
        sx::assume(w <= 100);
    }
    let r = HandRange::from_string(unsafe { String::from_utf8_unchecked(t) });
    // any combo
    let (x, y) = (sx::range(0, 51) as u8, sx::range(0, 51) as u8);
    sx::assume(x > y);
    let (h, l) = (x >> 2, y >> 2);
    let den = match d.one {
        Some((a, b)) => (x == a) & (y == b),
        None => {
            let suited = x & 3 == y & 3;
            within(h, d.h) & within(l, d.l) & ((h == l) | !d.pair) & ((suited & d.suited & (h != l)) | (!suited & d.offsuit))
        }
    };
    let mut found = false;
    let mut ok = true;
    let mut seen = [0u64; 64];
    for c in &r.hands {
        let hit = ((c.0 == x) & (c.1 == y)) | ((c.1 == x) & (c.0 == y));
        found |= hit;
        ok &= !hit | (c.2 as u32 == w);
        let (a, b) = ord(c.0 & 63, c.1 & 63);
        sx::check(seen[b as usize] >> a & 1 == 0, 3);
        seen[b as usize] |= 1 << a;
    }
    sx::check(found == den, 1);
    sx::check(ok, 2);
    sx::observe(r.hands.len() as u64);
    sx::reach(100);
}
