//! C06: a range list is the union of its items; the first mention sets the weight.
use crate::sx;
use pokers::HandRange;

const R: &[u8] = b"23456789tjqka";

fn parse(t: &[u8]) -> HandRange {
    sx::merge(false);
    let r = HandRange::from_string(unsafe { String::from_utf8_unchecked(t.to_vec()) });
    sx::merge(true);
    r
}
/// is the combo (x, y) in the range, with which weight; each combo at most once
fn look(r: &HandRange, x: u8, y: u8) -> (bool, u8) {
    let mut found = false;
    let mut w = 0u8;
    let mut seen = [0u64; 64];
    for c in &r.hands {
        let hit = ((c.0 == x) & (c.1 == y)) | ((c.1 == x) & (c.0 == y));
        found |= hit;
        w |= c.2 & (hit as u8).wrapping_neg();
        let (a, b) = if c.0 < c.1 { (c.0 & 63, c.1 & 63) } else { (c.1 & 63, c.0 & 63) };
        sx::check(seen[b as usize] >> a & 1 == 0, 9);
        seen[b as usize] |= 1 << a;
    }
    (found, w)
}
fn target() -> (u8, u8) {
    let (x, y) = (sx::range(0, 51) as u8, sx::range(0, 51) as u8);
    sx::assume(x > y);
    (x, y)
}
/// Text of a template: 'R' any rank and 'P' any rank written twice (both explored one by one), 'L' any rank below the king, 'S' any suit, '#' any
/// digit (symbolic), everything else itself. `upper`: letters in upper case.
fn expand(t: &[u8], upper: bool, n: &mut u32) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(64);
    for &c in t {
        match c {
            b'R' | b'P' => {
                let k = sx::conc(sx::range(0, 12));
                if *n < 2 {
                    sx::shard(k);
                }
                *n += 1;
                v.push(R[k as usize]);
                if c == b'P' {
                    v.push(R[k as usize]);
                }
            }
            // a rank below the king
            b'L' => {
                let k = sx::conc(sx::range(0, 10));
                sx::shard(k);
                v.push(R[k as usize])
            }
            b'S' => v.push(b"shcd"[sx::conc(sx::range(0, 3)) as usize]),
            b'#' => v.push(b'0' + sx::range(0, 9) as u8),
            c => v.push(c),
        }
    }
    if upper {
        for c in v.iter_mut() {
            if c.is_ascii_lowercase() {
                *c -= 32;
            }
        }
    }
    v
}
const LISTS: [&[u8]; 16] = [
    b"P+@##,P@##",
    b"P@##,P+",
    b"P-P@##,P+@#",
    b"aRs@##,aR@##",
    b"aR@##,aRs",
    b"RR@##,kR@#",
    b"aSRS@##,aRs@#",
    b"aR+@##,aRo@#",
    b"qRo+,qR+@##",
    b"aa@##,aSaS",
    b"P@##,P@#,P@##",
    b"aRs@##,aR@#,a9+@##",
    b"kL-k5@##,kL@#,k2+@##",
    b"22+@##,P,a2+@#",
    b"aSkS@##,aSkS@#,ak@##",
    b"22+@##,22+@#,22+",
];
/// param 0: which list
#[no_mangle]
pub extern "C" fn c06_list() {
    let mut n = 0;
    let mut items: Vec<Vec<u8>> = Vec::with_capacity(4);
    let mut all: Vec<u8> = Vec::with_capacity(64);
    for it in LISTS[sx::param(0) as usize].split(|&c| c == b',') {
        let t = expand(it, false, &mut n);
        if !items.is_empty() {
            all.push(b',');
        }
        all.extend_from_slice(&t);
        // the same card twice is not an item
        sx::assume(!(t.len() >= 4 && t[0] == t[2] && t[1] == t[3] && !t[1].is_ascii_digit() && b"shcd".contains(&t[1])));
        items.push(t);
    }
    let r = parse(&all);
    let (x, y) = target();
    let (f, w) = look(&r, x, y);
    let mut ef = false;
    let mut ew = 0u8;
    for it in &items {
        let (g, v) = look(&parse(it), x, y);
        ew |= v & ((g & !ef) as u8).wrapping_neg();
        ef |= g;
    }
    sx::check(f == ef, 1);
    sx::check(!f | (w == ew), 2);
    sx::observe(r.hands.len() as u64);
    sx::reach(100);
}
/// upper case and lower case
const CASES: [&[u8]; 6] = [b"RhRs@##,aSks", b"tRs+@#,qSkS", b"Ro-9o", b"jRo+,9Rs@##", b"RSaS@#", b"akRs,kR"];
#[no_mangle]
pub extern "C" fn c06_case() {
    let mut n = 0;
    let t = expand(CASES[sx::param(0) as usize], false, &mut n);
    // any subset of the letters in upper case, except that equal letters keep the same case
    let m = sx::conc(sx::range(1, 15));
    let mut u = t.clone();
    let mut k = 0;
    for c in u.iter_mut() {
        if c.is_ascii_lowercase() {
            if m >> (k & 3) & 1 == 1 {
                *c -= 32;
            }
            k += 1;
        }
    }
    let (p, q) = (parse(&t), parse(&u));
    same(&p, &q, 3);
    sx::reach(100);
}
fn same(p: &HandRange, q: &HandRange, id: u32) {
    let (x, y) = target();
    let (f, w) = look(p, x, y);
    let (g, v) = look(q, x, y);
    sx::check((f == g) & (w == v), id);
    sx::observe(p.hands.len() as u64);
}
/// items that are malformed: '?' any character that is not the one the notation asks for at this point (param 0)
const BAD: [(&[u8], u8); 12] = [
    (b"?", b'r'),
    (b"k?", b'b'),
    (b"ks?", b'r'),
    (b"ksq?", b's'),
    (b"ksks", 0),
    (b"99-?", b'r'),
    (b"99-8?", b'r'),
    (b"99-87", 0),
    (b"k9-55", 0),
    (b"aks-a9o", 0),
    (b"ak-a9s", 0),
    (b"kq-98", 0),
];
#[no_mangle]
pub extern "C" fn c06_stop() {
    let mut n = 0;
    let good = expand(b"P@##,aRs@##", false, &mut n);
    let mut v = good.clone();
    v.push(b',');
    let (b, kind) = BAD[sx::param(0) as usize];
    for &c in b {
        if c == b'?' {
            let c = sx::range(0, 127) as u8;
            let l = c | 32;
            let rank = ((c >= b'2') & (c <= b'9')) | (l == b't') | (l == b'j') | (l == b'q') | (l == b'k') | (l == b'a');
            let suit = (l == b's') | (l == b'h') | (l == b'c') | (l == b'd');
            sx::assume(match kind {
                b'r' => !rank,
                b's' => !suit,
                _ => !rank & !suit,
            });
            v.push(c);
        } else {
            v.push(c);
        }
    }
    v.extend_from_slice(b",22");
    same(&parse(&good), &parse(&v), 4);
    sx::reach(100);
}
#[no_mangle]
pub extern "C" fn c06_random() {
    let r = HandRange::from_string("random".to_string());
    let (x, y) = target();
    let (f, w) = look(&r, x, y);
    sx::check(f, 5);
    sx::check(w == 100, 6);
    sx::check(r.hands.len() == 1326, 7);
    sx::reach(100);
}
/// several ranges at once: param 0 strings
#[no_mangle]
pub extern "C" fn c06_many() {
    let mut n = 0;
    let k = sx::param(0) as usize;
    let mut v: Vec<Vec<u8>> = Vec::with_capacity(8);
    const T: [&[u8]; 5] = [b"aRs@##,22", b"P+@#", b"", b"q?", b"aSkS@##,75+"];
    for i in 0..k {
        v.push(expand(T[i], false, &mut n));
    }
    sx::merge(false);
    let rs = HandRange::from_strings(v.iter().map(|t| unsafe { String::from_utf8_unchecked(t.clone()) }).collect());
    sx::merge(true);
    sx::check(rs.len() == k, 8);
    if rs.len() == k {
        for i in 0..k {
            same(&parse(&v[i]), &rs[i], 10);
        }
    }
    sx::reach(100);
}
