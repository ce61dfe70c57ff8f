//! C05: any text parses without panic into a well-formed range.
use crate::sx;
use pokers::HandRange;

fn well_formed(r: &HandRange) {
    let mut prev: u32 = 0;
    let mut ascending = true;
    for h in &r.hands {
        sx::check(h.0 <= 51 && h.1 <= 51, 1);
        sx::check(h.0 != h.1, 2);
        sx::check(h.0 > h.1, 3);
        sx::check(h.2 <= 100, 4);
        let (c, d) = (h.0 as u32, h.1 as u32);
        let k = 1 + ((c >> 2) << 16 | (d >> 2) << 8 | (c & 3) << 4 | (d & 3));
        ascending &= prev < k;
        prev = k;
    }
    if !ascending {
        // not in the usual order: look for a combo that occurs twice
        let mut seen = [0u64; 64];
        for h in &r.hands {
            let (c, d) = ((h.0 & 63) as usize, (h.1 & 63) as u64);
            sx::check(seen[c] >> d & 1 == 0, 5);
            seen[c] |= 1 << d;
        }
    }
}
/// one of the characters of `set` (each explored on its own; letters in upper case if `up`, or in both if `up` is
/// None), or (None) any other ASCII one
fn pick(set: &[u8], up: Option<bool>) -> (u8, Option<u8>) {
    let k = sx::conc(sx::range(0, set.len() as u64)) as usize;
    if k < set.len() {
        let c = set[k];
        let upper = c.is_ascii_lowercase()
            && match up {
                Some(u) => u,
                None => sx::conc(sx::range(0, 1)) == 1,
            };
        return (if upper { c - 32 } else { c }, Some(c));
    }
    let c = sx::range(0, 127) as u8;
    for &x in set {
        sx::assume(c != x);
        if x.is_ascii_lowercase() {
            sx::assume(c != x - 32);
        }
    }
    (c, None)
}
const RANKS: &[u8] = b"23456789tjqka";
/// Every ASCII text of length param 0. Characters are taken in the order in which an item of the notation is written,
/// so that the value of a rank is fixed before it is used; whatever does not continue an item, and everything after
/// it, stays symbolic.
#[no_mangle]
pub extern "C" fn c05_text() {
    let n = sx::param(0) as usize;
    let up = if n <= 4 { None } else { Some(sx::conc(sx::range(0, 1)) == 1) };
    let mut v: Vec<u8> = Vec::with_capacity(16);
    let mut st = 0;
    let mut empty = true;
    let mut first = true;
    while v.len() < n {
        let (c, k) = match st {
            0 | 8 | 9 => pick(RANKS, up),
            1 => pick(b"23456789tjqkashcd", up),
            3 => pick(RANKS, up),
            4 => pick(b"shcd", up),
            5 | 7 => pick(b"@,", up),
            2 => pick(b"os+-@,", up),
            6 => pick(b"+-@,", up),
            11 => pick(b"os@,", up),
            10 => {
                let k = sx::conc(sx::range(0, 2));
                if k == 0 {
                    (sx::range(b'0' as u64, b'9' as u64) as u8, Some(b'0'))
                } else if k == 1 {
                    (b',', Some(b','))
                } else {
                    let c = sx::range(0, 127) as u8;
                    sx::assume(c != b',' && !c.is_ascii_digit());
                    (c, None)
                }
            }
            _ => (sx::range(0, 127) as u8, None),
        };
        v.push(c);
        if first && k.is_some() {
            empty = false;
        }
        if first {
            sx::shard(k.unwrap_or(0) as u64);
        }
        if v.len() == 2 {
            sx::shard(k.unwrap_or(0) as u64);
        }
        first = false;
        st = match (st, k) {
            (_, None) => 99,
            (10, Some(b'0')) => 10,
            (_, Some(b',')) => 0,
            (_, Some(b'@')) => 10,
            (_, Some(b'+')) => 7,
            (_, Some(b'-')) => 8,
            (0, _) => 1,
            (1, Some(b's' | b'h' | b'c' | b'd')) => 3,
            (1, _) => 2,
            (3, _) => 4,
            (4, _) => 5,
            (2, _) => 6,
            (8, _) => 9,
            (9, _) => 11,
            (11, _) => 7,
            _ => 99,
        };
    }
    let r = HandRange::from_string(unsafe { String::from_utf8_unchecked(v) });
    well_formed(&r);
    if empty && n < 6 {
        sx::check(r.hands.is_empty(), 6);
    }
    sx::observe(r.hands.len() as u64);
    sx::reach(100);
}
/// param 0: which template; 'R' is any rank, 'S' any suit (each explored on its own), '#' any digit, '?' any ASCII
/// character, everything else itself
const TEMPLATES: [&[u8]; 17] = [
    b"As?h@###########",
    b"AsAh@############,KsKh?",
    b"AR-RR??",
    b"AA-QQ@##?",
    b"KK-R?@?#",
    b"RsRs@###",
    b"QRs+@###?",
    b"22,AR?",
    b"AR?,AK",
    b"TRo-TRo,?",
    b"ASR?,?",
    b"KK+@?#,?",
    b"rando?",
    b"RRSs-",
    b"RSRS",
    b"RSR?@##",
    b"AKo-AQo@##?",
];
#[no_mangle]
pub extern "C" fn c05_template() {
    let t = TEMPLATES[sx::param(0) as usize];
    let mut v: Vec<u8> = Vec::with_capacity(24);
    let mut r = 0;
    for &c in t {
        v.push(match c {
            b'?' => sx::range(0, 127) as u8,
            b'#' => sx::range(b'0' as u64, b'9' as u64) as u8,
            b'R' => {
                let k = sx::conc(sx::range(0, 12));
                if r < 2 {
                    sx::shard(k);
                }
                r += 1;
                RANKS[k as usize]
            }
            b'S' => b"shcd"[sx::conc(sx::range(0, 3)) as usize],
            c => c,
        });
    }
    let r = HandRange::from_string(unsafe { String::from_utf8_unchecked(v) });
    well_formed(&r);
    sx::observe(r.hands.len() as u64);
    sx::reach(100);
}
/// a character of two UTF-8 bytes (U+0080..U+07FF) after each kind of unfinished item (param 0), then anything
#[no_mangle]
pub extern "C" fn c05_wide() {
    const PRE: [&[u8]; 14] = [b"", b"K", b"Q9", b"As", b"AsK", b"AsKs", b"99+", b"87s", b"44-", b"44-2", b"44-22", b"AKo@", b"AKo@1", b"AK,"];
    let mut v: Vec<u8> = Vec::with_capacity(24);
    v.extend_from_slice(PRE[sx::param(0) as usize]);
    let cp = sx::range(0x80, 0x7ff);
    v.push(0xc0 | (cp >> 6) as u8);
    v.push(0x80 | (cp & 63) as u8);
    v.push(sx::range(0, 127) as u8);
    let r = HandRange::from_string(unsafe { String::from_utf8_unchecked(v) });
    well_formed(&r);
    sx::observe(r.hands.len() as u64);
    sx::reach(100);
}
/// params: characters in front, characters behind, letter that is replaced (6: none, 7: the case of every letter is
/// free): a text close to the word for all hands that is not it, and does not begin with an item, gives no range
#[no_mangle]
pub extern "C" fn c05_word() {
    let (a, b, at) = (sx::param(0), sx::param(1), sx::param(2));
    let mut v: Vec<u8> = Vec::with_capacity(16);
    let mut same = a == 0 && b == 0;
    for _ in 0..a {
        v.push(sx::range(0, 127) as u8);
    }
    for (k, c) in b"random".iter().enumerate() {
        let x = if k as u64 == at {
            sx::range(0, 127) as u8
        } else if at == 7 {
            c - 32 * sx::range(0, 1) as u8
        } else {
            *c
        };
        same &= x == *c;
        v.push(x);
    }
    for _ in 0..b {
        v.push(sx::range(0, 127) as u8);
    }
    sx::assume(!same);
    let first = v[0];
    for x in RANKS {
        sx::assume(first != *x && (!x.is_ascii_lowercase() || first != x - 32));
    }
    let r = HandRange::from_string(unsafe { String::from_utf8_unchecked(v) });
    sx::check(r.hands.is_empty(), 6);
    sx::reach(100);
}
