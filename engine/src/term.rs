//! Hash-consed bit-vector terms with constant folding, value intervals and known-zero bits.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum O {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt, Sel, Ctpop, Ctlz, Cttz,
    FAdd, FSub, FMul, FDiv, FCmp, UToF, SToF, FToU, FToS, FSqrt, FAbs, FNeg,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: O,
    pub w: u8,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128, // const value | var id | extract low bit | rom id | fcmp predicate
}
#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub key: Key,
    pub lo: u128,
    pub hi: u128,
    pub kz: u128, // known-zero bits (within width)
    pub nonlinear_fp: bool,
    pub vs: u32, // variable-set id
}

pub struct Rom {
    pub w: u8,
    pub vals: Vec<u128>,
    pub name: String,
}

pub struct VarInfo {
    pub w: u8,
    pub lo: u128,
    pub hi: u128,
    pub tag: u32, // 0 = harness input, otherwise symbolic-table cell
}

pub struct Arena {
    /// some of the identities decided by normal form, for the solvers to confirm
    pub poly_log: Vec<(T, T)>,
    pub poly_true: u64,
    pub nodes: Vec<Node>,
    map: FxMap<Key, T>,
    pub vars: Vec<VarInfo>,
    varmap: FxMap<(u32, u8, u128, u128, u32), u32>,
    pub roms: Vec<Rc<Rom>>,
    rommap: HashMap<(u8, Vec<u128>), u32>,
    // variable sets
    pub vsets: Vec<Rc<Vec<u32>>>,
    vsmap: HashMap<Vec<u32>, u32>,
    vsunion: FxMap<(u32, u32), u32>,
    // evaluation memo
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}
fn ones_below(v: u128) -> u128 {
    // smallest 2^k-1 >= v
    if v == 0 {
        0
    } else {
        let lz = v.leading_zeros();
        u128::MAX >> lz
    }
}

pub const NIL: T = u32::MAX;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            poly_log: vec![],
            poly_true: 0,
            nodes: Vec::new(),
            map: Default::default(),
            vars: Vec::new(),
            varmap: Default::default(),
            roms: Vec::new(),
            rommap: HashMap::new(),
            vsets: vec![Rc::new(vec![])],
            vsmap: HashMap::new(),
            vsunion: Default::default(),
            ev_stamp: Vec::new(),
            ev_val: Vec::new(),
            stamp: 0,
        };
        a.vsmap.insert(vec![], 0);
        a
    }
    #[inline]
    /// short text of a term, for traces
    pub fn show(&self, t: T, depth: u32) -> String {
        if t == NIL {
            return String::new();
        }
        let k = self.n(t).key;
        match k.op {
            O::Const => format!("{:#x}", k.k),
            O::Var => format!("v{}:{}", k.k, k.w),
            _ if depth == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}:{}", k.op, k.w);
                if k.k != 0 {
                    s.push_str(&format!("[{}]", k.k));
                }
                for c in [k.a, k.b, k.c] {
                    if c != NIL {
                        s.push(' ');
                        s.push_str(&self.show(c, depth - 1));
                    }
                }
                s.push(')');
                s
            }
        }
    }
    pub fn n(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].key.w
    }
    pub fn konst(&mut self, v: u128, w: u8) -> T {
        self.mk(O::Const, w, NIL, NIL, NIL, v & mask(w))
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = self.n(t);
        if n.key.op == O::Const {
            Some(n.key.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, ordinal: u32, w: u8, lo: u128, hi: u128, tag: u32) -> T {
        let id = match self.varmap.get(&(ordinal, w, lo, hi, tag)) {
            Some(&i) => i,
            None => {
                let i = self.vars.len() as u32;
                self.vars.push(VarInfo { w, lo, hi, tag });
                self.varmap.insert((ordinal, w, lo, hi, tag), i);
                i
            }
        };
        self.mk(O::Var, w, NIL, NIL, NIL, id as u128)
    }
    fn vs_of(&mut self, v: Vec<u32>) -> u32 {
        if let Some(&i) = self.vsmap.get(&v) {
            return i;
        }
        let i = self.vsets.len() as u32;
        self.vsets.push(Rc::new(v.clone()));
        self.vsmap.insert(v, i);
        i
    }
    pub fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vsunion.get(&k) {
            return r;
        }
        let x = self.vsets[a as usize].clone();
        let y = self.vsets[b as usize].clone();
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                out.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                out.push(y[j]);
                j += 1;
            } else {
                out.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.vs_of(out);
        self.vsunion.insert(k, r);
        r
    }
    pub fn vars_of(&self, t: T) -> Rc<Vec<u32>> {
        self.vsets[self.n(t).vs as usize].clone()
    }
    pub fn rom(&mut self, w: u8, vals: Vec<u128>, name: &str) -> u32 {
        if let Some(&i) = self.rommap.get(&(w, vals.clone())) {
            return i;
        }
        let i = self.roms.len() as u32;
        self.rommap.insert((w, vals.clone()), i);
        self.roms.push(Rc::new(Rom { w, vals, name: name.to_string() }));
        i
    }

    pub fn mk(&mut self, op: O, w: u8, a: T, b: T, c: T, k: u128) -> T {
        let key = Key { op, w, a, b, c, k };
        if let Some(&t) = self.map.get(&key) {
            return t;
        }
        let m = mask(w);
        let (mut lo, mut hi, mut kz) = (0u128, m, 0u128);
        let g = |x: T| -> Node { self.nodes[x as usize] };
        let mut fp = false;
        match op {
            O::Const => {
                lo = k;
                hi = k;
                kz = !k & m;
            }
            O::Var => {
                let v = &self.vars[k as usize];
                lo = v.lo;
                hi = v.hi;
            }
            O::Add => {
                let (x, y) = (g(a), g(b));
                if let Some(h) = x.hi.checked_add(y.hi) {
                    if h <= m {
                        hi = h;
                        lo = x.lo + y.lo;
                    } else if let Some(l) = x.lo.checked_add(y.lo) {
                        if l > m && h - l <= m && (h >> w as u32) == (l >> w as u32) {
                            lo = l & m;
                            hi = h & m;
                        }
                    }
                }
                // common trailing zeros
                let tz = (!x.kz).trailing_zeros().min((!y.kz).trailing_zeros()).min(w as u32);
                kz |= if tz >= 128 { m } else { (1u128 << tz) - 1 };
            }
            O::Sub => {
                let (x, y) = (g(a), g(b));
                if x.lo >= y.hi {
                    lo = x.lo - y.hi;
                    hi = x.hi - y.lo;
                }
                let tz = (!x.kz).trailing_zeros().min((!y.kz).trailing_zeros()).min(w as u32);
                kz |= if tz >= 128 { m } else { (1u128 << tz) - 1 };
            }
            O::Mul => {
                let (x, y) = (g(a), g(b));
                if let Some(h) = x.hi.checked_mul(y.hi) {
                    if h <= m {
                        hi = h;
                        lo = x.lo * y.lo;
                    }
                }
                let tz = ((!x.kz).trailing_zeros() + (!y.kz).trailing_zeros()).min(w as u32);
                kz |= if tz >= 128 { m } else { (1u128 << tz) - 1 };
            }
            O::UDiv => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0 {
                    hi = x.hi / y.lo;
                    lo = x.lo / y.hi;
                }
            }
            O::URem => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0 {
                    hi = (y.hi - 1).min(x.hi);
                }
            }
            O::Shl => {
                let (x, y) = (g(a), g(b));
                if y.lo == y.hi && y.lo < w as u128 {
                    let s = y.lo as u32;
                    if x.hi.leading_zeros() >= 128 - w as u32 + s {
                        hi = x.hi << s;
                        lo = x.lo << s;
                    }
                    kz = ((x.kz << s) | ((1u128 << s) - 1)) & m;
                } else if y.hi < w as u128 {
                    // union over shifts
                    let mut z = m;
                    for s in y.lo..=y.hi {
                        if s & y.kz != 0 {
                            continue;
                        }
                        z &= ((x.kz << s) | ((1u128 << s) - 1)) & m;
                    }
                    kz = z;
                    let s = y.hi as u32;
                    if x.hi.leading_zeros() >= 128 - w as u32 + s {
                        hi = x.hi << s;
                        lo = x.lo << (y.lo as u32);
                    }
                }
            }
            O::LShr => {
                let (x, y) = (g(a), g(b));
                if y.lo == y.hi {
                    if y.lo < w as u128 {
                        let s = y.lo as u32;
                        lo = x.lo >> s;
                        hi = x.hi >> s;
                        kz = ((x.kz >> s) | !(m >> s)) & m;
                    }
                } else {
                    hi = if y.lo >= 128 { 0 } else { x.hi >> (y.lo as u32) };
                    lo = if y.hi >= w as u128 { 0 } else { x.lo >> (y.hi as u32) };
                    if y.hi < w as u128 {
                        let mut z = m;
                        for s in y.lo..=y.hi {
                            if s & y.kz != 0 {
                                continue;
                            }
                            z &= ((x.kz >> s) | !(m >> s)) & m;
                        }
                        kz = z;
                    }
                }
            }
            O::And => {
                let (x, y) = (g(a), g(b));
                kz = x.kz | y.kz;
                hi = x.hi.min(y.hi);
            }
            O::Or => {
                let (x, y) = (g(a), g(b));
                kz = x.kz & y.kz;
                lo = x.lo.max(y.lo);
                hi = ones_below(x.hi | y.hi);
            }
            O::Xor => {
                let (x, y) = (g(a), g(b));
                kz = x.kz & y.kz;
                hi = ones_below(x.hi | y.hi);
            }
            O::Ite => {
                let (x, y) = (g(b), g(c));
                lo = x.lo.min(y.lo);
                hi = x.hi.max(y.hi);
                kz = x.kz & y.kz;
            }
            O::Concat => {
                let (x, y) = (g(a), g(b));
                let wy = y.key.w as u32;
                lo = (x.lo << wy) | y.lo;
                hi = (x.hi << wy) | y.hi;
                kz = (x.kz << wy) | y.kz;
            }
            O::Extract => {
                let x = g(a);
                kz = (x.kz >> k as u32) & m;
                if x.hi >> (k as u32) <= m {
                    hi = x.hi >> (k as u32);
                    lo = x.lo >> (k as u32);
                }
            }
            O::ZExt => {
                let x = g(a);
                lo = x.lo;
                hi = x.hi;
                kz = (x.kz | !mask(x.key.w)) & m;
            }
            O::SExt => {
                let x = g(a);
                if x.hi < 1u128 << (x.key.w - 1) {
                    lo = x.lo;
                    hi = x.hi;
                    kz = (x.kz | !mask(x.key.w)) & m;
                }
            }
            O::Sel => {
                let x = g(a);
                let r = self.roms[k as usize].clone();
                let l = x.lo.min(r.vals.len() as u128 - 1) as usize;
                let h = x.hi.min(r.vals.len() as u128 - 1) as usize;
                let mut mn = u128::MAX;
                let mut mx = 0;
                let mut z = m;
                for (i, v) in r.vals[l..=h].iter().enumerate() {
                    if ((i + l) as u128) & x.kz != 0 {
                        continue;
                    }
                    mn = mn.min(*v);
                    mx = mx.max(*v);
                    z &= !*v;
                }
                if mn <= mx {
                    lo = mn;
                    hi = mx;
                    kz = z & m;
                }
            }
            O::Ctpop => {
                let x = g(a);
                hi = (!x.kz & mask(x.key.w)).count_ones() as u128;
                lo = if x.lo > 0 { 1 } else { 0 };
            }
            O::Ctlz => {
                let x = g(a);
                let wx = x.key.w as u32;
                // possible values: positions not known zero, and w if x may be 0
                let mut z = m;
                let mut mn = u128::MAX;
                let mut mx = 0u128;
                let mut add = |v: u128| {
                    z &= !v;
                    mn = mn.min(v);
                    mx = mx.max(v);
                };
                for bit in 0..wx {
                    if x.kz >> bit & 1 == 0 && x.hi >> bit != 0 {
                        let v = (wx - 1 - bit) as u128;
                        // x.lo restricts: leading bit >= that of lo
                        if x.lo >> bit > 1 {
                            continue;
                        }
                        add(v);
                    }
                }
                if x.lo == 0 {
                    add(wx as u128);
                }
                if mn <= mx {
                    lo = mn;
                    hi = mx;
                    kz = z & m;
                }
            }
            O::Cttz => {
                let x = g(a);
                let wx = x.key.w as u32;
                let mut z = m;
                let mut mn = u128::MAX;
                let mut mx = 0u128;
                for bit in 0..wx {
                    if x.kz >> bit & 1 == 0 && x.hi >> bit != 0 {
                        z &= !(bit as u128);
                        mn = mn.min(bit as u128);
                        mx = mx.max(bit as u128);
                    }
                }
                if x.lo == 0 {
                    z &= !(wx as u128);
                    mn = mn.min(wx as u128);
                    mx = mx.max(wx as u128);
                }
                if mn <= mx {
                    lo = mn;
                    hi = mx;
                    kz = z & m;
                }
            }
            O::FAdd | O::FSub | O::FMul | O::FDiv | O::FCmp | O::UToF | O::SToF | O::FToU | O::FToS | O::FSqrt | O::FAbs | O::FNeg => {
                fp = true;
                // the bit patterns of non-negative finite doubles are ordered like their values
                let x = g(a);
                let y = if b == NIL { x } else { g(b) };
                let (wa, wb) = (x.key.w, y.key.w);
                let fin = |n: &Node| n.key.w == 64 && n.hi < FINF;
                let v = |o: O, p: u128, q: u128| foldf(o, p, q, 0, wa, w);
                let r = match op {
                    O::UToF if w == 64 => Some((v(op, x.lo, 0), v(op, x.hi, 0))),
                    O::SToF if w == 64 && x.hi <= mask(wa) >> 1 => Some((v(op, x.lo, 0), v(op, x.hi, 0))),
                    O::FAdd | O::FMul if fin(&x) && fin(&y) => Some((v(op, x.lo, y.lo), v(op, x.hi, y.hi))),
                    O::FSub if fin(&x) && fin(&y) && x.lo >= y.hi => Some((v(op, x.lo, y.hi), v(op, x.hi, y.lo))),
                    O::FDiv if fin(&x) && fin(&y) && y.lo > 0 => Some((v(op, x.lo, y.hi), v(op, x.hi, y.lo))),
                    O::FSqrt if fin(&x) => Some((v(op, x.lo, 0), v(op, x.hi, 0))),
                    O::FAbs if fin(&x) => Some((x.lo, x.hi)),
                    O::FToU if fin(&x) => Some((v(op, x.lo, 0), v(op, x.hi, 0))),
                    O::FCmp if fin(&x) && fin(&y) && wb == 64 => {
                        let mut p = 0;
                        if x.lo <= y.hi && y.lo <= x.hi {
                            p |= 1;
                        }
                        if x.hi > y.lo {
                            p |= 2;
                        }
                        if x.lo < y.hi {
                            p |= 4;
                        }
                        if p & k == 0 {
                            Some((0, 0))
                        } else if p & !k == 0 {
                            Some((1, 1))
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some((l, h)) = r {
                    lo = l;
                    hi = h;
                }
            }
            _ => {}
        }
        // refine
        hi = hi.min(m & !kz);
        kz |= m & !ones_below(hi);
        if lo > hi {
            lo = hi;
        } // contradictory (unreachable path); keep something valid
        let mut vs = 0;
        if op == O::Var {
            vs = self.vs_of(vec![k as u32]);
        } else {
            for x in [a, b, c] {
                if x != NIL {
                    let v = self.nodes[x as usize].vs;
                    vs = self.vs_union(vs, v);
                    fp |= self.nodes[x as usize].nonlinear_fp;
                }
            }
        }
        let t = self.nodes.len() as T;
        self.nodes.push(Node { key, lo, hi, kz, nonlinear_fp: fp, vs });
        self.map.insert(key, t);
        if op != O::Const && lo == hi {
            let c = self.konst(lo, w);
            self.map.insert(key, c);
            return c;
        }
        t
    }

    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.konst(0, 1)
    }
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a).key;
        if n.op == O::Const {
            return self.konst(n.k ^ 1, 1);
        }
        if n.op == O::Xor && n.w == 1 && self.as_const(n.b) == Some(1) {
            return n.a;
        }
        let o = self.konst(1, 1);
        self.mk(O::Xor, 1, a, o, NIL, 0)
    }
    pub fn is_not(&self, a: T) -> Option<T> {
        let n = self.n(a).key;
        if n.w == 1 && n.op == O::Xor && self.as_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }

    pub fn bin(&mut self, op: O, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = fold(op, x, y, w);
            return self.konst(r, if matches!(op, O::Eq | O::Ult | O::Slt) { 1 } else { w });
        }
        // commutative: constant right, otherwise ordered
        let (mut a, mut b) = (a, b);
        if matches!(op, O::Add | O::Mul | O::And | O::Or | O::Xor | O::Eq) {
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        let na = self.n(a).key;
        let nb = self.n(b).key;
        match op {
            O::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(O::Xor, a, b);
                }
                if let Some(y) = cb {
                    if na.op == O::Add {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.konst(x.wrapping_add(y) & m, w);
                            return self.bin(O::Add, na.a, k);
                        }
                    }
                }
                // (x - y) + y
                if na.op == O::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == O::Sub && nb.b == a {
                    return nb.a;
                }
            }
            O::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(y) = cb {
                    let k = self.konst(y.wrapping_neg() & m, w);
                    return self.bin(O::Add, a, k);
                }
                if na.op == O::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            O::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(O::Shl, a, k);
                    }
                }
            }
            O::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(O::LShr, a, k);
                    }
                }
            }
            O::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(y - 1, w);
                        return self.bin(O::And, a, k);
                    }
                    if self.n(a).hi < y {
                        return a;
                    }
                }
            }
            O::Shl | O::LShr | O::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        if op != O::AShr {
                            return self.konst(0, w);
                        }
                    } else if op == O::LShr {
                        if na.op == O::LShr {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.konst((x + y).min(w as u128), w);
                                return self.bin(O::LShr, na.a, k);
                            }
                        }
                        if na.op == O::Shl && self.as_const(na.b) == Some(y) {
                            // (x << y) >> y
                            if self.n(na.a).hi.leading_zeros() as u128 >= 128 - w as u128 + y {
                                return na.a;
                            }
                            let k = self.konst(m >> (y as u32), w);
                            return self.bin(O::And, na.a, k);
                        }
                        if na.op == O::ZExt {
                            let wi = self.w(na.a);
                            if y >= wi as u128 {
                                return self.konst(0, w);
                            }
                            let k = self.konst(y, wi);
                            let s = self.bin(O::LShr, na.a, k);
                            return self.zext(s, w);
                        }
                        if na.op == O::Concat {
                            let wl = self.w(na.b) as u128;
                            if y == wl {
                                return self.zext(na.a, w);
                            }
                        }
                    } else if op == O::Shl {
                        if na.op == O::Shl {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.konst((x + y).min(w as u128), w);
                                return self.bin(O::Shl, na.a, k);
                            }
                        }
                        if na.op == O::LShr && self.as_const(na.b) == Some(y) {
                            let k = self.konst((m << (y as u32)) & m, w);
                            return self.bin(O::And, na.a, k);
                        }
                        if na.op == O::ZExt {
                            // keep the shift narrow when nothing is lost
                            let inner = self.n(na.a);
                            let wi = inner.key.w;
                            if (inner.hi.leading_zeros() as u128) >= 128 - wi as u128 + y && y < wi as u128 {
                                let k = self.konst(y, wi);
                                let s = self.bin(O::Shl, na.a, k);
                                return self.zext(s, w);
                            }
                        }
                    } else if op == O::AShr {
                        if self.n(a).hi < 1u128 << (w - 1) {
                            return self.bin(O::LShr, a, b);
                        }
                    }
                }
                if op == O::AShr && cb.is_none() && self.n(a).hi < 1u128 << (w - 1) {
                    return self.bin(O::LShr, a, b);
                }
            }
            O::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    // bits that can be one
                    let can = !self.n(a).kz & m;
                    if can & !y == 0 {
                        return a;
                    }
                    // sums whose low bits are the same whatever the variables
                    if matches!(na.op, O::Add | O::LShr) {
                        let top = 128 - y.leading_zeros();
                        let l = if na.op == O::Add {
                            self.low_const(a, top, 0)
                        } else if let Some(s) = self.as_const(na.b) {
                            if s + (top as u128) <= w as u128 {
                                self.low_const(na.a, top + s as u32, 0).map(|v| v >> s)
                            } else {
                                None
                            }
                        } else {
                            None
                        };
                        if let Some(v) = l {
                            return self.konst(v & y, w);
                        }
                    }
                    if can & y == 0 {
                        return self.konst(0, w);
                    }
                    if na.op == O::And {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.konst(x & y, w);
                            return self.bin(O::And, na.a, k);
                        }
                    }
                    if na.op == O::ZExt {
                        let wi = self.w(na.a);
                        let k = self.konst(y & mask(wi), wi);
                        let s = self.bin(O::And, na.a, k);
                        return self.zext(s, w);
                    }
                    if na.op == O::Or {
                        // distribute over an or with a constant
                        if let Some(x) = self.as_const(na.b) {
                            let l = self.bin(O::And, na.a, b);
                            let r = self.konst(x & y, w);
                            return self.bin(O::Or, l, r);
                        }
                    }
                }
                let (ka, kb) = (self.n(a).kz, self.n(b).kz);
                if (!ka & m) & (!kb & m) == 0 {
                    return self.konst(0, w);
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(0, 1);
                    }
                }
            }
            O::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                    if na.op == O::Or {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.konst(x | y, w);
                            return self.bin(O::Or, na.a, k);
                        }
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                        return self.konst(1, 1);
                    }
                }
            }
            O::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == O::Xor {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.konst(x ^ y, w);
                            return self.bin(O::Xor, na.a, k);
                        }
                    }
                }
            }
            O::Eq => {
                if a == b {
                    return self.tru();
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                    let x = self.bin(O::Xor, a, b);
                    return self.not(x);
                }
                let (x, y) = (*self.n(a), *self.n(b));
                if x.hi < y.lo || y.hi < x.lo {
                    return self.fls();
                }
                if let Some(k) = cb {
                    if k & x.kz != 0 {
                        return self.fls();
                    }
                    match na.op {
                        O::ZExt => {
                            let wi = self.w(na.a);
                            let kk = self.konst(k, wi);
                            return self.bin(O::Eq, na.a, kk);
                        }
                        O::SExt => {
                            let wi = self.w(na.a);
                            if sx(k & mask(wi), wi) as u128 & m == k {
                                let kk = self.konst(k & mask(wi), wi);
                                return self.bin(O::Eq, na.a, kk);
                            }
                            return self.fls();
                        }
                        O::Add => {
                            if let Some(c) = self.as_const(na.b) {
                                let kk = self.konst(k.wrapping_sub(c) & m, w);
                                return self.bin(O::Eq, na.a, kk);
                            }
                        }
                        O::Xor => {
                            if let Some(c) = self.as_const(na.b) {
                                let kk = self.konst(k ^ c, w);
                                return self.bin(O::Eq, na.a, kk);
                            }
                        }
                        O::Sub if k == 0 => {
                            return self.bin(O::Eq, na.a, na.b);
                        }
                        O::Ite => {
                            let (t1, t2) = (self.as_const(na.b), self.as_const(na.c));
                            if let (Some(c1), Some(c2)) = (t1, t2) {
                                return if c1 == k && c2 == k {
                                    self.tru()
                                } else if c1 == k {
                                    na.a
                                } else if c2 == k {
                                    self.not(na.a)
                                } else {
                                    self.fls()
                                };
                            }
                            if let Some(c1) = t1 {
                                if c1 != k {
                                    let nc = self.not(na.a);
                                    let e = self.bin(O::Eq, na.c, b);
                                    return self.bin(O::And, nc, e);
                                }
                                let e = self.bin(O::Eq, na.c, b);
                                return self.bin(O::Or, na.a, e);
                            }
                            if let Some(c2) = t2 {
                                if c2 != k {
                                    let e = self.bin(O::Eq, na.b, b);
                                    return self.bin(O::And, na.a, e);
                                }
                                let nc = self.not(na.a);
                                let e = self.bin(O::Eq, na.b, b);
                                return self.bin(O::Or, nc, e);
                            }
                        }
                        O::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kl = self.konst(k & mask(wl), wl);
                            let kh = self.konst(k >> wl, wh);
                            let e1 = self.bin(O::Eq, na.b, kl);
                            let e2 = self.bin(O::Eq, na.a, kh);
                            return self.bin(O::And, e1, e2);
                        }
                        O::Sel => {
                            // select from a rom equals constant: unique index?
                            let r = self.roms[na.k as usize].clone();
                            let x = *self.n(na.a);
                            let mut found = None;
                            let mut cnt = 0;
                            let l = x.lo.min(r.vals.len() as u128 - 1) as usize;
                            let h = x.hi.min(r.vals.len() as u128 - 1) as usize;
                            if x.hi < r.vals.len() as u128 {
                                for i in l..=h {
                                    if r.vals[i] == k && (i as u128) & x.kz == 0 {
                                        cnt += 1;
                                        found = Some(i);
                                        if cnt > 1 {
                                            break;
                                        }
                                    }
                                }
                                if cnt == 0 {
                                    return self.fls();
                                }
                                if cnt == 1 {
                                    let kk = self.konst(found.unwrap() as u128, self.w(na.a));
                                    return self.bin(O::Eq, na.a, kk);
                                }
                            }
                        }
                        O::Shl => {
                            if let Some(s) = self.as_const(na.b) {
                                let inner = *self.n(na.a);
                                if s < w as u128 && inner.hi.leading_zeros() as u128 >= 128 - w as u128 + s {
                                    let kk = self.konst(k >> s, w);
                                    return self.bin(O::Eq, na.a, kk);
                                }
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(O::Eq, na.a, nb.a);
                    }
                    if w > 1 {
                        if let Some(r) = self.poly_eq(a, b) {
                            return if r { self.tru() } else { self.fls() };
                        }
                    }
                }
            }
            O::Ult => {
                if a == b {
                    return self.fls();
                }
                let (x, y) = (*self.n(a), *self.n(b));
                if x.hi < y.lo {
                    return self.tru();
                }
                if x.lo >= y.hi {
                    return self.fls();
                }
                // a sum that cannot wrap is not below its parts
                if na.op == O::Add && (na.a == b || na.b == b) && self.n(na.a).hi.checked_add(self.n(na.b).hi).map_or(false, |s| s <= m) {
                    return self.fls();
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(O::And, n, b);
                }
                if let Some(k) = cb {
                    if k == x.lo + 1 && x.lo != x.hi {
                        let kk = self.konst(x.lo, w);
                        return self.bin(O::Eq, a, kk);
                    }
                    if k == x.hi && k > 0 {
                        let e = self.bin(O::Eq, a, b);
                        return self.not(e);
                    }
                    if na.op == O::ZExt {
                        let wi = self.w(na.a);
                        if k <= mask(wi) {
                            let kk = self.konst(k, wi);
                            return self.bin(O::Ult, na.a, kk);
                        }
                        return self.tru();
                    }
                    if na.op == O::Ite {
                        if let (Some(c1), Some(c2)) = (self.as_const(na.b), self.as_const(na.c)) {
                            return match (c1 < k, c2 < k) {
                                (true, true) => self.tru(),
                                (false, false) => self.fls(),
                                (true, false) => na.a,
                                (false, true) => self.not(na.a),
                            };
                        }
                    }
                    if na.op == O::LShr {
                        if let Some(s) = self.as_const(na.b) {
                            // x >> s < k  <=>  x < k << s
                            if s < w as u128 && k.leading_zeros() as u128 >= 128 - w as u128 + s {
                                let kk = self.konst(k << s, w);
                                return self.bin(O::Ult, na.a, kk);
                            }
                        }
                    }
                }
                if let Some(k) = ca {
                    if k + 1 == y.hi {
                        let kk = self.konst(y.hi, w);
                        return self.bin(O::Eq, b, kk);
                    }
                    if k == y.lo {
                        let e = self.bin(O::Eq, b, a);
                        return self.not(e);
                    }
                    if nb.op == O::ZExt {
                        let wi = self.w(nb.a);
                        if k < mask(wi) {
                            let kk = self.konst(k, wi);
                            return self.bin(O::Ult, kk, nb.a);
                        }
                        return self.fls();
                    }
                }
                if na.op == O::ZExt && nb.op == O::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(O::Ult, na.a, nb.a);
                }
                if (w == 64 || w == 32 || w == 128 && self.n(a).hi >> 100 == 0 && self.n(b).hi >> 100 == 0) && na.op == O::Add && nb.op == O::Add {
                    if let Some(r) = self.poly_lt(a, b) {
                        return if r { self.tru() } else { self.fls() };
                    }
                }
            }
            O::Slt => {
                if a == b {
                    return self.fls();
                }
                let h = 1u128 << (w - 1);
                let (x, y) = (*self.n(a), *self.n(b));
                if x.hi < h && y.hi < h {
                    return self.bin(O::Ult, a, b);
                }
                if x.lo >= h && y.lo >= h {
                    return self.bin(O::Ult, a, b);
                }
                if x.lo >= h && y.hi < h {
                    return self.tru();
                }
                if x.hi < h && y.lo >= h {
                    return self.fls();
                }
                // x < 0  : sign bit
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
            }
            _ => {}
        }
        // push unary-ish ops through ITE with constant arms when the other side is constant
        if let (O::Ite, Some(_)) = (na.op, cb) {
            if !matches!(op, O::Eq) && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                let l = self.bin(op, na.b, b);
                let r = self.bin(op, na.c, b);
                return self.ite(na.a, l, r);
            }
        }
        // rom composition with a constant operand
        if let (O::Sel, Some(k)) = (na.op, cb) {
            if let Some(t) = self.rom_map(na, w, op, k, false) {
                return t;
            }
        }
        if let (Some(k), O::Sel) = (ca, nb.op) {
            if let Some(t) = self.rom_map(nb, w, op, k, true) {
                return t;
            }
        }
        // two selects over the same index
        if na.op == O::Sel && nb.op == O::Sel && na.a == nb.a {
            let (r1, r2) = (self.roms[na.k as usize].clone(), self.roms[nb.k as usize].clone());
            if r1.vals.len() == r2.vals.len() && r1.vals.len() <= 256 {
                let rw = if matches!(op, O::Eq | O::Ult | O::Slt) { 1 } else { w };
                let vals: Vec<u128> = r1.vals.iter().zip(r2.vals.iter()).map(|(&x, &y)| fold(op, x, y, w)).collect();
                return self.sel_rom(na.a, rw, vals);
            }
        }
        let rw = if matches!(op, O::Eq | O::Ult | O::Slt) { 1 } else { w };
        self.mk(op, rw, a, b, NIL, 0)
    }
    fn rom_map(&mut self, s: Key, w: u8, op: O, k: u128, rev: bool) -> Option<T> {
        let r = self.roms[s.k as usize].clone();
        if r.vals.len() > 256 {
            return None;
        }
        let rw = if matches!(op, O::Eq | O::Ult | O::Slt) { 1 } else { w };
        let vals: Vec<u128> = r.vals.iter().map(|&v| if rev { fold(op, k, v, w) } else { fold(op, v, k, w) }).collect();
        Some(self.sel_rom(s.a, rw, vals))
    }
    fn sel_rom(&mut self, idx: T, w: u8, vals: Vec<u128>) -> T {
        let id = self.rom(w, vals, "");
        self.sel(id, idx)
    }
    /// the low bits of a term when they do not depend on the variables
    fn low_const(&self, t: T, bits: u32, depth: u32) -> Option<u128> {
        let n = self.n(t);
        let k = n.key;
        let lm = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match k.op {
            O::Const => Some(k.k & lm),
            O::Add if depth < 16 => {
                let x = self.low_const(k.b, bits, depth + 1)?;
                Some(x.wrapping_add(self.low_const(k.a, bits, depth + 1)?) & lm)
            }
            O::Ite if depth < 16 => {
                let x = self.low_const(k.b, bits, depth + 1)?;
                if self.low_const(k.c, bits, depth + 1)? == x {
                    Some(x)
                } else {
                    None
                }
            }
            O::Sel => {
                let r = &self.roms[k.k as usize];
                if r.vals.len() > 64 {
                    return None;
                }
                let x = r.vals[0] & lm;
                if r.vals.iter().all(|v| v & lm == x) {
                    Some(x)
                } else {
                    None
                }
            }
            _ if n.kz & lm == lm => Some(0),
            _ => None,
        }
    }
    pub fn sel(&mut self, rom: u32, idx: T) -> T {
        let r = self.roms[rom as usize].clone();
        if let Some(i) = self.as_const(idx) {
            let i = (i as usize).min(r.vals.len() - 1);
            return self.konst(r.vals[i], r.w);
        }
        // constant over the reachable interval?
        let x = *self.n(idx);
        let l = x.lo.min(r.vals.len() as u128 - 1) as usize;
        let h = x.hi.min(r.vals.len() as u128 - 1) as usize;
        let mut first = None;
        let mut same = true;
        let mut ident = r.w == x.key.w;
        for i in l..=h {
            if (i as u128) & x.kz != 0 {
                continue;
            }
            ident &= r.vals[i] == i as u128;
            match first {
                None => first = Some(r.vals[i]),
                Some(v) => {
                    if v != r.vals[i] {
                        same = false;
                        if !ident {
                            break;
                        }
                    }
                }
            }
        }
        if same {
            return self.konst(first.unwrap_or(0), r.w);
        }
        if ident && x.hi < r.vals.len() as u128 {
            return idx;
        }
        // compose with an inner small rom
        let k = x.key;
        if k.op == O::Sel {
            let ir = self.roms[k.k as usize].clone();
            if ir.vals.len() <= 8192 {
                let vals: Vec<u128> = ir.vals.iter().map(|&v| r.vals[(v as usize).min(r.vals.len() - 1)]).collect();
                return self.sel_rom(k.a, r.w, vals);
            }
        }
        if k.op == O::ZExt {
            // drop the extension
            return self.sel(rom, k.a);
        }
        if k.op == O::Ite {
            if let (Some(c1), Some(c2)) = (self.as_const(k.b), self.as_const(k.c)) {
                let v1 = r.vals[(c1 as usize).min(r.vals.len() - 1)];
                let v2 = r.vals[(c2 as usize).min(r.vals.len() - 1)];
                let l = self.konst(v1, r.w);
                let rr = self.konst(v2, r.w);
                return self.ite(k.a, l, rr);
            }
        }
        if x.key.w == 1 {
            let l = self.konst(r.vals[0], r.w);
            let rr = self.konst(r.vals[1.min(r.vals.len() - 1)], r.w);
            return self.ite(idx, rr, l);
        }
        self.mk(O::Sel, r.w, idx, NIL, NIL, rom as u128)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(O::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(O::And, n, b);
                }
                (None, Some(0)) => return self.bin(O::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(O::Or, n, a);
                }
                _ => {}
            }
        }
        let nb = self.n(b).key;
        if nb.op == O::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let na = self.n(a).key;
        if na.op == O::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        self.mk(O::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: T, w: u8) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(k, w);
        }
        let n = self.n(a).key;
        if n.op == O::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == O::Ite {
            if let (Some(x), Some(y)) = (self.as_const(n.b), self.as_const(n.c)) {
                let x = self.konst(x, w);
                let y = self.konst(y, w);
                return self.ite(n.a, x, y);
            }
        }
        if n.op == O::Sel {
            let r = self.roms[n.k as usize].clone();
            if r.vals.len() <= 256 {
                return self.sel_rom(n.a, w, r.vals.clone());
            }
        }
        self.mk(O::ZExt, w, a, NIL, NIL, 0)
    }
    pub fn sext(&mut self, a: T, w: u8) -> T {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(sx(k, wa) as u128 & mask(w), w);
        }
        if self.n(a).hi < 1u128 << (wa - 1) {
            return self.zext(a, w);
        }
        let n = self.n(a).key;
        if n.op == O::Sel {
            let r = self.roms[n.k as usize].clone();
            if r.vals.len() <= 256 {
                let v = r.vals.iter().map(|&v| sx(v, wa) as u128 & mask(w)).collect();
                return self.sel_rom(n.a, w, v);
            }
        }
        if wa == 1 {
            let o = self.konst(mask(w), w);
            let z = self.konst(0, w);
            return self.ite(a, o, z);
        }
        self.mk(O::SExt, w, a, NIL, NIL, 0)
    }
    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst((k >> lo) & mask(w), w);
        }
        let nn = *self.n(a);
        let n = nn.key;
        if n.op == O::Add {
            if let Some(k) = self.low_const(a, lo as u32 + w as u32, 0) {
                return self.konst((k >> lo) & mask(w), w);
            }
            if lo > 0 {
                // no carry out of the low bits: the parts can be added separately
                let lm = mask(lo);
                if self.n(n.a).kz & lm == lm || self.n(n.b).kz & lm == lm {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(O::Add, x, y);
                }
            }
        }
        match n.op {
            O::Extract => return self.extract(n.a, lo + n.k as u8, w),
            O::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let p = self.extract(n.a, lo, wi - lo);
                return self.zext(p, w);
            }
            O::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
            }
            O::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            O::And | O::Or | O::Xor => {
                let l = self.extract(n.a, lo, w);
                let r = self.extract(n.b, lo, w);
                return self.bin(n.op, l, r);
            }
            O::Add | O::Sub | O::Mul if lo == 0 => {
                let l = self.extract(n.a, 0, w);
                let r = self.extract(n.b, 0, w);
                return self.bin(n.op, l, r);
            }
            O::Shl if lo == 0 => {
                if let Some(s) = self.as_const(n.b) {
                    let l = self.extract(n.a, 0, w);
                    if s >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = self.konst(s, w);
                    return self.bin(O::Shl, l, k);
                }
            }
            O::Shl => {
                if let Some(s) = self.as_const(n.b) {
                    if s >= lo as u128 + w as u128 {
                        return self.konst(0, w);
                    }
                    if s <= lo as u128 {
                        return self.extract(n.a, lo - s as u8, w);
                    }
                    let z = s as u8 - lo;
                    let x = self.extract(n.a, 0, w - z);
                    let zero = self.konst(0, z);
                    return self.concat(x, zero);
                }
            }
            O::LShr => {
                if let Some(s) = self.as_const(n.b) {
                    let nl = lo as u128 + s;
                    if nl + w as u128 <= wa as u128 {
                        return self.extract(n.a, nl as u8, w);
                    }
                }
            }
            O::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let l = self.extract(n.b, lo, w);
                    let r = self.extract(n.c, lo, w);
                    return self.ite(n.a, l, r);
                }
            }
            O::Sel => {
                let r = self.roms[n.k as usize].clone();
                if r.vals.len() <= 8192 {
                    let v = r.vals.iter().map(|&v| (v >> lo) & mask(w)).collect();
                    return self.sel_rom(n.a, w, v);
                }
            }
            _ => {}
        }
        if (nn.kz >> lo) & mask(w) == mask(w) {
            return self.konst(0, w);
        }
        self.mk(O::Extract, w, a, NIL, NIL, lo as u128)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst((x << wl) | y, w);
        }
        if self.as_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (h, l) = (self.n(hi).key, self.n(lo).key);
        if h.op == O::Extract && l.op == O::Extract && h.a == l.a && h.k == l.k + wl as u128 {
            return self.extract(h.a, l.k as u8, w);
        }
        if h.op == O::Extract && h.a == lo && h.k == wl as u128 {
            return self.extract(lo, 0, w);
        }
        self.mk(O::Concat, w, hi, lo, NIL, 0)
    }
    pub fn un(&mut self, op: O, a: T, w: u8) -> T {
        if let Some(k) = self.as_const(a) {
            let wa = self.w(a);
            return self.konst(fold1(op, k, wa), w);
        }
        let n = self.n(a).key;
        if n.op == O::Sel {
            let r = self.roms[n.k as usize].clone();
            if r.vals.len() <= 256 {
                let v = r.vals.iter().map(|&v| fold1(op, v, r.w) & mask(w)).collect();
                return self.sel_rom(n.a, w, v);
            }
        }
        if op == O::Ctpop && n.op == O::ZExt {
            let wi = self.w(n.a);
            let r = self.un(O::Ctpop, n.a, wi);
            return self.zext(r, w);
        }
        self.mk(op, w, a, NIL, NIL, 0)
    }
    pub fn fp(&mut self, op: O, w: u8, a: T, b: T, k: u128) -> T {
        let ca = self.as_const(a);
        let cb = if b == NIL { Some(0) } else { self.as_const(b) };
        if let (Some(x), Some(y)) = (ca, cb) {
            let wa = self.w(a);
            return self.konst(foldf(op, x, y, k, wa, w), w);
        }
        if op == O::FAdd && w == 64 {
            for (q, c) in [(b, ca), (a, cb)] {
                // -0 is neutral; +0 is for everything but -0
                if c == Some(1 << 63) || (c == Some(0) && self.n(q).hi < FINF) {
                    return q;
                }
            }
        }
        if matches!(op, O::FAdd | O::FMul) && w == 64 && a > b && self.n(a).hi < FINF && self.n(b).hi < FINF {
            return self.mk(op, w, b, a, NIL, k);
        }
        self.mk(op, w, a, b, NIL, k)
    }

    // ---------- evaluation ----------
    pub fn begin_eval(&mut self) {
        self.stamp += 1;
        if self.ev_stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2 + 1024;
            self.ev_stamp.resize(n, 0);
            self.ev_val.resize(n, 0);
        }
    }
    /// evaluate under env (var id -> value); call begin_eval first when the environment changes
    pub fn eval<F: Fn(u32) -> u128 + Copy>(&mut self, t: T, env: F) -> u128 {
        if self.ev_stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2 + 1024;
            self.ev_stamp.resize(n, 0);
            self.ev_val.resize(n, 0);
        }
        self.eval_rec(t, env)
    }
    fn eval_rec<F: Fn(u32) -> u128 + Copy>(&mut self, t: T, env: F) -> u128 {
        let ti = t as usize;
        if self.ev_stamp[ti] == self.stamp {
            return self.ev_val[ti];
        }
        let k = self.nodes[ti].key;
        let r = match k.op {
            O::Const => k.k,
            O::Var => env(k.k as u32),
            O::Ite => {
                if self.eval_rec(k.a, env) == 1 {
                    self.eval_rec(k.b, env)
                } else {
                    self.eval_rec(k.c, env)
                }
            }
            O::Concat => {
                let h = self.eval_rec(k.a, env);
                let l = self.eval_rec(k.b, env);
                (h << self.w(k.b)) | l
            }
            O::Extract => (self.eval_rec(k.a, env) >> k.k as u32) & mask(k.w),
            O::ZExt => self.eval_rec(k.a, env),
            O::SExt => {
                let wa = self.w(k.a);
                sx(self.eval_rec(k.a, env), wa) as u128 & mask(k.w)
            }
            O::Sel => {
                let i = self.eval_rec(k.a, env) as usize;
                let r = &self.roms[k.k as usize];
                r.vals[i.min(r.vals.len() - 1)]
            }
            O::Ctpop | O::Ctlz | O::Cttz => {
                let x = self.eval_rec(k.a, env);
                fold1(k.op, x, self.w(k.a))
            }
            O::FAdd | O::FSub | O::FMul | O::FDiv | O::FCmp | O::UToF | O::SToF | O::FToU | O::FToS | O::FSqrt | O::FAbs | O::FNeg => {
                let x = self.eval_rec(k.a, env);
                let y = if k.b == NIL { 0 } else { self.eval_rec(k.b, env) };
                foldf(k.op, x, y, k.k, self.w(k.a), k.w)
            }
            O::And if k.w == 1 => {
                if self.eval_rec(k.a, env) == 0 {
                    0
                } else {
                    self.eval_rec(k.b, env)
                }
            }
            _ => {
                let x = self.eval_rec(k.a, env);
                let y = self.eval_rec(k.b, env);
                fold(k.op, x, y, self.w(k.a))
            }
        };
        self.ev_stamp[ti] = self.stamp;
        self.ev_val[ti] = r;
        r
    }

    // ---------- polynomial normal form ----------
    /// Decide a == b by normalising a - b to a polynomial modulo 2^w over opaque atoms.
    /// Some(true): identical polynomials. Some(false): they differ by a non-zero constant. None: unknown.
    pub fn poly_eq(&mut self, a: T, b: T) -> Option<bool> {
        if self.n(a).nonlinear_fp || self.n(b).nonlinear_fp {
            return None;
        }
        let w = self.w(a);
        let (oa, ob) = (self.n(a).key.op, self.n(b).key.op);
        let arith = |o: O| matches!(o, O::Add | O::Sub | O::Mul | O::Shl | O::ZExt);
        if !arith(oa) && !arith(ob) {
            return None;
        }
        let mut budget = 3_000_000;
        let m = mask(w);
        let mut d: HashMap<Vec<T>, u128> = HashMap::new();
        self.poly(a, 1, w, &mut d, &mut budget)?;
        self.poly(b, m, w, &mut d, &mut budget)?;
        d.retain(|_, v| *v & m != 0);
        if d.is_empty() {
            self.poly_true += 1;
            let cost = 3_000_000 - budget;
            if cost > 12 && cost < 250 && self.poly_log.len() < 3 {
                self.poly_log.push((a, b));
            }
            return Some(true);
        }
        if d.len() == 1 && d.contains_key(&vec![]) {
            return Some(false);
        }
        None
    }
    /// a < b for sums that do not wrap, when all coefficients of the difference (over the integers) have one sign
    pub fn poly_lt(&mut self, a: T, b: T) -> Option<bool> {
        if self.n(a).nonlinear_fp || self.n(b).nonlinear_fp {
            return None;
        }
        // wider than the terms, so that only sums and products that cannot wrap are expanded
        let w = 120u8;
        let m = mask(w);
        let mut budget = 50_000;
        let mut d: HashMap<Vec<T>, u128> = HashMap::new();
        self.poly(a, 1, w, &mut d, &mut budget)?;
        self.poly(b, m, w, &mut d, &mut budget)?;
        d.retain(|_, v| *v & m != 0);
        let neg = |v: u128| v >> (w - 1) & 1 == 1;
        // the difference itself must not reach the modulus
        let mut most = 0u128;
        for (ts, v) in &d {
            let mut x = if neg(*v) { v.wrapping_neg() & m } else { *v };
            for t in ts {
                x = x.checked_mul(self.n(*t).hi)?;
            }
            most = most.checked_add(x)?;
        }
        if most >> (w - 1) != 0 {
            return None;
        }
        if d.values().all(|v| !neg(*v)) {
            return Some(false);
        }
        if d.values().all(|v| neg(*v)) && d.contains_key(&vec![]) {
            return Some(true);
        }
        None
    }
    /// adds coef * t to the polynomial d, modulo 2^w
    fn poly(&mut self, t: T, coef: u128, w: u8, d: &mut HashMap<Vec<T>, u128>, budget: &mut i32) -> Option<()> {
        let m = mask(w);
        // arithmetic inside a zero-extension is exact only if it cannot wrap
        let exact = |s: &Arena, n: &Key| -> bool {
            if n.w >= w || n.a == NIL {
                return true;
            }
            let lim = mask(n.w);
            let (x, y) = (s.n(n.a).hi, if n.b != NIL { s.n(n.b).hi } else { 0 });
            match n.op {
                O::Add => x.checked_add(y).map_or(false, |v| v <= lim),
                O::Mul => x.checked_mul(y).map_or(false, |v| v <= lim),
                O::Sub => s.n(n.a).lo >= y,
                O::Shl => match s.as_const(n.b) {
                    Some(k) => k < 128 && x.leading_zeros() as u128 >= 128 - n.w as u128 + k,
                    None => false,
                },
                _ => true,
            }
        };
        // operands are older than the terms built from them: each node is handled once
        let mut work: std::collections::BTreeMap<T, u128> = Default::default();
        work.insert(t, coef & m);
        while let Some((t, coef)) = work.pop_last() {
            *budget -= 1;
            if *budget < 0 || d.len() > 4000 {
                return None;
            }
            if coef == 0 {
                continue;
            }
            let mut push = |x: T, c: u128| {
                let e = work.entry(x).or_insert(0);
                *e = e.wrapping_add(c) & m;
            };
            let nn = *self.n(t);
            let n = nn.key;
            let ex = exact(self, &n);
            match n.op {
                O::Const => {
                    let e = d.entry(vec![]).or_insert(0);
                    *e = e.wrapping_add(n.k.wrapping_mul(coef)) & m;
                    continue;
                }
                O::ZExt => {
                    push(n.a, coef);
                    continue;
                }
                O::Add if ex => {
                    push(n.a, coef);
                    push(n.b, coef);
                    continue;
                }
                O::Sub if ex => {
                    push(n.a, coef);
                    push(n.b, coef.wrapping_neg() & m);
                    continue;
                }
                O::Shl if ex => {
                    if let Some(k) = self.as_const(n.b) {
                        if k < w as u128 {
                            push(n.a, coef.wrapping_shl(k as u32) & m);
                            continue;
                        }
                    }
                }
                O::Mul if ex => {
                    if let Some(k) = self.as_const(n.a) {
                        push(n.b, coef.wrapping_mul(k) & m);
                        continue;
                    }
                    if let Some(k) = self.as_const(n.b) {
                        push(n.a, coef.wrapping_mul(k) & m);
                        continue;
                    }
                    let mut a: HashMap<Vec<T>, u128> = HashMap::new();
                    let mut b: HashMap<Vec<T>, u128> = HashMap::new();
                    self.poly(n.a, 1, w, &mut a, budget)?;
                    self.poly(n.b, 1, w, &mut b, budget)?;
                    if a.len() * b.len() > 4000 {
                        return None;
                    }
                    for (ka, va) in &a {
                        for (kb, vb) in &b {
                            let mut k = ka.clone();
                            k.extend_from_slice(kb);
                            k.sort_unstable();
                            let e = d.entry(k).or_insert(0);
                            *e = e.wrapping_add(va.wrapping_mul(*vb).wrapping_mul(coef)) & m;
                        }
                    }
                    continue;
                }
                _ => {}
            }
            let e = d.entry(vec![t]).or_insert(0);
            *e = e.wrapping_add(coef) & m;
        }
        Some(())
    }
}

pub fn fold(op: O, x: u128, y: u128, w: u8) -> u128 {
    let m = mask(w);
    let r = match op {
        O::Add => x.wrapping_add(y),
        O::Sub => x.wrapping_sub(y),
        O::Mul => x.wrapping_mul(y),
        O::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        O::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        O::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        O::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        O::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y as u32
            }
        }
        O::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y as u32
            }
        }
        O::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            (sx(x, w) >> s) as u128
        }
        O::And => x & y,
        O::Or => x | y,
        O::Xor => x ^ y,
        O::Eq => return (x == y) as u128,
        O::Ult => return (x < y) as u128,
        O::Slt => return (sx(x, w) < sx(y, w)) as u128,
        _ => panic!("fold {:?}", op),
    };
    r & m
}
pub fn fold1(op: O, x: u128, w: u8) -> u128 {
    match op {
        O::Ctpop => x.count_ones() as u128,
        O::Ctlz => (x.leading_zeros() - (128 - w as u32)) as u128,
        O::Cttz => (x.trailing_zeros()).min(w as u32) as u128,
        _ => panic!("fold1"),
    }
}
fn f(v: u128, w: u8) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn fb(v: f64, w: u8) -> u128 {
    if w == 32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}
/// bit pattern of positive infinity
const FINF: u128 = 0x7ff0_0000_0000_0000;
pub fn foldf(op: O, x: u128, y: u128, k: u128, wa: u8, w: u8) -> u128 {
    match op {
        O::FAdd => fb(f(x, w) + f(y, w), w),
        O::FSub => fb(f(x, w) - f(y, w), w),
        O::FMul => fb(f(x, w) * f(y, w), w),
        O::FDiv => fb(f(x, w) / f(y, w), w),
        O::FSqrt => fb(f(x, w).sqrt(), w),
        O::FAbs => fb(f(x, w).abs(), w),
        O::FNeg => x ^ (1u128 << (w - 1)),
        O::FCmp => {
            let (a, b) = (f(x, wa), f(y, wa));
            let r = if a.is_nan() || b.is_nan() {
                8
            } else if a == b {
                1
            } else if a > b {
                2
            } else {
                4
            };
            (r & k != 0) as u128
        }
        O::UToF => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        O::SToF => {
            let s = sx(x, wa);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        // saturating conversions (Rust `as`)
        O::FToU => {
            let v = f(x, wa);
            let m = mask(w);
            if v.is_nan() || v <= 0.0 {
                0
            } else {
                let r = v as u128;
                r.min(m)
            }
        }
        O::FToS => {
            let v = f(x, wa);
            if v.is_nan() {
                return 0;
            }
            let r = v as i128;
            let hi = (mask(w) >> 1) as i128;
            let lo = -hi - 1;
            (r.clamp(lo, hi) as u128) & mask(w)
        }
        _ => panic!("foldf"),
    }
}
