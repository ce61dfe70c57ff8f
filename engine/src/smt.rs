//! SMT-LIB back end: an incremental z3 process, with one-shot z3/cvc5 fall-backs.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub enum Res {
    Sat(FxMap<u32, u128>),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub ms: f64,
    pub max_ms: f64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    emitted: HashSet<T>,
    emitted_bv: HashSet<T>,
    roms: HashSet<u32>,
    vars: HashSet<u32>,
    count: usize,
}

pub struct Smt {
    p: Option<Proc>,
    pub stats: Stats,
    pub inc_ms: u64,
    pub hard_ms: u64,
    pub deadline: Option<Instant>,
    pub tmp: String,
    /// time for a query over the integers (0: not tried)
    pub int_ms: u64,
    /// feasibility of a branch: less time over the integers
    pub soft: bool,
    seq: u64,
}

fn sort(w: u8) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn lit(v: u128, w: u8) -> String {
    if w == 1 {
        return if v == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0n$x}", v, n = (w / 4) as usize)
    } else {
        format!("#b{:0n$b}", v, n = w as usize)
    }
}
fn is_fp(o: O) -> bool {
    matches!(o, O::FAdd | O::FSub | O::FMul | O::FDiv | O::UToF | O::SToF | O::FSqrt | O::FAbs | O::FNeg)
}

struct Emit<'a> {
    ar: &'a Arena,
    emitted: &'a mut HashSet<T>,
    emitted_bv: &'a mut HashSet<T>,
    roms: &'a mut HashSet<u32>,
    vars: &'a mut HashSet<u32>,
    out: String,
}
impl<'a> Emit<'a> {
    /// reference to node as BV / Bool
    fn r(&mut self, t: T) -> String {
        let n = self.ar.n(t).key;
        match n.op {
            O::Const => lit(n.k, n.w),
            O::Var => format!("v{}", n.k),
            o if is_fp(o) => {
                if self.emitted_bv.insert(t) {
                    self.out.push_str(&format!("(define-fun n{} () (_ BitVec {}) (fp.to_ieee_bv f{}))\n", t, n.w, t));
                }
                format!("n{}", t)
            }
            _ => format!("n{}", t),
        }
    }
    /// as bit-vector even for width 1
    fn rb(&mut self, t: T) -> String {
        let s = self.r(t);
        if self.ar.w(t) == 1 {
            format!("(ite {} #b1 #b0)", s)
        } else {
            s
        }
    }
    fn rf(&mut self, t: T) -> String {
        let n = self.ar.n(t).key;
        if is_fp(n.op) {
            return format!("f{}", t);
        }
        let (e, m) = if n.w == 32 { (8, 24) } else { (11, 53) };
        format!("((_ to_fp {} {}) {})", e, m, self.r(t))
    }
    fn rom(&mut self, id: u32, iw: u8) -> String {
        // function over the index width used; one per (rom, width)
        let name = format!("rom{}_{}", id, iw);
        if self.roms.insert(id * 256 + iw as u32) {
            let r = self.ar.roms[id as usize].clone();
            let n = r.vals.len();
            let mut bits = 1;
            while (1usize << bits) < n {
                bits += 1;
            }
            let bits = bits.min(iw as usize);
            // decision tree, sharing equal subtrees textually when constant
            fn tree(r: &Rom, lo: usize, bit: i32) -> Result<u128, String> {
                let n = r.vals.len();
                if bit < 0 {
                    return Ok(r.vals[lo.min(n - 1)]);
                }
                let h = lo + (1usize << bit);
                if h >= n {
                    // upper half unreachable in range (clamps to last); treat as clamp
                    let l = tree(r, lo, bit - 1);
                    let last = r.vals[n - 1];
                    if let Ok(v) = l {
                        if v == last {
                            return Ok(v);
                        }
                    }
                    let ls = match l {
                        Ok(v) => lit(v, r.w),
                        Err(s) => s,
                    };
                    return Err(format!("(ite b{} {} {})", bit, lit(last, r.w), ls));
                }
                let l = tree(r, lo, bit - 1);
                let u = tree(r, h, bit - 1);
                match (l, u) {
                    (Ok(a), Ok(b)) if a == b => Ok(a),
                    (a, b) => {
                        let f = |x: Result<u128, String>| match x {
                            Ok(v) => lit(v, r.w),
                            Err(s) => s,
                        };
                        let (a, b) = (f(a), f(b));
                        if a == b {
                            return Err(a);
                        }
                        Err(format!("(ite b{} {} {})", bit, b, a))
                    }
                }
            }
            let t = match tree(&r, 0, bits as i32 - 1) {
                Ok(v) => lit(v, r.w),
                Err(s) => s,
            };
            let mut lets = String::new();
            for b in 0..bits {
                lets.push_str(&format!("(b{} (= ((_ extract {} {}) i) #b1))", b, b, b));
            }
            self.out.push_str(&format!("(define-fun {} ((i (_ BitVec {}))) {} (let ({}) {}))\n", name, iw, sort(r.w), lets, t));
        }
        name
    }
    fn node(&mut self, root: T) {
        let mut stack = vec![(root, false)];
        while let Some((t, done)) = stack.pop() {
            let n = *self.ar.n(t);
            let k = n.key;
            if k.op == O::Const || self.emitted.contains(&t) {
                continue;
            }
            if k.op == O::Var {
                self.emitted.insert(t);
                let id = k.k as u32;
                if self.vars.insert(id) {
                    let v = &self.ar.vars[id as usize];
                    self.out.push_str(&format!("(declare-const v{} {})\n", id, sort(v.w)));
                    if v.w > 1 {
                        if v.lo > 0 {
                            self.out.push_str(&format!("(assert (bvuge v{} {}))\n", id, lit(v.lo, v.w)));
                        }
                        if v.hi < mask(v.w) {
                            self.out.push_str(&format!("(assert (bvule v{} {}))\n", id, lit(v.hi, v.w)));
                        }
                    }
                }
                continue;
            }
            if !done {
                stack.push((t, true));
                for x in [k.a, k.b, k.c] {
                    if x != NIL {
                        stack.push((x, false));
                    }
                }
                continue;
            }
            self.emitted.insert(t);
            let w = k.w;
            let rm = "RNE";
            let body = match k.op {
                O::Add => format!("(bvadd {} {})", self.r(k.a), self.r(k.b)),
                O::Sub if w > 1 => format!("(bvsub {} {})", self.r(k.a), self.r(k.b)),
                O::Sub => format!("(xor {} {})", self.r(k.a), self.r(k.b)),
                O::Mul if w > 1 => format!("(bvmul {} {})", self.r(k.a), self.r(k.b)),
                O::Mul => format!("(and {} {})", self.r(k.a), self.r(k.b)),
                O::UDiv => format!("(bvudiv {} {})", self.r(k.a), self.r(k.b)),
                O::URem => format!("(bvurem {} {})", self.r(k.a), self.r(k.b)),
                O::SDiv => format!("(bvsdiv {} {})", self.r(k.a), self.r(k.b)),
                O::SRem => format!("(bvsrem {} {})", self.r(k.a), self.r(k.b)),
                O::Shl => format!("(bvshl {} {})", self.r(k.a), self.r(k.b)),
                O::LShr => format!("(bvlshr {} {})", self.r(k.a), self.r(k.b)),
                O::AShr => format!("(bvashr {} {})", self.r(k.a), self.r(k.b)),
                O::And => format!("({} {} {})", if w == 1 { "and" } else { "bvand" }, self.r(k.a), self.r(k.b)),
                O::Or => format!("({} {} {})", if w == 1 { "or" } else { "bvor" }, self.r(k.a), self.r(k.b)),
                O::Xor => {
                    if w == 1 && self.ar.as_const(k.b) == Some(1) {
                        format!("(not {})", self.r(k.a))
                    } else {
                        format!("({} {} {})", if w == 1 { "xor" } else { "bvxor" }, self.r(k.a), self.r(k.b))
                    }
                }
                O::Eq => format!("(= {} {})", self.r(k.a), self.r(k.b)),
                O::Ult => format!("(bvult {} {})", self.rb(k.a), self.rb(k.b)),
                O::Slt => format!("(bvslt {} {})", self.rb(k.a), self.rb(k.b)),
                O::Ite => format!("(ite {} {} {})", self.r(k.a), self.r(k.b), self.r(k.c)),
                O::Concat => format!("(concat {} {})", self.rb(k.a), self.rb(k.b)),
                O::Extract => {
                    let e = format!("((_ extract {} {}) {})", k.k as u32 + w as u32 - 1, k.k, self.rb(k.a));
                    if w == 1 {
                        format!("(= {} #b1)", e)
                    } else {
                        e
                    }
                }
                O::ZExt => format!("((_ zero_extend {}) {})", w - self.ar.w(k.a), self.rb(k.a)),
                O::SExt => format!("((_ sign_extend {}) {})", w - self.ar.w(k.a), self.rb(k.a)),
                O::Sel => {
                    let nm = self.rom(k.k as u32, self.ar.w(k.a));
                    format!("({} {})", nm, self.rb(k.a))
                }
                O::Ctpop => {
                    let wa = self.ar.w(k.a);
                    let x = self.r(k.a);
                    let mut s = lit(0, w);
                    for i in 0..wa {
                        if self.ar.n(k.a).kz >> i & 1 == 1 {
                            continue;
                        }
                        s = format!("(bvadd {} ((_ zero_extend {}) ((_ extract {} {}) {})))", s, w - 1, i, i, x);
                    }
                    s
                }
                O::Ctlz => {
                    let wa = self.ar.w(k.a);
                    let x = self.r(k.a);
                    let mut s = lit(wa as u128, w);
                    for i in 0..wa {
                        if self.ar.n(k.a).kz >> i & 1 == 1 {
                            continue;
                        }
                        s = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, x, lit((wa - 1 - i) as u128, w), s);
                    }
                    s
                }
                O::Cttz => {
                    let wa = self.ar.w(k.a);
                    let x = self.r(k.a);
                    let mut s = lit(wa as u128, w);
                    for i in (0..wa).rev() {
                        if self.ar.n(k.a).kz >> i & 1 == 1 {
                            continue;
                        }
                        s = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, x, lit(i as u128, w), s);
                    }
                    s
                }
                O::FAdd | O::FSub | O::FMul | O::FDiv => {
                    let o = match k.op {
                        O::FAdd => "fp.add",
                        O::FSub => "fp.sub",
                        O::FMul => "fp.mul",
                        _ => "fp.div",
                    };
                    format!("({} {} {} {})", o, rm, self.rf(k.a), self.rf(k.b))
                }
                O::FSqrt => format!("(fp.sqrt {} {})", rm, self.rf(k.a)),
                O::FAbs => format!("(fp.abs {})", self.rf(k.a)),
                O::FNeg => format!("(fp.neg {})", self.rf(k.a)),
                O::UToF | O::SToF => {
                    let (e, m) = if w == 32 { (8, 24) } else { (11, 53) };
                    format!("((_ {} {} {}) {} {})", if k.op == O::UToF { "to_fp_unsigned" } else { "to_fp" }, e, m, rm, self.rb(k.a))
                }
                O::FCmp => {
                    let (a, b) = (self.rf(k.a), self.rf(k.b));
                    let mut v = Vec::new();
                    if k.k & 1 != 0 {
                        v.push(format!("(fp.eq {} {})", a, b));
                    }
                    if k.k & 2 != 0 {
                        v.push(format!("(fp.gt {} {})", a, b));
                    }
                    if k.k & 4 != 0 {
                        v.push(format!("(fp.lt {} {})", a, b));
                    }
                    if k.k & 8 != 0 {
                        v.push(format!("(or (fp.isNaN {}) (fp.isNaN {}))", a, b));
                    }
                    format!("(or false {})", v.join(" "))
                }
                O::FToU => {
                    let wa = self.ar.w(k.a);
                    let a = self.rf(k.a);
                    let (e, m) = if wa == 32 { (8, 24) } else { (11, 53) };
                    let mx = format!("((_ to_fp_unsigned {} {}) RTZ {})", e, m, lit(mask(w), w));
                    format!(
                        "(ite (or (fp.isNaN {a}) (fp.leq {a} ((_ to_fp {e} {m}) RNE 0.0))) {z} (ite (fp.gt {a} {mx}) {full} ((_ fp.to_ubv {w}) RTZ {a})))",
                        a = a, e = e, m = m, z = lit(0, w), mx = mx, full = lit(mask(w), w), w = w
                    )
                }
                O::FToS => {
                    let a = self.rf(k.a);
                    format!("((_ fp.to_sbv {}) RTZ {})", w, a)
                }
                O::Const | O::Var => unreachable!(),
            };
            if is_fp(k.op) {
                self.out.push_str(&format!("(define-fun f{} () (_ FloatingPoint {}) {})\n", t, if w == 32 { "8 24" } else { "11 53" }, body));
            } else {
                self.out.push_str(&format!("(define-fun n{} () {} {})\n", t, sort(w), body));
            }
        }
    }
}

fn parse_model(s: &str, m: &mut FxMap<u32, u128>) {
    // ((v0 #x..) (v1 true) ...)
    let mut it = s.replace(['(', ')'], " ");
    it = it.trim().to_string();
    let toks: Vec<&str> = it.split_whitespace().collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        let id: u32 = match toks[i][1..].parse() {
            Ok(v) => v,
            Err(_) => {
                i += 1;
                continue;
            }
        };
        let v = toks[i + 1];
        let val = if let Some(h) = v.strip_prefix("#x") {
            u128::from_str_radix(h, 16).unwrap()
        } else if let Some(b) = v.strip_prefix("#b") {
            u128::from_str_radix(b, 2).unwrap()
        } else if v == "true" {
            1
        } else {
            v.parse().unwrap_or(0)
        };
        m.insert(id, val);
        i += 2;
    }
}

/// first verdict of several solvers
fn run(cmds: &mut [(Command, String)], ms: u64) -> Res {
    let mut kids: Vec<Child> = cmds
        .iter_mut()
        .filter_map(|(c, _)| c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok())
        .collect();
    let t0 = Instant::now();
    let mut res = Res::Unknown("timeout".into());
    let mut live: Vec<bool> = kids.iter().map(|_| true).collect();
    'o: loop {
        for i in 0..kids.len() {
            if !live[i] {
                continue;
            }
            if let Ok(Some(_)) = kids[i].try_wait() {
                live[i] = false;
                let mut s = String::new();
                use std::io::Read;
                let _ = kids[i].stdout.take().unwrap().read_to_string(&mut s);
                let first = s.lines().next().unwrap_or("").trim().to_string();
                if first == "unsat" {
                    res = Res::Unsat;
                    break 'o;
                }
                if first == "sat" {
                    let mut m: FxMap<u32, u128> = Default::default();
                    parse_model(&s[s.find('\n').unwrap_or(0)..], &mut m);
                    res = Res::Sat(m);
                    break 'o;
                }
            }
        }
        if live.iter().all(|l| !l) || t0.elapsed().as_millis() as u64 > ms + 2000 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    res
}

/// A conjunction over the integers: bit-vector operations as arithmetic with explicit quotients and carries.
struct IntEmit<'a> {
    ar: &'a Arena,
    out: String,
    memo: HashMap<T, String>,
    vars: HashSet<u32>,
    divs: HashMap<(String, String), (String, String)>,
    fresh: u32,
}
fn pow2(k: u32) -> String {
    if k < 127 {
        format!("{}", 1u128 << k)
    } else {
        format!("(* {} {})", 1u128 << 126, pow2(k - 126))
    }
}
impl<'a> IntEmit<'a> {
    fn new_int(&mut self) -> String {
        self.fresh += 1;
        self.out.push_str(&format!("(declare-const x{} Int)\n", self.fresh));
        format!("x{}", self.fresh)
    }
    fn name(&mut self, e: String, bool_: bool) -> String {
        if e.len() < 12 {
            return e;
        }
        self.fresh += 1;
        if bool_ {
            self.out.push_str(&format!("(define-fun x{} () Bool {})\n", self.fresh, e));
        } else {
            self.out.push_str(&format!("(declare-const x{} Int)(assert (= x{} {}))\n", self.fresh, self.fresh, e));
        }
        format!("x{}", self.fresh)
    }
    /// quotient and remainder; the divisor is positive
    fn div(&mut self, a: &str, b: &str) -> (String, String) {
        if let Some(x) = self.divs.get(&(a.to_string(), b.to_string())) {
            return x.clone();
        }
        let (q, r) = (self.new_int(), self.new_int());
        self.out.push_str(&format!("(assert (and (= {a} (+ (* {b} {q}) {r})) (<= 0 {r}) (< {r} {b}) (<= 0 {q})))\n"));
        self.divs.insert((a.to_string(), b.to_string()), (q.clone(), r.clone()));
        (q, r)
    }
    fn modp(&mut self, a: String, k: u32) -> String {
        self.div(&a, &pow2(k)).1
    }
    /// as an integer even for width 1
    fn i(&mut self, t: T) -> Option<String> {
        let e = self.go(t)?;
        Some(if self.ar.w(t) == 1 { format!("(ite {} 1 0)", e) } else { e })
    }
    fn go(&mut self, t: T) -> Option<String> {
        if let Some(e) = self.memo.get(&t) {
            return Some(e.clone());
        }
        let n = *self.ar.n(t);
        let k = n.key;
        let w = k.w as u32;
        if k.op == O::Const {
            return Some(if w == 1 { (if k.k == 1 { "true" } else { "false" }).to_string() } else { format!("{}", k.k) });
        }
        let ar = self.ar;
        let hi = |t: T| ar.n(t).hi;
        let lo = |t: T| ar.n(t).lo;
        let full = mask(k.w);
        let e = match k.op {
            O::Var => {
                let id = k.k as u32;
                if self.vars.insert(id) {
                    let v = &self.ar.vars[id as usize];
                    if v.w == 1 {
                        self.out.push_str(&format!("(declare-const v{} Bool)\n", id));
                    } else {
                        self.out.push_str(&format!("(declare-const v{} Int)(assert (and (<= {} v{}) (<= v{} {})))\n", id, v.lo, id, id, v.hi));
                    }
                }
                format!("v{}", id)
            }
            O::Add if w > 1 => {
                let a = self.i(k.a)?;
                if let Some(c) = self.ar.as_const(k.b) {
                    if c > full / 2 {
                        let c = full - c + 1;
                        if lo(k.a) >= c {
                            let e = self.name(format!("(- {a} {c})"), false);
                            self.memo.insert(t, e.clone());
                            return Some(e);
                        }
                        let cy = self.new_int();
                        let e = self.name(format!("(+ (- {a} {c}) (* {} {cy}))", pow2(w)), false);
                        self.out.push_str(&format!("(assert (and (<= 0 {cy}) (<= {cy} 1) (<= 0 {e}) (< {e} {})))\n", pow2(w)));
                        self.memo.insert(t, e.clone());
                        return Some(e);
                    }
                }
                let b = self.i(k.b)?;
                let s = self.name(format!("(+ {a} {b})"), false);
                if hi(k.a).checked_add(hi(k.b)).map_or(false, |s| s <= full) {
                    s
                } else {
                    let cy = self.new_int();
                    let e = self.name(format!("(- {s} (* {} {cy}))", pow2(w)), false);
                    self.out.push_str(&format!("(assert (and (<= 0 {cy}) (<= {cy} 1) (<= 0 {e}) (< {e} {})))\n", pow2(w)));
                    e
                }
            }
            O::Sub if w > 1 => {
                let (a, b) = (self.i(k.a)?, self.i(k.b)?);
                if lo(k.a) >= hi(k.b) {
                    self.name(format!("(- {a} {b})"), false)
                } else {
                    let cy = self.new_int();
                    let e = self.name(format!("(+ (- {a} {b}) (* {} {cy}))", pow2(w)), false);
                    self.out.push_str(&format!("(assert (and (<= 0 {cy}) (<= {cy} 1) (<= 0 {e}) (< {e} {})))\n", pow2(w)));
                    e
                }
            }
            O::Mul if w > 1 => {
                let (a, b) = (self.i(k.a)?, self.i(k.b)?);
                let p = self.name(format!("(* {a} {b})"), false);
                if hi(k.a).checked_mul(hi(k.b)).map_or(false, |s| s <= full) {
                    p
                } else {
                    self.modp(p, w)
                }
            }
            O::UDiv | O::URem if w > 1 && lo(k.b) > 0 => {
                let (a, b) = (self.i(k.a)?, self.i(k.b)?);
                let x = self.div(&a, &b);
                if k.op == O::UDiv {
                    x.0
                } else {
                    x.1
                }
            }
            O::Shl => {
                let c = self.ar.as_const(k.b)?;
                if c >= w as u128 {
                    return None;
                }
                let a = self.i(k.a)?;
                let p = self.name(format!("(* {} {a})", pow2(c as u32)), false);
                if hi(k.a) <= full >> c {
                    p
                } else {
                    self.modp(p, w)
                }
            }
            O::LShr => {
                let c = self.ar.as_const(k.b)?;
                if c >= w as u128 {
                    return None;
                }
                let a = self.i(k.a)?;
                self.div(&a, &pow2(c as u32)).0
            }
            O::And if w == 1 => format!("(and {} {})", self.go(k.a)?, self.go(k.b)?),
            O::Or if w == 1 => format!("(or {} {})", self.go(k.a)?, self.go(k.b)?),
            O::Xor if w == 1 => format!("(xor {} {})", self.go(k.a)?, self.go(k.b)?),
            O::And => {
                let c = self.ar.as_const(k.b)?;
                if c == 0 || (c & c.wrapping_add(1)) != 0 {
                    return None;
                }
                let a = self.i(k.a)?;
                if hi(k.a) <= c {
                    a
                } else {
                    self.modp(a, 128 - c.leading_zeros())
                }
            }
            O::Eq => format!("(= {} {})", self.go(k.a)?, self.go(k.b)?),
            O::Ult => format!("(< {} {})", self.i(k.a)?, self.i(k.b)?),
            O::Slt if hi(k.a) <= mask(self.ar.w(k.a)) / 2 && hi(k.b) <= mask(self.ar.w(k.b)) / 2 => format!("(< {} {})", self.i(k.a)?, self.i(k.b)?),
            O::Ite => format!("(ite {} {} {})", self.go(k.a)?, self.go(k.b)?, self.go(k.c)?),
            O::ZExt => self.i(k.a)?,
            O::Concat => format!("(+ (* {} {}) {})", pow2(self.ar.w(k.b) as u32), self.i(k.a)?, self.i(k.b)?),
            O::Extract => {
                let mut e = self.i(k.a)?;
                if k.k > 0 {
                    e = self.div(&e, &pow2(k.k as u32)).0;
                }
                if hi(k.a) >> k.k > full {
                    e = self.modp(e, w);
                }
                if w == 1 {
                    e = format!("(= {} 1)", e);
                }
                e
            }
            _ => return None,
        };
        let e = self.name(e, w == 1);
        self.memo.insert(t, e.clone());
        Some(e)
    }
}

impl Smt {
    pub fn new(tmp: &str) -> Smt {
        Smt { p: None, stats: Stats::default(), inc_ms: 3000, hard_ms: 60000, deadline: None, tmp: tmp.to_string(), int_ms: 0, soft: false, seq: 0 }
    }
    fn start(&mut self) {
        let mut child = Command::new("z3-new")
            .arg("-in")
            .arg("-memory:3000")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3-new");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut p = Proc {
            child,
            inp,
            out,
            emitted: HashSet::new(),
            emitted_bv: HashSet::new(),
            roms: HashSet::new(),
            vars: HashSet::new(),
            count: 0,
        };
        let _ = writeln!(p.inp, "(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :timeout {})", self.inc_ms);
        self.p = Some(p);
    }
    pub fn check(&mut self, ar: &Arena, conj: &[T]) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let mut r = Res::Unknown("fp".into());
        let fp = conj.iter().any(|&t| ar.n(t).nonlinear_fp);
        if self.inc_ms > 0 && !fp {
            r = self.check_inc(ar, conj);
        }
        if let (Res::Unknown(_), true) = (&r, self.int_ms > 0) {
            r = self.check_int(ar, conj);
        }
        if let Res::Unknown(_) = r {
            self.stats.fallback += 1;
            // stay within the time of the job (plus a little)
            let full = self.hard_ms;
            if let Some(d) = self.deadline {
                let left = d.saturating_duration_since(Instant::now()).as_millis() as u64;
                self.hard_ms = full.min(left + 1000);
            }
            r = self.check_oneshot(ar, conj);
            self.hard_ms = full;
        }
        let ms = t0.elapsed().as_secs_f64() * 1000.0;
        self.stats.ms += ms;
        self.stats.max_ms = self.stats.max_ms.max(ms);
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
    fn check_inc(&mut self, ar: &Arena, conj: &[T]) -> Res {
        if self.p.as_ref().map_or(true, |p| p.count > 60000) {
            if let Some(mut p) = self.p.take() {
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
            self.start();
        }
        let p = self.p.as_mut().unwrap();
        let mut vs: Vec<u32> = Vec::new();
        for &c in conj {
            vs.extend(ar.vars_of(c).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        let mut e = Emit { ar, emitted: &mut p.emitted, emitted_bv: &mut p.emitted_bv, roms: &mut p.roms, vars: &mut p.vars, out: String::new() };
        for &c in conj {
            e.node(c);
        }
        let mut asserts = String::from("(push)\n");
        for &c in conj {
            let s = e.r(c);
            asserts.push_str(&format!("(assert {})\n", s));
        }
        let mut txt = e.out;
        p.count += txt.bytes().filter(|&b| b == b'\n').count();
        txt.push_str(&asserts);
        txt.push_str("(check-sat)\n(echo \"<<\")\n");
        if p.inp.write_all(txt.as_bytes()).is_err() || p.inp.flush().is_err() {
            self.p = None;
            return Res::Unknown("pipe".into());
        }
        let mut ans = String::new();
        let mut line = String::new();
        loop {
            line.clear();
            match p.out.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    self.p = None;
                    return Res::Unknown("eof".into());
                }
                _ => {}
            }
            if line.trim_matches(|c| c == '"' || c == '\n' || c == ' ') == "<<" {
                break;
            }
            ans.push_str(&line);
        }
        let mut res = Res::Unknown(ans.trim().to_string());
        if ans.contains("(error") {
            eprintln!("smt error: {}", ans);
            if let Some(mut p) = self.p.take() {
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
            return res;
        }
        let a = ans.trim();
        if a == "unsat" {
            res = Res::Unsat;
        } else if a == "sat" {
            let mut m: FxMap<u32, u128> = Default::default();
            if !vs.is_empty() {
                let list: Vec<String> = vs.iter().map(|v| format!("v{}", v)).collect();
                let _ = writeln!(p.inp, "(get-value ({}))\n(echo \"<<\")", list.join(" "));
                let _ = p.inp.flush();
                let mut ans = String::new();
                loop {
                    line.clear();
                    match p.out.read_line(&mut line) {
                        Ok(0) | Err(_) => {
                            self.p = None;
                            return Res::Unknown("eof".into());
                        }
                        _ => {}
                    }
                    if line.trim_matches(|c| c == '"' || c == '\n' || c == ' ') == "<<" {
                        break;
                    }
                    ans.push_str(&line);
                }
                parse_model(&ans, &mut m);
            }
            res = Res::Sat(m);
        }
        let p = self.p.as_mut().unwrap();
        let _ = writeln!(p.inp, "(pop)");
        res
    }
    /// self-contained script text for a conjunction
    pub fn script(ar: &Arena, conj: &[T]) -> (String, Vec<u32>) {
        let (mut a, mut b, mut c, mut d) = (HashSet::new(), HashSet::new(), HashSet::new(), HashSet::new());
        let mut e = Emit { ar, emitted: &mut a, emitted_bv: &mut b, roms: &mut c, vars: &mut d, out: String::new() };
        for &x in conj {
            e.node(x);
        }
        let mut asserts = String::new();
        for &x in conj {
            let s = e.r(x);
            asserts.push_str(&format!("(assert {})\n", s));
        }
        let mut vs: Vec<u32> = Vec::new();
        for &c in conj {
            vs.extend(ar.vars_of(c).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        (format!("{}{}", e.out, asserts), vs)
    }
    /// over the integers; parts that have no translation are left out, and then only "unsat" counts
    fn check_int(&mut self, ar: &Arena, conj: &[T]) -> Res {
        let mut e = IntEmit { ar, out: String::new(), memo: HashMap::new(), vars: HashSet::new(), divs: HashMap::new(), fresh: 0 };
        let mut exact = true;
        let mut asserts = String::new();
        for &c in conj {
            match e.go(c) {
                Some(x) => asserts.push_str(&format!("(assert {})\n", x)),
                None => exact = false,
            }
        }
        let mut vs: Vec<u32> = e.vars.iter().copied().collect();
        vs.sort_unstable();
        let ms = if self.soft { self.int_ms / 6 + 100 } else { self.int_ms };
        let gv = if vs.is_empty() { String::new() } else { format!("(get-value ({}))\n", vs.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" ")) };
        self.seq += 1;
        let f = format!("{}/i{}_{}.smt2", self.tmp, std::process::id(), self.seq);
        let _ = std::fs::write(&f, format!("(set-logic QF_NIA)\n(set-option :produce-models true)\n{}{}(check-sat)\n{}", e.out, asserts, gv));
        let mut a = Command::new("z3-new");
        a.arg(format!("-t:{}", ms)).arg("-memory:3000").arg(&f);
        let mut b = Command::new("cvc5");
        b.arg(format!("--tlimit={}", ms)).arg(&f);
        let r = run(&mut [(a, f.clone()), (b, f.clone())], ms);
        if std::env::var("SXE_KEEP").is_err() {
            let _ = std::fs::remove_file(&f);
        } else {
            eprintln!("int {} exact={} {}", f, exact, match &r { Res::Unsat => "unsat", Res::Sat(_) => "sat", _ => "unknown" });
        }
        match r {
            Res::Sat(_) if !exact => Res::Unknown("weakened".into()),
            r => r,
        }
    }
    /// an identity of sums of products: z3 normalises sums of monomials itself
    pub fn check_identity(&mut self, ar: &Arena, ne: T) -> Res {
        let (txt, _) = Self::script(ar, &[ne]);
        self.seq += 1;
        let f = format!("{}/p{}_{}.smt2", self.tmp, std::process::id(), self.seq);
        let _ = std::fs::write(&f, format!("{}(check-sat-using (then (using-params simplify :som true :flat true) qfbv))\n", txt));
        let mut c = Command::new("z3-new");
        c.arg("-T:1").arg("-memory:2000").arg(&f);
        let t0 = std::time::Instant::now();
        let r = run(&mut [(c, f.clone())], 1000);
        let ms = t0.elapsed().as_secs_f64() * 1000.;
        self.stats.ms += ms;
        match r {
            Res::Unsat => {
                self.stats.queries += 1;
                self.stats.unsat += 1
            }
            Res::Sat(_) => {
                self.stats.queries += 1;
                self.stats.sat += 1
            }
            Res::Unknown(_) => {}
        }
        if std::env::var("SXE_KEEP").is_err() {
            let _ = std::fs::remove_file(&f);
        }
        r
    }
    fn check_oneshot(&mut self, ar: &Arena, conj: &[T]) -> Res {
        let (txt, vs) = Self::script(ar, conj);
        self.seq += 1;
        let base = format!("{}/q{}_{}", self.tmp, std::process::id(), self.seq);
        let gv = if vs.is_empty() {
            String::new()
        } else {
            format!("(get-value ({}))\n", vs.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" "))
        };
        let fp = txt.contains("FloatingPoint");
        let f1 = format!("{}_z.smt2", base);
        let _ = std::fs::write(&f1, format!("{}(check-sat)\n{}", txt, gv));
        let mut cmds: Vec<(Command, String)> = Vec::new();
        let secs = (self.hard_ms / 1000).max(1);
        let mut c = Command::new("z3-new");
        c.arg(format!("-T:{}", secs)).arg("-memory:4000").arg(&f1);
        cmds.push((c, f1.clone()));
        let f2 = format!("{}_c.smt2", base);
        if !txt.contains("fp.to_ieee_bv") {
            let logic = if fp { "QF_BVFP" } else { "QF_BV" };
            let _ = std::fs::write(&f2, format!("(set-logic {})\n(set-option :produce-models true)\n{}(check-sat)\n{}", logic, txt, gv));
            let mut c = Command::new("cvc5");
            c.arg(format!("--tlimit={}", self.hard_ms)).arg(&f2);
            cmds.push((c, f2.clone()));
        }
        let res = run(&mut cmds, self.hard_ms);
        if std::env::var("SXE_KEEP").is_err() {
            let _ = std::fs::remove_file(&f1);
            let _ = std::fs::remove_file(&f2);
        }
        res
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
}
#[allow(dead_code)]
type Unused = HashMap<u32, u32>;
