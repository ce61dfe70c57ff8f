//! Symbolic interpreter for the parsed LLVM IR.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Killed,
    Panic(String),
    Mem(String),
    Unsupported(String),
    Limit(String),
    Deadlock(String),
    /// only inside speculative (merging) execution: give up and fork instead
    Bail,
    Stopped,
}
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}
/// waiting for a thread's end is waiting at this address plus its number
const JOIN: u64 = 0xffff_ffff_0000_0000;
#[derive(Clone, PartialEq, Debug)]
pub enum TStat {
    Run,
    Futex(u64, bool),
    Exited,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub stat: TStat,
    pub tls: Vec<(u32, u32)>,
    pub keys: Vec<u64>,
    pub errno: u32,
    pub at_sync: bool,
    pub dtor_rounds: u32,
}
#[derive(Clone)]
pub enum Input {
    Term(T),
    Fixed(u64),
}
#[derive(Clone)]
pub struct State {
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub gl: FxMap<u32, Rc<Obj>>,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<T>,
    pub multi: Vec<T>,
    pub dom: FxMap<u32, [u64; 4]>,
    pub fixed: FxMap<u32, u128>,
    pub model: Rc<FxMap<u32, u128>>,
    pub model_ok: bool,
    pub inputs: Vec<Input>,
    pub nsym: u32,
    pub steps: u64,
    pub obs: Vec<V>,
    pub symcells: FxMap<u64, T>,
    pub key_dtors: Vec<u64>,
    pub clock: u64,
    pub rng: u64,
    pub merge: bool,
    pub symtab: bool,
    /// fork over the values of every symbolic address
    pub forkidx: bool,
    pub preempt: u32,
    /// choices left among several threads that can run when the running one blocks or ends
    pub choice: u32,
    /// schedules that leave the default one so far, for sharing them out
    pub firsts: u64,
    pub sched: Vec<u8>,
    pub depth: u32,
}
impl State {
    fn top(&mut self) -> &mut Frame {
        self.threads[self.cur].frames.last_mut().unwrap()
    }
    fn alloc(&mut self, n: usize) -> u32 {
        let o = Rc::new(Obj::new(n));
        if let Some(i) = self.free.pop() {
            self.heap[i as usize] = Some(o);
            return i + HEAP_BASE;
        }
        self.heap.push(Some(o));
        self.heap.len() as u32 - 1 + HEAP_BASE
    }
    fn release(&mut self, id: u32) {
        let i = (id - HEAP_BASE) as usize;
        self.heap[i] = None;
        self.free.push(i as u32);
    }
    fn set(&mut self, d: u32, v: V) {
        self.threads[self.cur].frames.last_mut().unwrap().regs[d as usize] = v;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Normal,
    Panic,
    Nop,
    Memcpy,
    Memset,
    Intr(I),
    Ext(X),
    Sx(S),
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum I {
    Ctpop, Ctlz, Cttz, Bswap, Bitrev, Abs, Umin, Umax, Smin, Smax, UsubSat, UaddSat, Fshl, Fshr, Ucmp, Scmp,
    UaddO, UsubO, UmulO, SaddO, SsubO, SmulO, Fabs, Sqrt, Minnum, Maxnum, FToUs, FToSs, Tls, IsConst, Arg0, RedAdd, RedOr, RedAnd, RedUmax, RedUmin, RedXor, RedMul, RedSmax,RedSmin, Copysign, Floor, Fma,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Dlsym,
    Malloc, Calloc, Realloc, Free, Memalign, Bcmp, Memcmp, Strlen, Abort, Read, Write, Writev, Errno, Syscall, Zero, NegOne, Sysconf, ClockGettime,
    PtCreate, PtJoin, PtSelf, KeyCreate, SetSpecific, GetSpecific, Yield, Pause, Getrandom,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Range, Assume, Assert, Conc, Param, Shard, Observe, Reach, Merge, Symtab, Preempt, Engine, Close, Simplify, Measure,
}

pub struct Cand {
    pub kind: String,
    pub id: u64,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
    pub sched: Vec<u8>,
    pub extra: String,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub shard: (u64, u64),
    pub time: Duration,
    pub max_steps: u64,
    pub seed: u64,
    pub max_cands: usize,
    pub witnesses: usize,
    pub trace: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_folded: u64,
    pub asserts_solver: u64,
    pub asserts_finite: u64,
    pub unknown_asserts: u64,
    pub unknown_branches: u64,
    pub feas_model: u64,
    pub feas_dom: u64,
    pub feas_solver: u64,
    pub feas_cache: u64,
    pub conc: u64,
    pub unexplored: u64,
    pub timed_out: bool,
    pub incomplete: BTreeMap<String, u64>,
}

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub smt: Smt,
    pub cfg: Cfg,
    pub st: Stats,
    fk: Vec<Option<FK>>,
    glc: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub cands: Vec<Cand>,
    pub first_cand: Option<Instant>,
    pub reach: BTreeMap<u64, u64>,
    pub funcs: HashSet<u32>,
    pub witnesses: Vec<(Vec<u64>, Vec<u64>)>,
    romcache: HashMap<(u64, u32, u64, u64, u8), u32>,
    ipd: HashMap<u32, Rc<Vec<Option<u32>>>>,
    idm: HashMap<u32, Rc<Vec<Option<u32>>>>,
    merge_stack: Vec<u32>,
    mfail: HashMap<(u32, u32), (u32, u32)>,
    qcache: HashMap<Vec<T>, bool>,
    t0: Instant,
    others: Vec<usize>,
    pub forkprof: HashMap<String, u64>,
    /// (random words, outcome): measure of the inputs, paths, number of outcomes
    pub measures: std::collections::BTreeMap<(u64, u64), (f64, u64, u64)>,
    counts: HashMap<(u32, Vec<T>, Vec<T>), u128>,
    spec_log: Vec<(u64, u32, V)>,
    spec: bool,
    spec_guard: T,
}

fn tn(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => (*w + 7) / 8,
        t => t.size() as u32,
    }
}

pub enum Feas {
    No,
    Yes(Option<Rc<FxMap<u32, u128>>>), // None: current model already satisfies
    Unknown,
}
enum Ctl {
    Next,
    Goto(u32),
    Reframe,
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg, tmp: &str) -> Engine {
        let nf = m.funcs.len();
        let ng = m.globals.len();
        Engine {
            m,
            ar: Arena::new(),
            smt: Smt::new(tmp),
            cfg,
            st: Default::default(),
            fk: vec![None; nf],
            glc: vec![None; ng],
            work: vec![],
            cands: vec![],
            first_cand: None,
            reach: Default::default(),
            funcs: Default::default(),
            witnesses: vec![],
            romcache: Default::default(),
            ipd: Default::default(),
            idm: Default::default(),
            merge_stack: vec![],
            mfail: Default::default(),
            qcache: Default::default(),
            t0: Instant::now(),
            others: vec![],
    forkprof: Default::default(),
    measures: Default::default(),
    counts: Default::default(),
            spec_log: vec![],
            spec: false,
            spec_guard: 0,
        }
    }

    // ---------------------------------------------------------------- values
    fn get(&self, fr: &Frame, o: &Op, ty: &Ty) -> V {
        match o {
            Op::Slot(s) => fr.regs[*s as usize].clone(),
            Op::C(v) => {
                if ty.is_agg() {
                    self.zero(ty)
                } else {
                    mkc(*v)
                }
            }
            Op::Agg(xs) => {
                let v = xs.iter().enumerate().map(|(i, x)| self.get(fr, x, &ty.elem(i))).collect();
                V::X(Rc::new(Ext::Agg(v)))
            }
        }
    }
    fn gets(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::Slot(s) => fr.regs[*s as usize].clone(),
            Op::C(v) => mkc(*v),
            Op::Agg(xs) => V::X(Rc::new(Ext::Agg(xs.iter().map(|x| self.gets(fr, x)).collect()))),
        }
    }
    fn zero(&self, ty: &Ty) -> V {
        if ty.is_agg() {
            V::X(Rc::new(Ext::Agg((0..ty.nelem()).map(|i| self.zero(&ty.elem(i))).collect())))
        } else {
            V::C(0)
        }
    }
    pub fn tt(&mut self, v: &V, w: u32) -> T {
        match v {
            V::S(t) => {
                debug_assert_eq!(self.ar.w(*t) as u32, w);
                *t
            }
            v => {
                let c = v.conc().expect("scalar value");
                self.ar.konst(c, w as u8)
            }
        }
    }
    pub fn vt(&self, t: T) -> V {
        match self.ar.as_const(t) {
            Some(k) => mkc(k),
            None => V::S(t),
        }
    }
    fn ite_v(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> V {
        if ty.is_agg() {
            let n = ty.nelem();
            let mut out = Vec::with_capacity(n);
            let za;
            let zb;
            let (aa, bb) = (
                match a.agg() {
                    Some(x) => x,
                    None => {
                        za = self.zero(ty);
                        za.agg().unwrap()
                    }
                },
                match b.agg() {
                    Some(x) => x,
                    None => {
                        zb = self.zero(ty);
                        zb.agg().unwrap()
                    }
                },
            );
            for i in 0..n {
                out.push(self.ite_v(c, &aa[i].clone(), &bb[i].clone(), &ty.elem(i)));
            }
            return V::X(Rc::new(Ext::Agg(out)));
        }
        if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
            if x == y {
                return a.clone();
            }
        }
        let w = ty.bits();
        let (x, y) = (self.tt(a, w), self.tt(b, w));
        let r = self.ar.ite(c, x, y);
        self.vt(r)
    }
    /// simplify with what the path has fixed
    fn simp(&mut self, st: &State, t: T) -> T {
        if st.fixed.is_empty() {
            return t;
        }
        let vs = self.ar.vars_of(t);
        if vs.is_empty() || !vs.iter().all(|v| st.fixed.contains_key(v)) {
            return t;
        }
        self.ar.begin_eval();
        let f = &st.fixed;
        let w = self.ar.w(t);
        let v = self.ar.eval(t, |i| f[&i]);
        self.ar.konst(v, w)
    }
    fn simp_v(&mut self, st: &State, v: V) -> V {
        if let V::S(t) = v {
            let r = self.simp(st, t);
            self.vt(r)
        } else {
            v
        }
    }
    pub fn model_eval(&mut self, st: &State, t: T) -> u128 {
        self.ar.begin_eval();
        let m = st.model.clone();
        self.eval_m(&m, t)
    }
    fn eval_m(&mut self, m: &FxMap<u32, u128>, t: T) -> u128 {
        // default for unassigned variables: their lower bound
        let vs = self.ar.vars_of(t);
        let mut env: Vec<(u32, u128)> = Vec::with_capacity(vs.len());
        for &v in vs.iter() {
            env.push((v, *m.get(&v).unwrap_or(&self.ar.vars[v as usize].lo)));
        }
        self.ar.begin_eval();
        if env.len() <= 4 {
            let e = &env;
            self.ar.eval(t, |i| e.iter().find(|x| x.0 == i).unwrap().1)
        } else {
            let h: FxMap<u32, u128> = env.into_iter().collect();
            let h = &h;
            self.ar.eval(t, |i| h[&i])
        }
    }

    // ---------------------------------------------------------------- path condition
    fn dom_get(&self, st: &State, v: u32) -> Option<[u64; 4]> {
        if let Some(d) = st.dom.get(&v) {
            return Some(*d);
        }
        let i = &self.ar.vars[v as usize];
        if i.hi - i.lo < 256 {
            let mut d = [0u64; 4];
            for k in 0..=(i.hi - i.lo) as usize {
                d[k / 64] |= 1 << (k % 64);
            }
            Some(d)
        } else {
            None
        }
    }
    fn dom_vals(&self, v: u32, d: &[u64; 4]) -> Vec<u128> {
        let lo = self.ar.vars[v as usize].lo;
        (0..256).filter(|k| d[k / 64] >> (k % 64) & 1 == 1).map(|k| lo + k as u128).collect()
    }
    /// add a conjunct; the caller has made sure of the model
    pub fn add_pc(&mut self, st: &mut State, c: T) {
        if self.ar.as_const(c) == Some(1) || st.pc.contains(&c) {
            return;
        }
        let n = self.ar.n(c).key;
        if n.op == O::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if let Some(x) = self.ar.is_not(c) {
            let k = self.ar.n(x).key;
            if k.op == O::Or && k.w == 1 {
                let a = self.ar.not(k.a);
                let b = self.ar.not(k.b);
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
        }
        st.pc.push(c);
        let vs = self.ar.vars_of(c);
        if vs.len() == 1 {
            let v = vs[0];
            if let Some(mut d) = self.dom_get(st, v) {
                let vals = self.dom_vals(v, &d);
                let lo = self.ar.vars[v as usize].lo;
                let mut left = 0;
                let mut last = 0;
                for x in vals {
                    self.ar.begin_eval();
                    if self.ar.eval(c, |_| x) == 0 {
                        let k = (x - lo) as usize;
                        d[k / 64] &= !(1 << (k % 64));
                    } else {
                        left += 1;
                        last = x;
                    }
                }
                st.dom.insert(v, d);
                if left == 1 {
                    st.fixed.insert(v, last);
                }
            } else if n.op == O::Eq && self.ar.n(n.a).key.op == O::Var {
                if let Some(k) = self.ar.as_const(n.b) {
                    st.fixed.insert(v, k);
                }
            } else {
                st.multi.push(c);
            }
        } else {
            st.multi.push(c);
        }
    }
    /// the conjuncts of the path condition connected to the variables of c
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vars: BTreeSet<u32> = self.ar.vars_of(c).iter().copied().collect();
        let mut out = vec![];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = self.ar.vars_of(p);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(p);
                    for &v in vs.iter() {
                        if vars.insert(v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    fn in_pc(&mut self, st: &State, c: T) -> Option<bool> {
        if st.pc.contains(&c) {
            return Some(true);
        }
        let n = self.ar.not(c);
        if st.pc.contains(&n) {
            return Some(false);
        }
        None
    }
    /// can c hold on this path?
    pub fn feasible(&mut self, st: &State, c: T, hard: bool) -> Feas {
        match self.ar.as_const(c) {
            Some(0) => return Feas::No,
            Some(_) => return Feas::Yes(None),
            None => {}
        }
        match self.in_pc(st, c) {
            Some(true) => return Feas::Yes(None),
            Some(false) => return Feas::No,
            None => {}
        }
        if st.model_ok && self.eval_m(&st.model.clone(), c) == 1 {
            self.st.feas_model += 1;
            return Feas::Yes(None);
        }
        // finite domains
        let vs = self.ar.vars_of(c);
        let mut cand: Vec<Vec<(u32, u128)>> = vec![];
        let unf: Vec<u32> = vs.iter().copied().filter(|v| !st.fixed.contains_key(v)).collect();
        if unf.len() <= 3 && !hard {
            let doms: Option<Vec<Vec<u128>>> = unf.iter().map(|&v| self.dom_get(st, v).map(|d| self.dom_vals(v, &d))).collect();
            if let Some(ds) = doms {
                let prod: usize = ds.iter().map(|d| d.len()).product();
                if prod <= 4096 {
                    let fixed = st.fixed.clone();
                    let mut env: FxMap<u32, u128> = Default::default();
                    for v in vs.iter() {
                        if let Some(x) = fixed.get(v) {
                            env.insert(*v, *x);
                        }
                    }
                    for k in 0..prod {
                        let mut r = k;
                        for (i, d) in ds.iter().enumerate() {
                            env.insert(unf[i], d[r % d.len()]);
                            r /= d.len();
                        }
                        self.ar.begin_eval();
                        let e = &env;
                        if self.ar.eval(c, |i| e[&i]) == 1 {
                            cand.push(unf.iter().map(|v| (*v, env[v])).collect());
                            if cand.len() >= 24 {
                                break;
                            }
                        }
                    }
                    if cand.is_empty() {
                        self.st.feas_dom += 1;
                        return Feas::No;
                    }
                }
            }
        }
        if st.model_ok {
            // local repair: other variables as in the model
            let multi: Vec<T> = st.multi.iter().copied().filter(|&p| self.ar.vars_of(p).iter().any(|v| unf.contains(v))).collect();
            if multi.len() <= 64 {
                for cv in &cand {
                    let mut m = (*st.model).clone();
                    for (v, x) in cv {
                        m.insert(*v, *x);
                    }
                    if multi.iter().all(|&p| self.eval_m(&m, p) == 1) {
                        self.st.feas_dom += 1;
                        return Feas::Yes(Some(Rc::new(m)));
                    }
                }
            }
        }
        let mut q = self.slice(st, c);
        q.push(c);
        q.sort_unstable();
        if let Some(false) = self.qcache.get(&q) {
            self.st.feas_cache += 1;
            return Feas::No;
        }
        self.st.feas_solver += 1;
        self.smt.soft = !hard;
        match self.smt.check(&self.ar, &q) {
            Res::Unsat => {
                if self.qcache.len() < 200000 {
                    self.qcache.insert(q, false);
                }
                Feas::No
            }
            Res::Sat(m) => {
                let mut nm = (*st.model).clone();
                for (k, v) in m {
                    nm.insert(k, v);
                }
                // trust but verify
                let nm = Rc::new(nm);
                for &p in &q {
                    if self.eval_m(&nm, p) != 1 {
                        eprintln!("solver model does not satisfy the query under the evaluator");
                        *self.st.incomplete.entry("model mismatch".into()).or_insert(0) += 1;
                        return Feas::Unknown;
                    }
                }
                Feas::Yes(Some(nm))
            }
            Res::Unknown(_) => Feas::Unknown,
        }
    }
    /// assume c; Err(Killed) when impossible
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        let c = self.simp(st, c);
        match self.feasible(st, c, false) {
            Feas::No => Err(Stop::Killed),
            Feas::Yes(None) => {
                self.add_pc(st, c);
                Ok(())
            }
            Feas::Yes(Some(m)) => {
                st.model = m;
                self.add_pc(st, c);
                Ok(())
            }
            Feas::Unknown => {
                self.st.unknown_branches += 1;
                st.model_ok = false;
                self.add_pc(st, c);
                Ok(())
            }
        }
    }
    /// fork over the values of t; the current path takes one value
    fn concretize(&mut self, st: &mut State, t: T) -> R<u128> {
        let t = self.simp(st, t);
        if let Some(k) = self.ar.as_const(t) {
            return Ok(k);
        }
        if self.spec {
            return Err(Stop::Bail);
        }
        if !st.model_ok {
            // need some model
            let q: Vec<T> = st.pc.clone();
            self.smt.soft = false;
            match self.smt.check(&self.ar, &q) {
                Res::Sat(m) => {
                    st.model = Rc::new(m);
                    st.model_ok = true;
                }
                Res::Unsat => return Err(Stop::Killed),
                Res::Unknown(_) => return Err(Stop::Limit("no model for concretisation".into())),
            }
        }
        self.st.conc += 1;
        let m = st.model.clone();
        let v = self.eval_m(&m, t);
        let w = self.ar.w(t);
        let k = self.ar.konst(v, w);
        let eq = self.ar.bin(O::Eq, t, k);
        let ne = self.ar.not(eq);
        match self.feasible(st, ne, false) {
            Feas::No => {}
            f => {
                let mut alt = st.clone();
                match f {
                    Feas::Yes(Some(m)) => alt.model = m,
                    Feas::Yes(None) => {}
                    Feas::Unknown => {
                        alt.model_ok = false;
                        self.st.unknown_branches += 1;
                    }
                    _ => {}
                }
                self.add_pc(&mut alt, ne);
                self.push_alt(alt, "concretise");
            }
        }
        self.add_pc(st, eq);
        Ok(v)
    }
    /// values of t over the finite domains of its variables, under the path conditions that mention only them
    fn finite_vals(&mut self, st: &State, t: T, limit: usize) -> Option<Vec<u128>> {
        let vs = self.ar.vars_of(t);
        let unf: Vec<u32> = vs.iter().copied().filter(|v| !st.fixed.contains_key(v)).collect();
        if unf.len() > 3 {
            return None;
        }
        let mut ds = vec![];
        let mut prod = 1usize;
        for &v in &unf {
            let d = self.dom_get(st, v)?;
            let d = self.dom_vals(v, &d);
            prod = prod.checked_mul(d.len())?;
            if prod > limit {
                return None;
            }
            ds.push(d);
        }
        let multi: Vec<T> = st
            .multi
            .iter()
            .copied()
            .filter(|&p| self.ar.vars_of(p).iter().all(|v| unf.contains(v) || st.fixed.contains_key(v)))
            .collect();
        let mut env: FxMap<u32, u128> = st.fixed.iter().map(|(a, b)| (*a, *b)).collect();
        let mut out = vec![];
        for k in 0..prod {
            let mut r = k;
            for (i, d) in ds.iter().enumerate() {
                env.insert(unf[i], d[r % d.len()]);
                r /= d.len();
            }
            self.ar.begin_eval();
            let e = &env;
            let mut ok = true;
            for &p in &multi {
                if self.ar.eval(p, |i| e[&i]) != 1 {
                    ok = false;
                    break;
                }
            }
            if ok {
                out.push(self.ar.eval(t, |i| e[&i]));
            }
        }
        out.sort_unstable();
        out.dedup();
        Some(out)
    }
    fn push_alt(&mut self, mut alt: State, why: &str) {
        self.st.forks += 1;
        alt.depth += 1;
        if self.cfg.trace {
            let f = alt.top();
            let nm = format!("{} {} {}:{}", why, f.func.name, f.func.blocks[f.blk as usize].name, f.ip);
            *self.forkprof.entry(nm).or_insert(0) += 1;
        }
        self.work.push(alt);
    }

    // ---------------------------------------------------------------- memory
    fn glob(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = &self.glc[g as usize] {
            return Ok(o.clone());
        }
        if self.m.globals[g as usize].init.is_none() {
            return Err(Stop::Unsupported(format!("external global {}", self.m.globals[g as usize].name)));
        }
        let b = self.m.global_init(g);
        let o = Rc::new(Obj { data: (*b).clone(), sym: BTreeMap::new(), ro: self.m.globals[g as usize].constant });
        self.glc[g as usize] = Some(o.clone());
        Ok(o)
    }
    fn obj(&mut self, st: &State, id: u32) -> R<Rc<Obj>> {
        if id >= HEAP_BASE {
            match st.heap.get((id - HEAP_BASE) as usize) {
                Some(Some(o)) => Ok(o.clone()),
                _ => Err(Stop::Mem(format!("access to freed or unknown object {:#x}", id))),
            }
        } else if id == 0 || id as usize > self.m.globals.len() {
            Err(Stop::Mem(format!("access through bad pointer (object {:#x})", id)))
        } else if let Some(o) = st.gl.get(&id) {
            Ok(o.clone())
        } else {
            self.glob(id - 1)
        }
    }
    fn prep_mut(&mut self, st: &mut State, id: u32) -> R<()> {
        if id > 0 && (id as usize) <= self.m.globals.len() && !st.gl.contains_key(&id) {
            let o = self.glob(id - 1)?;
            if o.ro {
                return Err(Stop::Mem("write to constant".into()));
            }
            st.gl.insert(id, o);
        }
        Ok(())
    }
    fn obj_mut<'a>(st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if id >= HEAP_BASE {
            match st.heap.get_mut((id - HEAP_BASE) as usize) {
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => Err(Stop::Mem(format!("write to freed or unknown object {:#x}", id))),
            }
        } else {
            match st.gl.get_mut(&id) {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(Stop::Mem(format!("write through bad pointer (object {:#x})", id))),
            }
        }
    }
    fn rd(&mut self, st: &State, addr: u64, n: u32) -> R<V> {
        let (id, off) = ((addr >> 32) as u32, addr as u32);
        // fast path without Rc traffic
        if id >= HEAP_BASE {
            if let Some(Some(o)) = st.heap.get((id - HEAP_BASE) as usize) {
                if off as u64 + n as u64 <= o.data.len() as u64 {
                    return Ok(o.read(&mut self.ar, off, n));
                }
            }
        }
        let o = self.obj(st, id)?;
        if off as u64 + n as u64 > o.data.len() as u64 {
            return Err(Stop::Mem(format!("read of {} bytes at offset {} of object of {} bytes", n, off, o.data.len())));
        }
        Ok(o.read(&mut self.ar, off, n))
    }
    fn wr(&mut self, st: &mut State, addr: u64, n: u32, v: &V) -> R<()> {
        let (id, off) = ((addr >> 32) as u32, addr as u32);
        if self.spec {
            let old = self.rd(st, addr, n)?;
            self.spec_log.push((addr, n, old.clone()));
            let g = self.spec_guard;
            let ty = Ty::Int(n * 8);
            let nv = self.ite_v(g, v, &old, &ty);
            self.prep_mut(st, id)?;
            Self::obj_mut(st, id)?.write(&mut self.ar, off, n, &nv);
            return Ok(());
        }
        if id < HEAP_BASE {
            self.prep_mut(st, id)?;
        }
        let o = Self::obj_mut(st, id)?;
        if off as u64 + n as u64 > o.data.len() as u64 {
            return Err(Stop::Mem(format!("write of {} bytes at offset {} of object of {} bytes", n, off, o.data.len())));
        }
        o.write(&mut self.ar, off, n, v);
        Ok(())
    }
    fn load_c(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, e) = ty {
                    if let Ty::Int(w) = **e {
                        if w % 8 != 0 {
                            // packed bits
                            let bytes = ty.size() as u32;
                            let v = self.rd(st, addr, bytes)?;
                            let t = self.tt(&v, bytes * 8);
                            let mut out = vec![];
                            for i in 0..*n {
                                let x = self.ar.extract(t, (i * w) as u8, w as u8);
                                out.push(self.vt(x));
                            }
                            return Ok(V::X(Rc::new(Ext::Agg(out))));
                        }
                    }
                }
                let mut out = vec![];
                for i in 0..ty.nelem() {
                    let o = ty.field_off(i);
                    out.push(self.load_c(st, addr + o, &ty.elem(i))?);
                }
                Ok(V::X(Rc::new(Ext::Agg(out))))
            }
            _ => {
                let n = tn(ty);
                if n == 0 {
                    return Ok(V::C(0));
                }
                if st.symtab && n == 2 {
                    let id = (addr >> 32) as u32;
                    if id > 0 && id < HEAP_BASE {
                        let o = self.obj(st, id)?;
                        if o.ro && o.data.len() >= 16000 {
                            if let Some(&t) = st.symcells.get(&addr) {
                                return Ok(V::S(t));
                            }
                            let ord = 1_000_000 + st.symcells.len() as u32;
                            let t = self.ar.var(ord, 16, 4096, 40959, 1);
                            st.symcells.insert(addr, t);
                            return Ok(V::S(t));
                        }
                    }
                }
                let v = self.rd(st, addr, n)?;
                if let Ty::Int(w) = ty {
                    if w % 8 != 0 {
                        return Ok(match v {
                            V::C(c) => V::C(c & (mask(*w as u8) as u64)),
                            V::S(t) => {
                                let x = self.ar.extract(t, 0, *w as u8);
                                self.vt(x)
                            }
                            x => x,
                        });
                    }
                }
                Ok(self.simp_v(st, v))
            }
        }
    }
    fn store_c(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let Ty::Vec(_, e) = ty {
                    if let Ty::Int(w) = **e {
                        if w % 8 != 0 {
                            let b = self.bits(v, ty);
                            let n = ty.size() as u32;
                            let z = self.ar.zext(b, (n * 8) as u8);
                            let z = self.vt(z);
                            return self.wr(st, addr, n, &z);
                        }
                    }
                }
                let z;
                let a = match v.agg() {
                    Some(a) => a,
                    None => {
                        z = self.zero(ty);
                        z.agg().unwrap()
                    }
                };
                for i in 0..ty.nelem() {
                    self.store_c(st, addr + ty.field_off(i), &ty.elem(i), &a[i])?;
                }
                Ok(())
            }
            _ => {
                let n = tn(ty);
                if n == 0 {
                    return Ok(());
                }
                if let (Ty::Int(w), V::S(t)) = (ty, v) {
                    if w % 8 != 0 {
                        let z = self.ar.zext(*t, (n * 8) as u8);
                        let z = self.vt(z);
                        return self.wr(st, addr, n, &z);
                    }
                }
                self.wr(st, addr, n, v)
            }
        }
    }
    /// flatten to one bit-vector, first element least significant
    fn bits(&mut self, v: &V, ty: &Ty) -> T {
        if ty.is_agg() {
            let z;
            let a = match v.agg() {
                Some(a) => a.clone(),
                None => {
                    z = self.zero(ty);
                    z.agg().unwrap().clone()
                }
            };
            let mut acc: Option<T> = None;
            for i in 0..ty.nelem() {
                let x = self.bits(&a[i], &ty.elem(i));
                acc = Some(match acc {
                    None => x,
                    Some(p) => self.ar.concat(x, p),
                });
            }
            acc.unwrap()
        } else {
            self.tt(v, ty.bits())
        }
    }
    fn unbits(&mut self, t: T, ty: &Ty, off: &mut u32) -> V {
        if ty.is_agg() {
            let mut out = vec![];
            for i in 0..ty.nelem() {
                out.push(self.unbits(t, &ty.elem(i), off));
            }
            V::X(Rc::new(Ext::Agg(out)))
        } else {
            let w = ty.bits();
            let x = self.ar.extract(t, *off as u8, w as u8);
            *off += w;
            self.vt(x)
        }
    }
    /// (index term, stride, constant base, lo idx, hi idx) of a symbolic address
    fn decompose(&mut self, t: T) -> (T, u64, u64, u64, u64) {
        let n = self.ar.n(t).key;
        let (rest, base) = if n.op == O::Add && self.ar.as_const(n.b).is_some() { (n.a, self.ar.as_const(n.b).unwrap() as u64) } else { (t, 0) };
        let rn = *self.ar.n(rest);
        let k = rn.key;
        let (idx, stride) = if k.op == O::Mul && self.ar.as_const(k.b).is_some() {
            (k.a, self.ar.as_const(k.b).unwrap() as u64)
        } else if k.op == O::Shl && self.ar.as_const(k.b).is_some() {
            (k.a, 1u64 << self.ar.as_const(k.b).unwrap())
        } else if k.op == O::ZExt && matches!(self.ar.n(k.a).key.op, O::Shl) && self.ar.as_const(self.ar.n(k.a).key.b).is_some() {
            let i = self.ar.n(k.a).key;
            (i.a, 1u64 << self.ar.as_const(i.b).unwrap())
        } else {
            let tz = ((!rn.kz) as u64).trailing_zeros().min(31);
            if tz > 0 {
                let kk = self.ar.konst(tz as u128, 64);
                (self.ar.bin(O::LShr, rest, kk), 1 << tz)
            } else {
                (rest, 1)
            }
        };
        // is idx*stride non-wrapping in 64 bits?
        let ix = *self.ar.n(idx);
        if (ix.hi as u128).checked_mul(stride as u128).map_or(true, |v| v > u64::MAX as u128) {
            let rn = *self.ar.n(rest);
            return (rest, 1, base, rn.lo as u64, rn.hi as u64);
        }
        (idx, stride, base, ix.lo as u64, ix.hi as u64)
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        match p {
            V::C(a) => self.load_c(st, *a, ty),
            V::S(t) => {
                let t = self.simp(st, *t);
                if let Some(k) = self.ar.as_const(t) {
                    return self.load_c(st, k as u64, ty);
                }
                if st.forkidx {
                    let k = self.concretize(st, t)?;
                    return self.load_c(st, k as u64, ty);
                }
                self.load_s(st, t, ty)
            }
            _ => Err(Stop::Unsupported("pointer".into())),
        }
    }
    fn load_s(&mut self, st: &mut State, t: T, ty: &Ty) -> R<V> {
        if ty.is_agg() {
            let mut out = vec![];
            for i in 0..ty.nelem() {
                let k = self.ar.konst(ty.field_off(i) as u128, 64);
                let a = self.ar.bin(O::Add, t, k);
                out.push(self.load(st, &V::S(a), &ty.elem(i))?);
            }
            return Ok(V::X(Rc::new(Ext::Agg(out))));
        }
        // pointers chosen by ITE
        {
            let n = self.ar.n(t).key;
            if n.op == O::Ite {
                let (c, a, b) = (n.a, n.b, n.c);
                if self.ar.as_const(a).is_some() || self.ar.as_const(b).is_some() {
                    let (va, vb) = (self.vt(a), self.vt(b));
                    // both arms must be readable whatever the condition; otherwise fork
                    let ra = self.load(st, &va, ty);
                    let rb = self.load(st, &vb, ty);
                    if let (Ok(ra), Ok(rb)) = (&ra, &rb) {
                        return Ok(self.ite_v(c, ra, rb, ty));
                    }
                    let v = self.concretize(st, t)?;
                    return self.load_c(st, v as u64, ty);
                }
            }
        }
        let n = tn(ty);
        let (idx, stride, base, lo, hi) = self.decompose(t);
        // feasible range given the path: bounds check through the solver
        let cnt = hi - lo + 1;
        let a_lo = base.wrapping_add(lo.wrapping_mul(stride));
        let a_hi = base.wrapping_add(hi.wrapping_mul(stride));
        let id = (a_lo >> 32) as u32;
        // a rom of pointers
        let k = self.ar.n(idx).key;
        if k.op == O::Sel && stride == 1 {
            let rom = self.ar.roms[k.k as usize].clone();
            let x = *self.ar.n(k.a);
            let l = x.lo as usize;
            let h = x.hi as usize;
            if h < rom.vals.len() && h - l < 4096 {
                let mut vals = vec![0u128; h + 1];
                let mut ok = true;
                for i in l..=h {
                    match self.load_c(st, base.wrapping_add(rom.vals[i] as u64), ty) {
                        Ok(v) => match v.conc() {
                            Some(c) => vals[i] = c,
                            None => ok = false,
                        },
                        Err(_) => ok = false,
                    }
                    if !ok {
                        break;
                    }
                }
                if ok {
                    let w = ty.bits() as u8;
                    let f = vals[l];
                    for v in vals.iter_mut().take(l) {
                        *v = f;
                    }
                    let r = self.ar.rom(w, vals, "ptr");
                    let s = self.ar.sel(r, k.a);
                    return Ok(self.vt(s));
                }
            }
        }
        if a_hi >= a_lo && (a_hi >> 32) as u32 == id && cnt <= 1 << 18 {
            let o = self.obj(st, id)?;
            let len = o.data.len() as u64;
            let (olo, ohi) = (a_lo as u32 as u64, a_hi as u32 as u64);
            // clip to the object
            let mut top = hi;
            if ohi + n as u64 > len {
                if olo + n as u64 > len {
                    return Err(Stop::Mem(format!("read beyond object of {} bytes", len)));
                }
                top = lo + (len - n as u64 - olo) / stride;
                let w = self.ar.w(idx);
                let k = self.ar.konst(top as u128 + 1, w);
                let inb = self.ar.bin(O::Ult, idx, k);
                self.require(st, inb, "read out of bounds")?;
            }
            let lo_off = olo;
            let cnt = top - lo + 1;
            let w = ty.bits() as u8;
            let any_sym = !o.sym.is_empty() && (0..cnt).any(|i| o.has_sym((lo_off + i * stride) as u32, n));
            if !any_sym {
                let ckey = (o.data.as_ptr() as u64, n * 256 + w as u32, lo_off - lo.wrapping_mul(stride).min(lo_off), stride, 0u8);
                let cacheable = o.ro && id < HEAP_BASE && lo == 0;
                let rid = if cacheable { self.romcache.get(&(ckey.0, ckey.1, lo_off ^ (top << 32), stride, 1)).copied() } else { None };
                let rid = match rid {
                    Some(r) => r,
                    None => {
                        let mut vals = Vec::with_capacity(cnt as usize + 4096);
                        // index is used unshifted; pad below lo (small) or shift
                        let pad = if lo <= 4096 { lo } else { 0 };
                        for _ in 0..pad {
                            vals.push(o.read_c(lo_off as u32, n) & mask(w));
                        }
                        for i in 0..cnt {
                            vals.push(o.read_c((lo_off + i * stride) as u32, n) & mask(w));
                        }
                        let r = self.ar.rom(w, vals, "");
                        if cacheable {
                            self.romcache.insert((ckey.0, ckey.1, lo_off ^ (top << 32), stride, 1), r);
                        }
                        r
                    }
                };
                let ix = if lo > 4096 {
                    let wi = self.ar.w(idx);
                    let k = self.ar.konst(lo as u128, wi);
                    self.ar.bin(O::Sub, idx, k)
                } else {
                    idx
                };
                // narrow the index
                let hi_ix = if lo > 4096 { cnt - 1 } else { top };
                let bits = (64 - hi_ix.leading_zeros()).max(1) as u8;
                let ix = if self.ar.w(ix) > bits { self.ar.extract(ix, 0, bits) } else { ix };
                let s = self.ar.sel(rid, ix);
                return Ok(self.vt(s));
            }
            if cnt <= 300 {
                let wi = self.ar.w(idx);
                let mut acc = o.read(&mut self.ar, (lo_off + (cnt - 1) * stride) as u32, n);
                let nb = n * 8;
                for i in (0..cnt - 1).rev() {
                    let v = o.read(&mut self.ar, (lo_off + i * stride) as u32, n);
                    let k = self.ar.konst((lo + i) as u128, wi);
                    let c = self.ar.bin(O::Eq, idx, k);
                    acc = self.ite_v(c, &v, &acc, &Ty::Int(nb));
                }
                if w as u32 != nb {
                    let x = self.tt(&acc, nb);
                    let x = self.ar.extract(x, 0, w);
                    acc = self.vt(x);
                }
                return Ok(acc);
            }
        }
        // an address whose interval is useless but whose variables have small domains
        if let Some(vals) = self.finite_vals(st, t, 1 << 14) {
            if let (Some(&a), Some(&b)) = (vals.first(), vals.last()) {
                let (a, b) = (a as u64, b as u64);
                if a != b && (a >> 32) == (b >> 32) && b - a < 1 << 17 {
                    let o = self.obj(st, (a >> 32) as u32)?;
                    let inside = (b as u32 as u64) + n as u64 <= o.data.len() as u64;
                    let sh = vals.iter().fold(0u64, |g, v| g | (*v as u64 - a)).trailing_zeros();
                    let any_sym = !o.sym.is_empty() && vals.iter().any(|v| o.has_sym(*v as u32, n));
                    if inside && !any_sym {
                        let w = ty.bits() as u8;
                        let cnt = ((b - a) >> sh) + 1;
                        let mut rv = vec![o.read_c(a as u32, n) & mask(w); cnt as usize];
                        for v in &vals {
                            let off = *v as u64;
                            rv[((off - a) >> sh) as usize] = o.read_c(off as u32, n) & mask(w);
                        }
                        // cells between reachable ones: repeat the previous value (keeps the table small)
                        let mut last = rv[0];
                        let mut j = 0;
                        for (i, x) in rv.iter_mut().enumerate() {
                            if j < vals.len() && (vals[j] as u64 - a) >> sh == i as u64 {
                                last = *x;
                                j += 1;
                            } else {
                                *x = last;
                            }
                        }
                        let r = self.ar.rom(w, rv, "");
                        let ka = self.ar.konst(a as u128, 64);
                        let d = self.ar.bin(O::Sub, t, ka);
                        let bits = (64 - (cnt - 1).leading_zeros()).max(1) as u8;
                        let ix = self.ar.extract(d, sh as u8, bits);
                        let s = self.ar.sel(r, ix);
                        return Ok(self.vt(s));
                    }
                }
            }
        }
        let v = self.concretize(st, t)?;
        self.load_c(st, v as u64, ty)
    }
    /// a condition whose failure is undefined behaviour: report it when feasible, then assume it
    fn require(&mut self, st: &mut State, c: T, what: &str) -> R<()> {
        let nc = self.ar.not(c);
        if self.spec {
            return match self.in_pc(st, c) {
                Some(true) => Ok(()),
                _ => Err(Stop::Bail),
            };
        }
        match self.feasible(st, nc, false) {
            Feas::No => Ok(()),
            Feas::Yes(m) => {
                let mut bad = st.clone();
                if let Some(m) = m {
                    bad.model = m;
                }
                self.add_pc(&mut bad, nc);
                self.candidate(&mut bad, "memory", 0, what);
                self.assume(st, c)
            }
            Feas::Unknown => {
                self.st.unknown_branches += 1;
                self.assume(st, c)
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        let t = match p {
            V::C(a) => return self.store_c(st, *a, ty, v),
            V::S(t) => self.simp(st, *t),
            _ => return Err(Stop::Unsupported("pointer".into())),
        };
        if let Some(k) = self.ar.as_const(t) {
            return self.store_c(st, k as u64, ty, v);
        }
        if !ty.is_agg() {
            let n = tn(ty);
            let (idx, stride, base, lo, hi) = self.decompose(t);
            let cnt = hi - lo + 1;
            let a_lo = base.wrapping_add(lo.wrapping_mul(stride));
            let a_hi = base.wrapping_add(hi.wrapping_mul(stride));
            let id = (a_lo >> 32) as u32;
            if cnt <= 64 && stride >= n as u64 && a_hi >= a_lo && (a_hi >> 32) as u32 == id {
                let o = self.obj(st, id)?;
                if (a_hi as u32 as u64) + n as u64 <= o.data.len() as u64 {
                    let wi = self.ar.w(idx);
                    let bytes = Ty::Int(n * 8);
                    let v8 = match v {
                        V::S(x) if self.ar.w(*x) as u32 != n * 8 => {
                            let z = self.ar.zext(*x, (n * 8) as u8);
                            self.vt(z)
                        }
                        x => x.clone(),
                    };
                    for i in 0..cnt {
                        let a = a_lo + i * stride;
                        let old = self.rd(st, a, n)?;
                        let k = self.ar.konst((lo + i) as u128, wi);
                        let c = self.ar.bin(O::Eq, idx, k);
                        let nv = self.ite_v(c, &v8, &old, &bytes);
                        self.wr(st, a, n, &nv)?;
                    }
                    return Ok(());
                }
            }
        }
        let a = self.concretize(st, t)?;
        self.store_c(st, a as u64, ty, v)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let so = self.obj(st, (s >> 32) as u32)?;
        let soff = s as u32;
        if soff as u64 + n > so.data.len() as u64 {
            return Err(Stop::Mem("copy reads out of bounds".into()));
        }
        if self.spec {
            if n > 64 {
                return Err(Stop::Bail);
            }
            let mut i = 0;
            let mut vals = vec![];
            while i < n {
                let k = (n - i).min(8);
                vals.push((i, k, so.read(&mut self.ar, soff + i as u32, k as u32)));
                i += k;
            }
            for (i, k, v) in vals {
                self.wr(st, d + i, k as u32, &v)?;
            }
            return Ok(());
        }
        // gather source
        let data = so.data[soff as usize..(soff as u64 + n) as usize].to_vec();
        let mut syms: Vec<(u32, T, u8)> = vec![];
        if !so.sym.is_empty() {
            let lo = soff.saturating_sub(15);
            let end = soff as u64 + n;
            let hits: Vec<(u32, T, u8)> = so
                .sym
                .range(lo..)
                .take_while(|(&o, _)| (o as u64) < end)
                .filter(|(&o, &(_, k))| o + k as u32 > soff)
                .map(|(&o, &(t, k))| (o, t, k))
                .collect();
            for (o, t, k) in hits {
                let (mut o2, mut t2, mut k2) = (o, t, k as u32);
                if o2 < soff {
                    let cut = soff - o2;
                    t2 = self.ar.extract(t2, (cut * 8) as u8, ((k2 - cut) * 8) as u8);
                    o2 = soff;
                    k2 -= cut;
                }
                if o2 as u64 + k2 as u64 > end {
                    let keep = (end - o2 as u64) as u32;
                    t2 = self.ar.extract(t2, 0, (keep * 8) as u8);
                    k2 = keep;
                }
                syms.push((o2 - soff, t2, k2 as u8));
            }
        }
        drop(so);
        self.prep_mut(st, (d >> 32) as u32)?;
        let doff = d as u32;
        let ar = &mut self.ar;
        {
            let o = Self::obj_mut(st, (d >> 32) as u32)?;
            if doff as u64 + n > o.data.len() as u64 {
                return Err(Stop::Mem("copy writes out of bounds".into()));
            }
            // clear symbolic bytes
            if !o.sym.is_empty() {
                o.clear_sym(ar, doff, n as u32);
            }
            o.data[doff as usize..(doff as u64 + n) as usize].copy_from_slice(&data);
            for (off, t, k) in syms {
                match ar.as_const(t) {
                    Some(c) => o.write_c(doff + off, k as u32, c),
                    None => {
                        o.sym.insert(doff + off, (t, k));
                    }
                }
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- reporting
    pub fn input_values(&mut self, st: &State) -> Vec<u64> {
        let m = st.model.clone();
        let ins = st.inputs.clone();
        ins.iter()
            .map(|i| match i {
                Input::Fixed(v) => *v,
                Input::Term(t) => self.eval_m(&m, *t) as u64,
            })
            .collect()
    }
    fn candidate(&mut self, st: &mut State, kind: &str, id: u64, msg: &str) {
        if !st.model_ok {
            let q = st.pc.clone();
            let old = self.smt.inc_ms;
            self.smt.inc_ms = 0;
            self.smt.soft = false;
            let r = self.smt.check(&self.ar, &q);
            self.smt.inc_ms = old;
            match r {
                Res::Sat(m) => {
                    st.model = Rc::new(m);
                    st.model_ok = true;
                }
                Res::Unsat => return,
                Res::Unknown(_) => {
                    *self.st.incomplete.entry(format!("no model for {} {}", kind, id)).or_insert(0) += 1;
                    return;
                }
            }
        }
        let inputs = self.input_values(st);
        let stack: Vec<String> = st.threads[st.cur].frames.iter().rev().take(12).map(|f| f.func.name.clone()).collect();
        let mut extra = String::new();
        if !st.symcells.is_empty() {
            let mut cells: Vec<(u64, T)> = st.symcells.iter().map(|(a, t)| (*a, *t)).collect();
            cells.sort();
            let m = st.model.clone();
            for (a, t) in cells {
                extra.push_str(&format!("{}:{},", a as u32, self.eval_m(&m, t)));
            }
        }
        self.cands.push(Cand { kind: kind.into(), id, msg: msg.into(), inputs, stack, sched: st.sched.clone(), extra });
    }
    fn check_assert(&mut self, st: &mut State, c: T, id: u64) -> R<()> {
        self.st.asserts += 1;
        *self.reach.entry(id).or_insert(0) += 1;
        let c = self.simp(st, c);
        match self.ar.as_const(c) {
            Some(1) => {
                self.st.asserts_folded += 1;
                return Ok(());
            }
            _ => {}
        }
        let nc = self.ar.not(c);
        let before = self.smt.stats.queries;
        let r = if self.ar.as_const(c) == Some(0) { Feas::Yes(None) } else { self.feasible(st, nc, true) };
        if self.smt.stats.queries > before {
            self.st.asserts_solver += 1;
        } else {
            self.st.asserts_finite += 1;
        }
        match r {
            Feas::No => {
                Ok(())
            }
            Feas::Yes(m) => {
                let mut bad = st.clone();
                if let Some(m) = m {
                    bad.model = m;
                }
                self.add_pc(&mut bad, nc);
                self.candidate(&mut bad, "assert", id, "assertion can fail");
                // where it holds is not pursued: what follows would be decided under a condition that can be as hard as any
                Err(Stop::Killed)
            }
            Feas::Unknown => {
                self.st.unknown_asserts += 1;
                *self.st.incomplete.entry(format!("assert {} undecided", id)).or_insert(0) += 1;
                Ok(())
            }
        }
    }

    // ---------------------------------------------------------------- driver
    pub fn start(&mut self, entry: &str) -> State {
        let fi = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(fi);
        self.funcs.insert(fi);
        let fr = Frame { regs: vec![V::C(0); f.nslots as usize], func: f, blk: 0, ip: 0, allocas: vec![], dst: None, normal: None };
        State {
            heap: vec![],
            free: vec![],
            gl: Default::default(),
            threads: vec![Thread { frames: vec![fr], stat: TStat::Run, tls: vec![], keys: vec![], errno: 0, at_sync: false, dtor_rounds: 0 }],
            cur: 0,
            pc: vec![],
            multi: vec![],
            dom: Default::default(),
            fixed: Default::default(),
            model: Default::default(),
            model_ok: true,
            inputs: vec![],
            nsym: 0,
            steps: 0,
            obs: vec![],
            symcells: Default::default(),
            key_dtors: vec![],
            clock: 1_000_000_000,
            rng: self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            merge: true,
            symtab: false,
            forkidx: false,
            preempt: 0,
            choice: 0,
            firsts: 0,
            sched: vec![],
            depth: 0,
        }
    }
    pub fn run(&mut self, entry: &str) {
        let s = self.start(entry);
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            if !self.cands.is_empty() && self.first_cand.is_none() {
                self.first_cand = Some(Instant::now());
            }
            let late = self.first_cand.map_or(false, |t| t.elapsed().as_secs() > 15);
            if self.t0.elapsed() > self.cfg.time || self.cands.len() >= self.cfg.max_cands || late {
                self.st.unexplored += 1 + self.work.len() as u64;
                self.st.timed_out = self.t0.elapsed() > self.cfg.time;
                break;
            }
            let s0 = s.steps;
            let r = self.run_path(&mut s);
            self.st.steps += s.steps - s0;
            match r {
                Ok(()) | Err(Stop::Done) => {
                    self.st.paths += 1;
                    if self.witnesses.len() < self.cfg.witnesses && s.model_ok && (self.st.paths % 7 == 1 || self.witnesses.len() < 3) {
                        let iv = self.input_values(&s);
                        let m = s.model.clone();
                        let obs = s.obs.clone();
                        let ov = obs
                            .iter()
                            .map(|v| match v {
                                V::C(c) => *c,
                                V::S(t) => self.eval_m(&m, *t) as u64,
                                _ => 0,
                            })
                            .collect();
                        self.witnesses.push((iv, ov));
                    }
                }
                Err(Stop::Killed) => self.st.killed += 1,
                Err(Stop::Panic(msg)) => {
                    self.st.paths += 1;
                    self.candidate(&mut s, "panic", 0, &msg);
                }
                Err(Stop::Mem(msg)) => {
                    self.st.paths += 1;
                    self.candidate(&mut s, "memory", 0, &msg);
                }
                Err(Stop::Deadlock(msg)) => {
                    self.st.paths += 1;
                    self.candidate(&mut s, "deadlock", 0, &msg);
                }
                Err(Stop::Limit(m)) if m == "step bound" || m == "call depth" || m == "huge allocation" => {
                    self.st.paths += 1;
                    *self.st.incomplete.entry(m.clone()).or_insert(0) += 1;
                    self.candidate(&mut s, "hang", 0, &m);
                }
                Err(Stop::Stopped) => {
                    self.st.timed_out = true;
                    self.st.unexplored += 1 + self.work.len() as u64;
                    break;
                }
                Err(e) => {
                    let mut at = String::new();
                    if self.cfg.trace {
                        for f in s.threads[s.cur].frames.iter().rev().take(6) {
                            at.push_str(&format!(" < {}:{}:{}", f.func.name, f.func.blocks[f.blk as usize].name, f.ip));
                        }
                    }
                    *self.st.incomplete.entry(format!("{:?}{}", e, at)).or_insert(0) += 1;
                }
            }
        }
    }
    fn run_path(&mut self, st: &mut State) -> R<()> {
        'outer: loop {
            if st.threads[st.cur].frames.is_empty() {
                self.thread_end(st)?;
                continue;
            }
            let func = st.top().func.clone();
            loop {
                st.steps += 1;
                if st.steps & 0xfff == 0 {
                    if st.steps > self.cfg.max_steps {
                        return Err(Stop::Limit("step bound".into()));
                    }
                    if self.t0.elapsed() > self.cfg.time {
                        return Err(Stop::Stopped);
                    }
                    // no thread runs for ever while others wait
                    if st.steps & 0x7ff_fff == 0 && st.threads.len() > 1 {
                        let n = st.threads.len();
                        if let Some(i) = (1..n).map(|d| (st.cur + d) % n).find(|&i| st.threads[i].stat == TStat::Run) {
                            st.cur = i;
                            continue 'outer;
                        }
                    }
                }
                let (blk, ip) = {
                    let f = st.top();
                    (f.blk, f.ip)
                };
                let inst = &func.blocks[blk as usize].insts[ip as usize];
                match self.exec(st, &func, inst)? {
                    Ctl::Next => st.top().ip += 1,
                    Ctl::Goto(b) => self.goto(st, &func, b),
                    Ctl::Reframe => continue 'outer,
                }
            }
        }
    }
    fn goto(&mut self, st: &mut State, func: &Rc<Func>, b: u32) {
        let cur = st.cur;
        let f = st.threads[cur].frames.last_mut().unwrap();
        let pred = f.blk;
        let phis = &func.blocks[b as usize].phis;
        if !phis.is_empty() {
            if phis.len() == 1 {
                let p = &phis[0];
                let o = &p.inc.iter().find(|x| x.0 == pred).expect("phi").1;
                let v = self.get(f, o, &p.ty);
                f.regs[p.dst as usize] = v;
            } else {
                let vals: Vec<V> = phis.iter().map(|p| self.get(f, &p.inc.iter().find(|x| x.0 == pred).expect("phi").1, &p.ty)).collect();
                for (p, v) in phis.iter().zip(vals) {
                    f.regs[p.dst as usize] = v;
                }
            }
        }
        f.blk = b;
        f.ip = 0;
    }

    // ---------------------------------------------------------------- instructions
    fn exec(&mut self, st: &mut State, func: &Rc<Func>, inst: &Inst) -> R<Ctl> {
        let cur = st.cur;
        macro_rules! fr {
            () => {
                st.threads[cur].frames.last_mut().unwrap()
            };
        }
        match inst {
            Inst::Br(b) => return Ok(Ctl::Goto(*b)),
            Inst::CondBr(c, a, b) => {
                let v = self.gets(fr!(), c);
                let t = match v {
                    V::C(k) => return Ok(Ctl::Goto(if k & 1 == 1 { *a } else { *b })),
                    V::S(t) => t,
                    _ => return Err(Stop::Unsupported("cond".into())),
                };
                let t = self.simp(st, t);
                if let Some(k) = self.ar.as_const(t) {
                    return Ok(Ctl::Goto(if k == 1 { *a } else { *b }));
                }
                if a == b {
                    return Ok(Ctl::Goto(*a));
                }
                return self.branch(st, func, t, *a, *b);
            }
            Inst::Switch { w, v, default, cases } => {
                let v = self.gets(fr!(), v);
                let v = self.simp_v(st, v);
                match v {
                    V::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*default);
                        return Ok(Ctl::Goto(t));
                    }
                    V::S(t) => return self.switch(st, func, *w, t, *default, cases),
                    _ => return Err(Stop::Unsupported("switch".into())),
                }
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some(o) => Some(self.gets(fr!(), o)),
                    None => None,
                };
                return self.ret(st, v);
            }
            Inst::Unreachable => return Err(Stop::Mem("reached 'unreachable' (undefined behaviour or abort)".into())),
            Inst::Resume => return Err(Stop::Unsupported("unwinding".into())),
            Inst::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
            Inst::Call { dst, ret, callee, args, normal } => return self.call(st, *dst, ret, callee, args, *normal),
            Inst::Rmw { dst, op, ty, ptr, val } => {
                self.sync_point(st)?;
                let p = self.gets(fr!(), ptr);
                let v = self.gets(fr!(), val);
                let old = self.load(st, &p, ty)?;
                let w = ty.bits();
                let new = match op {
                    RmwOp::Xchg => v,
                    _ => {
                        let (a, b) = (self.tt(&old, w), self.tt(&v, w));
                        let r = match op {
                            RmwOp::Add => self.ar.bin(O::Add, a, b),
                            RmwOp::Sub => self.ar.bin(O::Sub, a, b),
                            RmwOp::And => self.ar.bin(O::And, a, b),
                            RmwOp::Or => self.ar.bin(O::Or, a, b),
                            RmwOp::Xor => self.ar.bin(O::Xor, a, b),
                            RmwOp::Nand => {
                                let x = self.ar.bin(O::And, a, b);
                                let m = self.ar.konst(mask(w as u8), w as u8);
                                self.ar.bin(O::Xor, x, m)
                            }
                            RmwOp::UMax | RmwOp::UMin => {
                                let c = self.ar.bin(O::Ult, a, b);
                                if *op == RmwOp::UMax {
                                    self.ar.ite(c, b, a)
                                } else {
                                    self.ar.ite(c, a, b)
                                }
                            }
                            RmwOp::Max | RmwOp::Min => {
                                let c = self.ar.bin(O::Slt, a, b);
                                if *op == RmwOp::Max {
                                    self.ar.ite(c, b, a)
                                } else {
                                    self.ar.ite(c, a, b)
                                }
                            }
                            RmwOp::Xchg => unreachable!(),
                        };
                        self.vt(r)
                    }
                };
                self.store(st, &p, ty, &new)?;
                st.set(*dst, old);
                st.threads[st.cur].at_sync = false;
                return Ok(Ctl::Next);
            }
            Inst::CmpXchg { dst, ty, ptr, cmp, new } => {
                self.sync_point(st)?;
                let p = self.gets(fr!(), ptr);
                let c = self.gets(fr!(), cmp);
                let n = self.gets(fr!(), new);
                let old = self.load(st, &p, ty)?;
                let w = ty.bits();
                let (a, b) = (self.tt(&old, w), self.tt(&c, w));
                let e = self.ar.bin(O::Eq, a, b);
                let nv = self.ite_v(e, &n, &old, ty);
                self.store(st, &p, ty, &nv)?;
                let ev = self.vt(e);
                st.set(*dst, V::X(Rc::new(Ext::Agg(vec![old, ev]))));
                st.threads[st.cur].at_sync = false;
                return Ok(Ctl::Next);
            }
            Inst::Load { dst, ty, ptr, atomic } => {
                if *atomic {
                    self.sync_point(st)?;
                }
                let p = self.gets(fr!(), ptr);
                let v = self.load(st, &p, ty)?;
                st.set(*dst, v);
                if *atomic {
                    st.threads[st.cur].at_sync = false;
                }
                return Ok(Ctl::Next);
            }
            Inst::Store { ty, val, ptr, atomic } => {
                if *atomic {
                    self.sync_point(st)?;
                }
                let p = self.gets(fr!(), ptr);
                let v = self.get(fr!(), val, ty);
                self.store(st, &p, ty, &v)?;
                if *atomic {
                    st.threads[st.cur].at_sync = false;
                }
                return Ok(Ctl::Next);
            }
            Inst::Alloca { dst, size, count } => {
                let n = match count {
                    None => *size,
                    Some((o, _)) => {
                        let v = self.gets(fr!(), o);
                        match self.simp_v(st, v).conc() {
                            Some(c) => *size * c as u64,
                            None => return Err(Stop::Unsupported("symbolic alloca".into())),
                        }
                    }
                };
                if self.spec {
                    return Err(Stop::Bail);
                }
                let id = st.alloc(n as usize);
                let f = fr!();
                f.allocas.push(id);
                f.regs[*dst as usize] = V::C((id as u64) << 32);
                return Ok(Ctl::Next);
            }
            _ => {
                let v = self.pure(st, inst)?;
                if let Some((d, v)) = v {
                    st.set(d, v);
                }
                Ok(Ctl::Next)
            }
        }
    }
    fn pure(&mut self, st: &mut State, inst: &Inst) -> R<Option<(u32, V)>> {
        let fr: &Frame = st.threads[st.cur].frames.last().unwrap();
        Ok(Some(match inst {
            Inst::Bin { op, ty, dst, a, b } => {
                let (x, y) = (self.get(fr, a, ty), self.get(fr, b, ty));
                let mut r = self.binop(*op, ty, &x, &y)?;
                if let (BinOp::URem | BinOp::UDiv, V::S(t)) = (*op, &r) {
                    // greatest common divisors and the like: often one value only
                    let t = *t;
                    if let Some(vs) = self.finite_vals(st, t, 512) {
                        if vs.len() == 1 && vs[0] <= u64::MAX as u128 {
                            r = V::C(vs[0] as u64);
                        }
                    }
                }
                (*dst, r)
            }
            Inst::ICmp { pred, ty, dst, a, b } => {
                let (x, y) = (self.get(fr, a, ty), self.get(fr, b, ty));
                (*dst, self.icmp(*pred, ty, &x, &y))
            }
            Inst::FCmp { pred, ty, dst, a, b } => {
                let (x, y) = (self.get(fr, a, ty), self.get(fr, b, ty));
                if ty.is_agg() {
                    return Err(Stop::Unsupported("vector fcmp".into()));
                }
                let w = ty.bits();
                let (x, y) = (self.tt(&x, w), self.tt(&y, w));
                let r = match *pred {
                    0 => self.ar.fls(),
                    15 => self.ar.tru(),
                    p => self.ar.fp(O::FCmp, 1, x, y, p as u128),
                };
                (*dst, self.vt(r))
            }
            Inst::FNeg { ty, dst, a } => {
                let x = self.get(fr, a, ty);
                let w = ty.bits();
                let x = self.tt(&x, w);
                let r = self.ar.fp(O::FNeg, w as u8, x, NIL, 0);
                (*dst, self.vt(r))
            }
            Inst::Cast { op, from, to, dst, a } => {
                let x = self.get(fr, a, from);
                (*dst, self.cast(*op, from, to, &x)?)
            }
            Inst::Select { dst, cty, ty, c, a, b } => {
                let c = self.get(fr, c, cty);
                let x = self.get(fr, a, ty);
                let y = self.get(fr, b, ty);
                if cty.is_agg() {
                    let n = cty.nelem();
                    let (cv, xv, yv) = (c.agg().unwrap().clone(), x.agg().unwrap().clone(), y.agg().unwrap().clone());
                    let mut out = vec![];
                    for i in 0..n {
                        let t = self.tt(&cv[i], 1);
                        out.push(self.ite_v(t, &xv[i], &yv[i], &ty.elem(i)));
                    }
                    (*dst, V::X(Rc::new(Ext::Agg(out))))
                } else {
                    match c {
                        V::C(k) => (*dst, if k & 1 == 1 { x } else { y }),
                        V::S(t) => (*dst, self.ite_v(t, &x, &y, ty)),
                        _ => return Err(Stop::Unsupported("select".into())),
                    }
                }
            }
            Inst::Gep { dst, base, off, steps } => {
                let b = self.gets(fr, base);
                let mut c: u64 = *off as u64;
                let mut t: Option<T> = None;
                match b {
                    V::C(k) => c = c.wrapping_add(k),
                    V::S(x) => t = Some(x),
                    _ => return Err(Stop::Unsupported("gep on vector".into())),
                }
                for (o, w, scale) in steps {
                    match self.gets(fr, o) {
                        V::C(k) => c = c.wrapping_add((sext(k as u128, *w) as i64).wrapping_mul(*scale) as u64),
                        V::S(x) => {
                            let x = if *w < 64 { self.ar.sext(x, 64) } else { x };
                            let k = self.ar.konst(*scale as u64 as u128, 64);
                            let m = self.ar.bin(O::Mul, x, k);
                            t = Some(match t {
                                None => m,
                                Some(p) => self.ar.bin(O::Add, p, m),
                            });
                        }
                        _ => return Err(Stop::Unsupported("vector gep".into())),
                    }
                }
                match t {
                    None => (*dst, V::C(c)),
                    Some(t) => {
                        let k = self.ar.konst(c as u128, 64);
                        let r = self.ar.bin(O::Add, t, k);
                        (*dst, self.vt(r))
                    }
                }
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.gets(fr, a);
                for i in path {
                    let nv = match v.agg() {
                        Some(x) => x[*i as usize].clone(),
                        None => V::C(0),
                    };
                    v = nv;
                }
                (*dst, v)
            }
            Inst::InsertValue { dst, ty, a, v, path } => {
                let base = self.get(fr, a, ty);
                let val = self.gets(fr, v);
                fn ins(e: &Engine, base: &V, ty: &Ty, val: V, path: &[u32]) -> V {
                    if path.is_empty() {
                        return val;
                    }
                    let z;
                    let mut x = match base.agg() {
                        Some(x) => x.clone(),
                        None => {
                            z = e.zero(ty);
                            z.agg().unwrap().clone()
                        }
                    };
                    let i = path[0] as usize;
                    x[i] = ins(e, &x[i].clone(), &ty.elem(i), val, &path[1..]);
                    V::X(Rc::new(Ext::Agg(x)))
                }
                (*dst, ins(self, &base, ty, val, path))
            }
            Inst::ExtractElement { dst, a, i } => {
                let v = self.gets(fr, a);
                let i = self.gets(fr, i);
                let Some(i) = i.conc() else { return Err(Stop::Unsupported("symbolic extractelement".into())) };
                match v.agg() {
                    Some(x) => (*dst, x[i as usize].clone()),
                    None => (*dst, V::C(0)),
                }
            }
            Inst::InsertElement { dst, a, v, i, ty } => {
                let base = self.get(fr, a, ty);
                let val = self.gets(fr, v);
                let Some(i) = self.gets(fr, i).conc() else { return Err(Stop::Unsupported("symbolic insertelement".into())) };
                let mut x = base.agg().unwrap().clone();
                x[i as usize] = val;
                (*dst, V::X(Rc::new(Ext::Agg(x))))
            }
            Inst::Shuffle { dst, a, b, mask, n } => {
                let x = self.gets(fr, a);
                let y = self.gets(fr, b);
                let out = mask
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            V::C(0)
                        } else if (k as u32) < *n {
                            x.agg().map_or(V::C(0), |v| v[k as usize].clone())
                        } else {
                            y.agg().map_or(V::C(0), |v| v[(k as u32 - n) as usize].clone())
                        }
                    })
                    .collect();
                (*dst, V::X(Rc::new(Ext::Agg(out))))
            }
            Inst::Freeze { dst, a } => (*dst, self.gets(fr, a)),
            Inst::Fence => return Ok(None),
            _ => return Err(Stop::Unsupported(format!("inst {:?}", inst).chars().take(120).collect())),
        }))
    }
    fn binop(&mut self, op: BinOp, ty: &Ty, x: &V, y: &V) -> R<V> {
        if let Ty::Vec(n, e) = ty {
            let (a, b) = (x.agg().unwrap().clone(), y.agg().unwrap().clone());
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.binop(op, e, &a[i], &b[i])?);
            }
            return Ok(V::X(Rc::new(Ext::Agg(out))));
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                let m = mask(w as u8) as u64;
                let r = match op {
                    BinOp::Add => a.wrapping_add(*b) & m,
                    BinOp::Sub => a.wrapping_sub(*b) & m,
                    BinOp::Mul => a.wrapping_mul(*b) & m,
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                    BinOp::Shl => {
                        if *b >= w as u64 {
                            0
                        } else {
                            (a << b) & m
                        }
                    }
                    BinOp::LShr => {
                        if *b >= w as u64 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    BinOp::UDiv if *b != 0 => a / b,
                    BinOp::URem if *b != 0 => a % b,
                    BinOp::FAdd if w == 64 => (f64::from_bits(*a) + f64::from_bits(*b)).to_bits(),
                    BinOp::FSub if w == 64 => (f64::from_bits(*a) - f64::from_bits(*b)).to_bits(),
                    BinOp::FMul if w == 64 => (f64::from_bits(*a) * f64::from_bits(*b)).to_bits(),
                    BinOp::FDiv if w == 64 => (f64::from_bits(*a) / f64::from_bits(*b)).to_bits(),
                    _ => {
                        let o = bo(op);
                        return Ok(match o {
                            O::FAdd | O::FSub | O::FMul | O::FDiv => mkc(foldf(o, *a as u128, *b as u128, 0, w as u8, w as u8)),
                            _ => mkc(fold(o, *a as u128, *b as u128, w as u8)),
                        });
                    }
                };
                return Ok(V::C(r));
            }
        }
        let (a, b) = (self.tt(x, w), self.tt(y, w));
        let o = bo(op);
        let r = match o {
            O::FAdd | O::FSub | O::FMul | O::FDiv => self.ar.fp(o, w as u8, a, b, 0),
            _ => self.ar.bin(o, a, b),
        };
        Ok(self.vt(r))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, x: &V, y: &V) -> V {
        if let Ty::Vec(n, e) = ty {
            let (a, b) = (x.agg().unwrap().clone(), y.agg().unwrap().clone());
            let out = (0..*n as usize).map(|i| self.icmp(p, e, &a[i], &b[i])).collect();
            return V::X(Rc::new(Ext::Agg(out)));
        }
        let w = ty.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                let (sa, sb) = (sext(*a as u128, w) as i64, sext(*b as u128, w) as i64);
                let r = match p {
                    Pred::Eq => a == b,
                    Pred::Ne => a != b,
                    Pred::Ult => a < b,
                    Pred::Ule => a <= b,
                    Pred::Ugt => a > b,
                    Pred::Uge => a >= b,
                    Pred::Slt => sa < sb,
                    Pred::Sle => sa <= sb,
                    Pred::Sgt => sa > sb,
                    Pred::Sge => sa >= sb,
                };
                return V::C(r as u64);
            }
        }
        let (a, b) = (self.tt(x, w), self.tt(y, w));
        let r = match p {
            Pred::Eq => self.ar.bin(O::Eq, a, b),
            Pred::Ne => {
                let e = self.ar.bin(O::Eq, a, b);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(O::Ult, a, b),
            Pred::Ugt => self.ar.bin(O::Ult, b, a),
            Pred::Ule => {
                let e = self.ar.bin(O::Ult, b, a);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.bin(O::Ult, a, b);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.bin(O::Slt, a, b),
            Pred::Sgt => self.ar.bin(O::Slt, b, a),
            Pred::Sle => {
                let e = self.ar.bin(O::Slt, b, a);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.bin(O::Slt, a, b);
                self.ar.not(e)
            }
        };
        self.vt(r)
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if op == CastOp::Bitcast {
            if from.is_agg() || to.is_agg() {
                let b = self.bits(x, from);
                let mut off = 0;
                return Ok(self.unbits(b, to, &mut off));
            }
            return Ok(x.clone());
        }
        if let (Ty::Vec(n, e), Ty::Vec(_, e2)) = (from, to) {
            let a = x.agg().unwrap().clone();
            let mut out = vec![];
            for i in 0..*n as usize {
                out.push(self.cast(op, e, e2, &a[i])?);
            }
            return Ok(V::X(Rc::new(Ext::Agg(out))));
        }
        let (wf, wt) = (from.bits(), to.bits());
        if let V::C(c) = x {
            if wt <= 64 {
                match op {
                    CastOp::Trunc => return Ok(V::C(c & mask(wt as u8) as u64)),
                    CastOp::ZExt => return Ok(V::C(*c)),
                    CastOp::SExt => return Ok(V::C(sext(*c as u128, wf) as u64 & mask(wt as u8) as u64)),
                    CastOp::PtrToInt | CastOp::IntToPtr => return Ok(V::C(c & mask(wt as u8) as u64)),
                    _ => {}
                }
            }
        }
        let t = self.tt(x, wf);
        let r = match op {
            CastOp::Trunc => self.ar.extract(t, 0, wt as u8),
            CastOp::ZExt => self.ar.zext(t, wt as u8),
            CastOp::SExt => self.ar.sext(t, wt as u8),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if wt < wf {
                    self.ar.extract(t, 0, wt as u8)
                } else {
                    self.ar.zext(t, wt as u8)
                }
            }
            CastOp::UIToFP => self.ar.fp(O::UToF, wt as u8, t, NIL, 0),
            CastOp::SIToFP => self.ar.fp(O::SToF, wt as u8, t, NIL, 0),
            CastOp::FPToUI => self.ar.fp(O::FToU, wt as u8, t, NIL, 0),
            CastOp::FPToSI => self.ar.fp(O::FToS, wt as u8, t, NIL, 0),
            CastOp::FPTrunc | CastOp::FPExt => match x.conc() {
                Some(c) => {
                    let v = if wf == 32 { (f32::from_bits(c as u32) as f64).to_bits() } else { (f64::from_bits(c as u64) as f32).to_bits() as u64 };
                    return Ok(V::C(v));
                }
                None => return Err(Stop::Unsupported("symbolic fpext".into())),
            },
            CastOp::Bitcast => unreachable!(),
        };
        Ok(self.vt(r))
    }

    // ---------------------------------------------------------------- branching
    fn ipdoms(&mut self, f: &Rc<Func>) -> Rc<Vec<Option<u32>>> {
        if let Some(r) = self.ipd.get(&f.idx) {
            return r.clone();
        }
        let n = f.blocks.len();
        // successors; blocks ending in unreachable are ignored as exits (they never rejoin)
        let succ: Vec<Vec<u32>> = f
            .blocks
            .iter()
            .map(|b| match b.insts.last() {
                Some(Inst::Br(x)) => vec![*x],
                Some(Inst::CondBr(_, x, y)) => vec![*x, *y],
                Some(Inst::Switch { default, cases, .. }) => {
                    let mut v = vec![*default];
                    v.extend(cases.iter().map(|c| c.1));
                    v.sort();
                    v.dedup();
                    v
                }
                Some(Inst::Call { normal: Some(x), .. }) => vec![*x],
                _ => vec![],
            })
            .collect();
        let ends_ret: Vec<bool> = f.blocks.iter().map(|b| matches!(b.insts.last(), Some(Inst::Ret(_)))).collect();
        // blocks that can reach a return
        let mut live = ends_ret.clone();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && succ[i].iter().any(|&s| live[s as usize]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // postdominators by the iterative algorithm on the reverse graph with virtual exit n
        let mut order = vec![];
        let mut seen = vec![false; n];
        // reverse post-order on reverse graph: dfs from exits
        let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
        for i in 0..n {
            for &s in &succ[i] {
                preds[s as usize].push(i as u32);
            }
        }
        fn dfs(b: usize, preds: &Vec<Vec<u32>>, seen: &mut Vec<bool>, order: &mut Vec<usize>) {
            let mut stack = vec![(b, 0usize)];
            seen[b] = true;
            while let Some((x, i)) = stack.pop() {
                if i < preds[x].len() {
                    stack.push((x, i + 1));
                    let p = preds[x][i] as usize;
                    if !seen[p] {
                        seen[p] = true;
                        stack.push((p, 0));
                    }
                } else {
                    order.push(x);
                }
            }
        }
        for i in 0..n {
            if ends_ret[i] && !seen[i] {
                dfs(i, &preds, &mut seen, &mut order);
            }
        }
        order.reverse();
        let mut num = vec![usize::MAX; n + 1];
        num[n] = 0;
        for (k, &b) in order.iter().enumerate() {
            num[b] = k + 1;
        }
        let mut ip: Vec<Option<usize>> = vec![None; n + 1];
        ip[n] = Some(n);
        let mut ch = true;
        while ch {
            ch = false;
            for &b in &order {
                let mut new: Option<usize> = None;
                let mut cands: Vec<usize> = succ[b].iter().map(|&s| s as usize).filter(|&s| live[s]).collect();
                if ends_ret[b] {
                    cands.push(n);
                }
                for s in cands {
                    if ip[s].is_none() {
                        continue;
                    }
                    new = Some(match new {
                        None => s,
                        Some(mut x) => {
                            let mut y = s;
                            while x != y {
                                while num[x] > num[y] {
                                    x = ip[x].unwrap();
                                }
                                while num[y] > num[x] {
                                    y = ip[y].unwrap();
                                }
                            }
                            x
                        }
                    });
                }
                if new.is_some() && ip[b] != new {
                    ip[b] = new;
                    ch = true;
                }
            }
        }
        let r: Vec<Option<u32>> = (0..n).map(|b| ip[b].and_then(|x| if x == n { None } else { Some(x as u32) })).collect();
        let r = Rc::new(r);
        self.ipd.insert(f.idx, r.clone());
        r
    }
    fn known(&mut self, st: &State, c: T) -> Option<bool> {
        let c = self.simp(st, c);
        if let Some(k) = self.ar.as_const(c) {
            return Some(k == 1);
        }
        if let Some(b) = self.in_pc(st, c) {
            return Some(b);
        }
        let vs = self.ar.vars_of(c);
        let unf: Vec<u32> = vs.iter().copied().filter(|v| !st.fixed.contains_key(v)).collect();
        if unf.len() == 1 {
            if let Some(d) = self.dom_get(st, unf[0]) {
                let vals = self.dom_vals(unf[0], &d);
                let mut seen = [false; 2];
                let fixed = &st.fixed;
                for x in vals {
                    self.ar.begin_eval();
                    let u = unf[0];
                    let r = self.ar.eval(c, |i| if i == u { x } else { fixed[&i] });
                    seen[r as usize] = true;
                    if seen[0] && seen[1] {
                        return None;
                    }
                }
                return Some(seen[1]);
            }
        }
        None
    }
    fn branch(&mut self, st: &mut State, func: &Rc<Func>, t: T, a: u32, b: u32) -> R<Ctl> {
        if self.spec {
            return Err(Stop::Bail); // handled by spec_run
        }
        if let Some(k) = self.known(st, t) {
            if st.pc.len() < 4096 {
                // remembered implicitly by domains
            }
            return Ok(Ctl::Goto(if k { a } else { b }));
        }
        let nt = self.ar.not(t);
        if self.cfg.trace {
            let mg = st.merge;
            let f = st.top();
            let mut d = self.ar.show(t, 6);
            d.truncate(160);
            let nm = format!("{} {} {}:{} {}", if mg { "br/merge" } else { "br" }, f.func.name, f.func.blocks[f.blk as usize].name, f.ip, d);
            *self.forkprof.entry(nm).or_insert(0) += 1;
        }
        if st.merge {
            let f = st.top();
            let blk = f.blk;
            if self.try_merge(st, func, blk, &[(t, a), (nt, b)])? {
                return Ok(Ctl::Reframe);
            }
        }
        let fa = self.feasible(st, t, false);
        if let Feas::No = fa {
            self.add_pc(st, nt);
            return Ok(Ctl::Goto(b));
        }
        let fb = self.feasible(st, nt, false);
        if let Feas::No = fb {
            if let Feas::Yes(Some(m)) = fa {
                st.model = m;
            }
            self.add_pc(st, t);
            return Ok(Ctl::Goto(a));
        }
        // both
        let mut alt = st.clone();
        match fb {
            Feas::Yes(Some(m)) => alt.model = m,
            Feas::Unknown => {
                alt.model_ok = false;
                self.st.unknown_branches += 1;
            }
            _ => {}
        }
        match fa {
            Feas::Yes(Some(m)) => st.model = m,
            Feas::Unknown => {
                st.model_ok = false;
                self.st.unknown_branches += 1;
            }
            _ => {}
        }
        self.add_pc(&mut alt, nt);
        self.push_alt(alt.clone(), "branch");
        {
            let mut alt = self.work.pop().unwrap();
            self.goto(&mut alt, func, b);
            self.work.push(alt);
        }
        self.add_pc(st, t);
        Ok(Ctl::Goto(a))
    }
    fn switch(&mut self, st: &mut State, func: &Rc<Func>, w: u32, t: T, default: u32, cases: &[(u128, u32)]) -> R<Ctl> {
        if self.spec {
            return Err(Stop::Bail);
        }
        let targets = self.switch_conds(w, t, default, cases);
        if st.merge {
            let blk = st.top().blk;
            if self.try_merge(st, func, blk, &targets)? {
                return Ok(Ctl::Reframe);
            }
        }
        let mut live: Vec<(T, u32, Feas)> = vec![];
        for (c, b) in targets {
            let f = match self.known(st, c) {
                Some(false) => Feas::No,
                _ => self.feasible(st, c, false),
            };
            if !matches!(f, Feas::No) {
                live.push((c, b, f));
            }
        }
        if live.is_empty() {
            return Err(Stop::Killed);
        }
        while live.len() > 1 {
            let (c, b, f) = live.pop().unwrap();
            let mut alt = st.clone();
            match f {
                Feas::Yes(Some(m)) => alt.model = m,
                Feas::Unknown => {
                    alt.model_ok = false;
                    self.st.unknown_branches += 1;
                }
                _ => {}
            }
            self.add_pc(&mut alt, c);
            self.push_alt(alt, "switch");
            let mut alt = self.work.pop().unwrap();
            self.goto(&mut alt, func, b);
            self.work.push(alt);
        }
        let (c, b, f) = live.pop().unwrap();
        match f {
            Feas::Yes(Some(m)) => st.model = m,
            Feas::Unknown => {
                st.model_ok = false;
                self.st.unknown_branches += 1;
            }
            _ => {}
        }
        self.add_pc(st, c);
        Ok(Ctl::Goto(b))
    }
    fn switch_conds(&mut self, w: u32, t: T, default: u32, cases: &[(u128, u32)]) -> Vec<(T, u32)> {
        let mut targets: Vec<(T, u32)> = vec![];
        let mut none = self.ar.tru();
        for &(k, b) in cases {
            let kk = self.ar.konst(k, w as u8);
            let e = self.ar.bin(O::Eq, t, kk);
            let ne = self.ar.not(e);
            none = self.ar.bin(O::And, none, ne);
            if self.ar.as_const(e) == Some(0) {
                continue;
            }
            match targets.iter_mut().find(|x| x.1 == b) {
                Some(x) => {
                    let o = self.ar.bin(O::Or, x.0, e);
                    x.0 = o;
                }
                None => targets.push((e, b)),
            }
        }
        // default
        let n = *self.ar.n(t);
        let distinct = cases.iter().filter(|c| c.0 >= n.lo && c.0 <= n.hi).count() as u128;
        if n.hi - n.lo + 1 > distinct && self.ar.as_const(none) != Some(0) {
            match targets.iter_mut().find(|x| x.1 == default) {
                Some(x) => {
                    let o = self.ar.bin(O::Or, x.0, none);
                    x.0 = o;
                }
                None => targets.push((none, default)),
            }
        }
        targets
    }
    /// if-conversion: run every side up to the common post-dominator, joining values with ITE
    /// immediate dominators
    fn idoms(&mut self, f: &Rc<Func>) -> Rc<Vec<Option<u32>>> {
        if let Some(r) = self.idm.get(&f.idx) {
            return r.clone();
        }
        let n = f.blocks.len();
        let succ: Vec<Vec<u32>> = f
            .blocks
            .iter()
            .map(|b| match b.insts.last() {
                Some(Inst::Br(x)) => vec![*x],
                Some(Inst::CondBr(_, x, y)) => vec![*x, *y],
                Some(Inst::Switch { default, cases, .. }) => {
                    let mut v = vec![*default];
                    v.extend(cases.iter().map(|c| c.1));
                    v
                }
                Some(Inst::Call { normal: Some(x), .. }) => vec![*x],
                _ => vec![],
            })
            .collect();
        let mut order = vec![];
        let mut seen = vec![false; n];
        let mut stack = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((x, i)) = stack.pop() {
            if i < succ[x].len() {
                stack.push((x, i + 1));
                let p = succ[x][i] as usize;
                if !seen[p] {
                    seen[p] = true;
                    stack.push((p, 0));
                }
            } else {
                order.push(x);
            }
        }
        order.reverse();
        let mut num = vec![usize::MAX; n];
        for (k, &b) in order.iter().enumerate() {
            num[b] = k;
        }
        let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            if seen[i] {
                for &s in &succ[i] {
                    preds[s as usize].push(i);
                }
            }
        }
        let mut id: Vec<Option<usize>> = vec![None; n];
        id[0] = Some(0);
        let mut ch = true;
        while ch {
            ch = false;
            for &b in order.iter().skip(1) {
                let mut new: Option<usize> = None;
                for &p in &preds[b] {
                    if id[p].is_none() {
                        continue;
                    }
                    new = Some(match new {
                        None => p,
                        Some(mut x) => {
                            let mut y = p;
                            while x != y {
                                while num[x] > num[y] {
                                    x = id[x].unwrap();
                                }
                                while num[y] > num[x] {
                                    y = id[y].unwrap();
                                }
                            }
                            x
                        }
                    });
                }
                if new.is_some() && id[b] != new {
                    id[b] = new;
                    ch = true;
                }
            }
        }
        let r = Rc::new((0..n).map(|b| if b == 0 { None } else { id[b].map(|x| x as u32) }).collect::<Vec<_>>());
        self.idm.insert(f.idx, r.clone());
        r
    }
    /// does block t dominate a block whose branch is being merged? Entering it again would overwrite registers
    /// that the other arms still read.
    fn reenters(&mut self, f: &Rc<Func>, t: u32) -> bool {
        let id = self.idoms(f);
        for &b in &self.merge_stack {
            let mut x = Some(b);
            while let Some(k) = x {
                if k == t {
                    return true;
                }
                x = id[k as usize];
            }
        }
        false
    }
    fn try_merge(&mut self, st: &mut State, func: &Rc<Func>, blk: u32, targets: &[(T, u32)]) -> R<bool> {
        let key = (func.idx, blk);
        let e = self.mfail.entry(key).or_insert((0, 0));
        if e.0 > 12 && e.1 * 4 < e.0 {
            return Ok(false);
        }
        let ipd = self.ipdoms(func);
        let Some(j) = ipd[blk as usize] else { return Ok(false) };
        self.spec = true;
        self.spec_log.clear();
        let mut budget = 400i32;
        let g = self.ar.tru();
        self.merge_stack.clear();
        let r = self.merge_rec(st, func, blk, j, targets, g, 0, &mut budget);
        self.spec = false;
        match r {
            Ok(vals) => {
                self.st.merges += 1;
                self.mfail.get_mut(&key).unwrap().1 += 1;
                let f = st.top();
                for (p, v) in func.blocks[j as usize].phis.iter().zip(vals) {
                    f.regs[p.dst as usize] = v;
                }
                f.blk = j;
                f.ip = 0;
                self.spec_log.clear();
                Ok(true)
            }
            Err(Stop::Stopped) => Err(Stop::Stopped),
            Err(_) => {
                self.mfail.get_mut(&key).unwrap().0 += 1;
                // undo stores
                let log = std::mem::take(&mut self.spec_log);
                for (a, n, v) in log.into_iter().rev() {
                    self.wr(st, a, n, &v)?;
                }
                Ok(false)
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn merge_rec(&mut self, st: &mut State, func: &Rc<Func>, blk: u32, j: u32, targets: &[(T, u32)], guard: T, depth: u32, budget: &mut i32) -> R<Vec<V>> {
        if depth > 6 || targets.len() > 64 {
            return Err(Stop::Bail);
        }
        let mut acc: Option<Vec<V>> = None;
        let phis = &func.blocks[j as usize].phis;
        for (c, b) in targets {
            if let Some(false) = self.known(st, *c) {
                continue;
            }
            let g = self.ar.bin(O::And, guard, *c);
            if self.ar.as_const(g) == Some(0) {
                continue;
            }
            self.merge_stack.push(blk);
            let vals = self.spec_run(st, func, blk, *b, j, g, depth, budget);
            self.merge_stack.pop();
            let vals = vals?;
            acc = Some(match acc {
                None => vals,
                Some(old) => {
                    let mut out = Vec::with_capacity(old.len());
                    for (i, (o, v)) in old.iter().zip(vals.iter()).enumerate() {
                        let ty = phis[i].ty.clone();
                        out.push(self.ite_v(*c, v, o, &ty));
                    }
                    out
                }
            });
        }
        acc.ok_or(Stop::Bail)
    }
    #[allow(clippy::too_many_arguments)]
    fn spec_run(&mut self, st: &mut State, func: &Rc<Func>, pred0: u32, b0: u32, j: u32, guard: T, depth: u32, budget: &mut i32) -> R<Vec<V>> {
        let mut pred = pred0;
        let mut b = b0;
        let mut have_phis = false;
        loop {
            let cur = st.cur;
            if b != j && self.reenters(func, b) {
                return Err(Stop::Bail);
            }
            if !have_phis {
                let fr = st.threads[cur].frames.last().unwrap();
                let vals: Vec<V> = func.blocks[b as usize]
                    .phis
                    .iter()
                    .map(|p| self.get(fr, &p.inc.iter().find(|x| x.0 == pred).expect("phi").1, &p.ty))
                    .collect();
                if b == j {
                    return Ok(vals);
                }
                for (p, v) in func.blocks[b as usize].phis.iter().zip(vals) {
                    st.set(p.dst, v);
                }
            }
            have_phis = false;
            let bb = &func.blocks[b as usize];
            let mut next: Option<u32> = None;
            for inst in &bb.insts {
                *budget -= 1;
                if *budget < 0 {
                    return Err(Stop::Bail);
                }
                match inst {
                    Inst::Br(t) => next = Some(*t),
                    Inst::CondBr(..) | Inst::Switch { .. } => {
                        let fr = st.threads[cur].frames.last().unwrap();
                        let targets: Vec<(T, u32)> = match inst {
                            Inst::CondBr(c, x, y) => match self.gets(fr, c) {
                                V::C(k) => {
                                    next = Some(if k & 1 == 1 { *x } else { *y });
                                    continue;
                                }
                                V::S(t) => {
                                    if let Some(k) = self.known(st, t) {
                                        next = Some(if k { *x } else { *y });
                                        continue;
                                    }
                                    // implied by the guard?
                                    let nt = self.ar.not(t);
                                    let ga = self.ar.bin(O::And, guard, nt);
                                    if ga == guard || t == guard {
                                        next = Some(if ga == guard { *y } else { *x });
                                        continue;
                                    }
                                    // a branch to a panic: ask the solver
                                    let dead = |k: u32| matches!(func.blocks[k as usize].insts.last(), Some(Inst::Unreachable));
                                    if dead(*x) != dead(*y) {
                                        let pc = if dead(*x) { t } else { nt };
                                        let g = self.ar.bin(O::And, guard, pc);
                                        match self.feasible(st, g, false) {
                                            Feas::No => {
                                                next = Some(if dead(*x) { *y } else { *x });
                                                continue;
                                            }
                                            _ => return Err(Stop::Bail),
                                        }
                                    }
                                    vec![(t, *x), (nt, *y)]
                                }
                                _ => return Err(Stop::Bail),
                            },
                            Inst::Switch { w, v, default, cases } => match self.gets(fr, v) {
                                V::C(k) => {
                                    next = Some(cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*default));
                                    continue;
                                }
                                V::S(t) => self.switch_conds(*w, t, *default, cases),
                                _ => return Err(Stop::Bail),
                            },
                            _ => unreachable!(),
                        };
                        let ipd = self.ipdoms(func);
                        let Some(j2) = ipd[b as usize] else { return Err(Stop::Bail) };
                        let vals = self.merge_rec(st, func, b, j2, &targets, guard, depth + 1, budget)?;
                        if j2 == j {
                            return Ok(vals);
                        }
                        for (p, v) in func.blocks[j2 as usize].phis.iter().zip(vals) {
                            st.set(p.dst, v);
                        }
                        b = j2;
                        have_phis = true;
                    }
                    Inst::Load { dst, ty, ptr, atomic } => {
                        if *atomic {
                            return Err(Stop::Bail);
                        }
                        let fr = st.threads[cur].frames.last().unwrap();
                        let p = self.gets(fr, ptr);
                        let v = match self.load(st, &p, ty) {
                            Ok(v) => v,
                            Err(_) => return Err(Stop::Bail),
                        };
                        st.set(*dst, v);
                    }
                    Inst::Store { ty, val, ptr, atomic } => {
                        if *atomic {
                            return Err(Stop::Bail);
                        }
                        let fr = st.threads[cur].frames.last().unwrap();
                        let p = self.gets(fr, ptr);
                        let v = self.get(fr, val, ty);
                        let V::C(a) = p else { return Err(Stop::Bail) };
                        let id = (a >> 32) as u32;
                        match self.obj(st, id) {
                            Ok(o) if !o.ro && (a as u32 as u64) + ty.size() <= o.data.len() as u64 => {}
                            _ => return Err(Stop::Bail),
                        }
                        self.spec_guard = guard;
                        self.store_c(st, a, ty, &v).map_err(|_| Stop::Bail)?;
                    }
                    Inst::Call { dst, ret, callee, args, normal: None } => {
                        let Callee::Direct(f) = callee else { return Err(Stop::Bail) };
                        match self.kind(*f) {
                            FK::Nop => {}
                            FK::Intr(i) if i != I::Tls => {
                                let fr = st.threads[cur].frames.last().unwrap();
                                let av: Vec<V> = args.iter().map(|(t, o)| self.get(fr, o, t)).collect();
                                let v = self.intrinsic(i, ret, args, &av)?;
                                if let Some(d) = dst {
                                    st.set(*d, v);
                                }
                            }
                            _ => return Err(Stop::Bail),
                        }
                    }
                    Inst::Ret(_) | Inst::Unreachable | Inst::Resume | Inst::Unsupported(_) | Inst::Call { .. } | Inst::Rmw { .. } | Inst::CmpXchg { .. } | Inst::Alloca { .. } => {
                        return Err(Stop::Bail)
                    }
                    _ => {
                        if let Some((d, v)) = self.pure(st, inst).map_err(|_| Stop::Bail)? {
                            st.set(d, v);
                        }
                    }
                }
            }
            if have_phis {
                continue;
            }
            match next {
                Some(t) => {
                    pred = b;
                    b = t;
                }
                None => return Err(Stop::Bail),
            }
        }
    }

    // ---------------------------------------------------------------- calls
    fn kind(&mut self, f: u32) -> FK {
        if let Some(k) = self.fk[f as usize] {
            return k;
        }
        let d = &self.m.funcs[f as usize];
        let n = d.name.as_str();
        let k = classify(n, d.body.is_some());
        self.fk[f as usize] = Some(k);
        k
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<Ctl> {
        let cur = st.cur;
        let f = st.threads[cur].frames.pop().unwrap();
        for a in f.allocas {
            st.release(a);
        }
        if st.threads[cur].frames.is_empty() {
            if cur == 0 {
                return Err(Stop::Done);
            }
            return Ok(Ctl::Reframe);
        }
        if let (Some(d), Some(v)) = (f.dst, v) {
            st.set(d, v);
        }
        if let Some(b) = f.normal {
            let func = st.top().func.clone();
            self.goto(st, &func, b);
        } else {
            st.top().ip += 1;
        }
        Ok(Ctl::Reframe)
    }
    fn enter(&mut self, st: &mut State, f: u32, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> R<Ctl> {
        if st.threads[st.cur].frames.len() > 400 {
            return Err(Stop::Limit("call depth".into()));
        }
        let func = self.m.func(f);
        self.funcs.insert(f);
        let mut regs = vec![V::C(0); func.nslots as usize];
        for (p, v) in func.params.iter().zip(args) {
            regs[*p as usize] = v;
        }
        let fr = Frame { regs, func, blk: 0, ip: 0, allocas: vec![], dst, normal };
        st.threads[st.cur].frames.push(fr);
        Ok(Ctl::Reframe)
    }
    fn call(&mut self, st: &mut State, dst: Option<u32>, ret: &Ty, callee: &Callee, args: &[(Ty, Op)], normal: Option<u32>) -> R<Ctl> {
        let cur = st.cur;
        let f = match callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let v = self.gets(st.threads[cur].frames.last().unwrap(), o);
                let a = match self.simp_v(st, v) {
                    V::C(a) => a,
                    V::S(t) => self.concretize(st, t)? as u64,
                    _ => return Err(Stop::Unsupported("callee".into())),
                };
                if a < FUNC_BASE || ((a - FUNC_BASE) / 16) as usize >= self.m.funcs.len() {
                    return Err(Stop::Mem("call through bad function pointer".into()));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
        };
        let k = self.kind(f);
        let av: Vec<V> = {
            let fr = st.threads[cur].frames.last().unwrap();
            args.iter().map(|(t, o)| self.get(fr, o, t)).collect()
        };
        let mut out: Option<V> = None;
        match k {
            FK::Normal => return self.enter(st, f, av, dst, normal),
            FK::Panic => {
                let mut chain = String::new();
                for f in st.threads[cur].frames.iter().rev().take(5) {
                    chain.push_str(&f.func.name);
                    chain.push_str(" < ");
                }
                return Err(Stop::Panic(format!("{} called from {}", self.m.funcs[f as usize].name, chain)));
            }
            FK::Nop => {}
            FK::Memcpy => {
                let n = self.cval(st, &av[2])?;
                if n > 0 {
                    let (d, s) = (self.cval(st, &av[0])?, self.cval(st, &av[1])?);
                    self.copy(st, d, s, n)?;
                }
                out = Some(av[0].clone());
            }
            FK::Memset => {
                let n = self.cval(st, &av[2])?;
                let d = self.cval(st, &av[0])?;
                self.memset(st, d, &av[1], n)?;
                out = Some(av[0].clone());
            }
            FK::Intr(I::Tls) => {
                let a = self.cval(st, &av[0])?;
                out = Some(V::C(self.tls(st, a)?));
            }
            FK::Intr(i) => out = Some(self.intrinsic(i, ret, args, &av)?),
            FK::Ext(x) => {
                match self.ext(st, x, &av)? {
                    Some(v) => out = Some(v),
                    None => {
                        // the call arranged everything itself (thread switch)
                        if let Some(d) = dst {
                            st.threads[cur].frames.last_mut().unwrap().regs[d as usize] = V::C(0);
                        }
                        st.threads[cur].frames.last_mut().unwrap().ip += 1;
                        self.flush_choices(st);
                        return Ok(Ctl::Reframe);
                    }
                }
            }
            FK::Sx(s) => out = self.prim(st, s, &av)?,
            FK::Unknown => return Err(Stop::Unsupported(format!("external function {}", self.m.funcs[f as usize].name))),
        }
        if let (Some(d), Some(v)) = (dst, out) {
            st.set(d, v);
        }
        if let Some(b) = normal {
            return Ok(Ctl::Goto(b));
        }
        Ok(Ctl::Next)
    }
    fn cval(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(t) => Ok(self.concretize(st, *t)? as u64),
            _ => Err(Stop::Unsupported("scalar expected".into())),
        }
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match v {
            V::C(c) => {
                self.prep_mut(st, (d >> 32) as u32)?;
                {
                    let o = Self::obj_mut(st, (d >> 32) as u32)?;
                    let off = d as u32;
                    if off as u64 + n > o.data.len() as u64 {
                        return Err(Stop::Mem("memset out of bounds".into()));
                    }
                    o.clear_sym(&mut self.ar, off, n as u32);
                    for x in &mut o.data[off as usize..(off as u64 + n) as usize] {
                        *x = *c as u8;
                    }
                }
                Ok(())
            }
            v => {
                for i in 0..n {
                    self.wr(st, d + i, 1, v)?;
                }
                Ok(())
            }
        }
    }
    fn tls(&mut self, st: &mut State, a: u64) -> R<u64> {
        let gid = (a >> 32) as u32;
        let cur = st.cur;
        if let Some(x) = st.threads[cur].tls.iter().find(|x| x.0 == gid) {
            return Ok(((x.1 as u64) << 32) | (a as u32 as u64));
        }
        let init = self.glob(gid - 1)?;
        let id = st.alloc(init.data.len());
        if let Some(o) = st.heap[(id - HEAP_BASE) as usize].as_mut() {
            Rc::make_mut(o).data = init.data.clone();
        }
        st.threads[cur].tls.push((gid, id));
        Ok(((id as u64) << 32) | (a as u32 as u64))
    }
    fn intrinsic(&mut self, i: I, ret: &Ty, args: &[(Ty, Op)], av: &[V]) -> R<V> {
        if matches!(i, I::RedAdd | I::RedOr | I::RedAnd | I::RedUmax | I::RedUmin | I::RedXor | I::RedMul | I::RedSmax | I::RedSmin) {
            let vt = &args[0].0;
            let e = vt.elem(0);
            let xs = av[0].agg().unwrap().clone();
            let mut acc = xs[0].clone();
            for x in &xs[1..] {
                acc = match i {
                    I::RedAdd => self.binop(BinOp::Add, &e, &acc, x)?,
                    I::RedMul => self.binop(BinOp::Mul, &e, &acc, x)?,
                    I::RedOr => self.binop(BinOp::Or, &e, &acc, x)?,
                    I::RedAnd => self.binop(BinOp::And, &e, &acc, x)?,
                    I::RedXor => self.binop(BinOp::Xor, &e, &acc, x)?,
                    _ => {
                        let p = match i {
                            I::RedUmax => Pred::Ugt,
                            I::RedUmin => Pred::Ult,
                            I::RedSmax => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = self.icmp(p, &e, &acc, x);
                        let c = self.tt(&c, 1);
                        self.ite_v(c, &acc, x, &e)
                    }
                };
            }
            return Ok(acc);
        }
        if let Ty::Vec(n, e) = ret {
            if !matches!(i, I::UaddO | I::UsubO | I::UmulO | I::SaddO | I::SsubO | I::SmulO) {
                let mut out = vec![];
                for k in 0..*n as usize {
                    let sub: Vec<V> = av.iter().map(|v| v.agg().map_or(v.clone(), |x| x[k].clone())).collect();
                    let at: Vec<(Ty, Op)> = args.iter().map(|(t, o)| (if t.is_agg() { t.elem(0) } else { t.clone() }, o.clone())).collect();
                    out.push(self.intrinsic(i, e, &at, &sub)?);
                }
                return Ok(V::X(Rc::new(Ext::Agg(out))));
            }
        }
        let w0 = if args.is_empty() || args[0].0.is_agg() || matches!(args[0].0, Ty::Void | Ty::Other) { 64 } else { args[0].0.bits() };
        let w8 = w0 as u8;
        let t0 = if av.is_empty() { NIL } else { self.tt(&av[0], w0) };
        macro_rules! t1 {
            () => {
                self.tt(&av[1], w0)
            };
        }
        let r = match i {
            I::Ctpop => self.ar.un(O::Ctpop, t0, w8),
            I::Ctlz => self.ar.un(O::Ctlz, t0, w8),
            I::Cttz => self.ar.un(O::Cttz, t0, w8),
            I::Bswap => {
                let n = w0 / 8;
                let mut acc = self.ar.extract(t0, 0, 8);
                for k in 1..n {
                    let b = self.ar.extract(t0, (8 * k) as u8, 8);
                    acc = self.ar.concat(acc, b);
                }
                acc
            }
            I::Bitrev => {
                let mut acc = self.ar.extract(t0, 0, 1);
                for k in 1..w0 {
                    let b = self.ar.extract(t0, k as u8, 1);
                    acc = self.ar.concat(acc, b);
                }
                acc
            }
            I::Abs => {
                let z = self.ar.konst(0, w8);
                let c = self.ar.bin(O::Slt, t0, z);
                let n = self.ar.bin(O::Sub, z, t0);
                self.ar.ite(c, n, t0)
            }
            I::Umin | I::Umax | I::Smin | I::Smax => {
                let b = t1!();
                let c = self.ar.bin(if matches!(i, I::Umin | I::Umax) { O::Ult } else { O::Slt }, t0, b);
                if matches!(i, I::Umin | I::Smin) {
                    self.ar.ite(c, t0, b)
                } else {
                    self.ar.ite(c, b, t0)
                }
            }
            I::UsubSat => {
                let b = t1!();
                let c = self.ar.bin(O::Ult, t0, b);
                let s = self.ar.bin(O::Sub, t0, b);
                let z = self.ar.konst(0, w8);
                self.ar.ite(c, z, s)
            }
            I::UaddSat => {
                let b = t1!();
                let s = self.ar.bin(O::Add, t0, b);
                let c = self.ar.bin(O::Ult, s, t0);
                let m = self.ar.konst(mask(w8), w8);
                self.ar.ite(c, m, s)
            }
            I::Fshl | I::Fshr => {
                let b = t1!();
                let s = self.tt(&av[2], w0);
                let Some(s) = self.ar.as_const(s) else { return Err(Stop::Unsupported("symbolic funnel shift".into())) };
                let s = (s % w0 as u128) as u32;
                let s = if i == I::Fshl { s } else { (w0 - s) % w0 };
                // fshr(a,b,s) == fshl(a,b,w-s) for s != 0; for s == 0 fshr gives b
                if s == 0 {
                    if i == I::Fshl {
                        t0
                    } else {
                        b
                    }
                } else {
                    let k1 = self.ar.konst(s as u128, w8);
                    let k2 = self.ar.konst((w0 - s) as u128, w8);
                    let l = self.ar.bin(O::Shl, t0, k1);
                    let r = self.ar.bin(O::LShr, b, k2);
                    self.ar.bin(O::Or, l, r)
                }
            }
            I::Ucmp | I::Scmp => {
                let b = t1!();
                let rw = ret.bits() as u8;
                let o = if i == I::Ucmp { O::Ult } else { O::Slt };
                let lt = self.ar.bin(o, t0, b);
                let eq = self.ar.bin(O::Eq, t0, b);
                let (m1, z, p1) = (self.ar.konst(mask(rw), rw), self.ar.konst(0, rw), self.ar.konst(1, rw));
                let x = self.ar.ite(eq, z, p1);
                self.ar.ite(lt, m1, x)
            }
            I::UaddO | I::UsubO | I::UmulO | I::SaddO | I::SsubO | I::SmulO => {
                let b = t1!();
                let (r, o) = match i {
                    I::UaddO => {
                        let s = self.ar.bin(O::Add, t0, b);
                        (s, self.ar.bin(O::Ult, s, t0))
                    }
                    I::UsubO => {
                        let s = self.ar.bin(O::Sub, t0, b);
                        (s, self.ar.bin(O::Ult, t0, b))
                    }
                    I::UmulO => {
                        let s = self.ar.bin(O::Mul, t0, b);
                        let (h0, h1) = (self.ar.n(t0).hi, self.ar.n(b).hi);
                        let small = h0.checked_mul(h1).map_or(false, |v| v <= mask(w8));
                        if small {
                            (s, self.ar.fls())
                        } else if w0 <= 64 {
                            let w2 = (w0 * 2) as u8;
                            let (x, y) = (self.ar.zext(t0, w2), self.ar.zext(b, w2));
                            let p = self.ar.bin(O::Mul, x, y);
                            let hi = self.ar.extract(p, w8, w8);
                            let z = self.ar.konst(0, w8);
                            let e = self.ar.bin(O::Eq, hi, z);
                            (s, self.ar.not(e))
                        } else {
                            // both concrete?
                            match (self.ar.as_const(t0), self.ar.as_const(b)) {
                                (Some(x), Some(y)) => {
                                    let o = x.checked_mul(y).is_none();
                                    let s = self.ar.konst(x.wrapping_mul(y), w8);
                                    (s, if o { self.ar.tru() } else { self.ar.fls() })
                                }
                                _ => {
                                    // b > max / a
                                    let m = self.ar.konst(mask(w8), w8);
                                    let q = self.ar.bin(O::UDiv, m, t0);
                                    let c = self.ar.bin(O::Ult, q, b);
                                    let z = self.ar.konst(0, w8);
                                    let az = self.ar.bin(O::Eq, t0, z);
                                    let nz = self.ar.not(az);
                                    (s, self.ar.bin(O::And, nz, c))
                                }
                            }
                        }
                    }
                    _ => {
                        let w2 = (w0 * 2).min(128) as u8;
                        if w0 > 64 {
                            return Err(Stop::Unsupported("wide signed overflow".into()));
                        }
                        let (x, y) = (self.ar.sext(t0, w2), self.ar.sext(b, w2));
                        let o = match i {
                            I::SaddO => O::Add,
                            I::SsubO => O::Sub,
                            _ => O::Mul,
                        };
                        let p = self.ar.bin(o, x, y);
                        let lo = self.ar.extract(p, 0, w8);
                        let back = self.ar.sext(lo, w2);
                        let e = self.ar.bin(O::Eq, back, p);
                        (lo, self.ar.not(e))
                    }
                };
                let (a, b) = (self.vt(r), self.vt(o));
                return Ok(V::X(Rc::new(Ext::Agg(vec![a, b]))));
            }
            I::Fabs => self.ar.fp(O::FAbs, w8, t0, NIL, 0),
            I::Sqrt => self.ar.fp(O::FSqrt, w8, t0, NIL, 0),
            I::Floor => match self.ar.as_const(t0) {
                Some(c) if w8 == 64 => self.ar.konst(f64::from_bits(c as u64).floor().to_bits() as u128, 64),
                _ => return Err(Stop::Unsupported("floor".into())),
            },
            I::Fma => {
                let b = t1!();
                let c = self.tt(&av[2], w0);
                let p = self.ar.fp(O::FMul, w8, t0, b, 0);
                self.ar.fp(O::FAdd, w8, p, c, 0)
            }
            I::Minnum | I::Maxnum => {
                let b = t1!();
                let c = self.ar.fp(O::FCmp, 1, t0, b, if i == I::Minnum { 4 } else { 2 });
                // if a is NaN -> b ; if b is NaN -> a
                let bn = self.ar.fp(O::FCmp, 1, b, b, 8);
                let c2 = self.ar.bin(O::Or, c, bn);
                self.ar.ite(c2, t0, b)
            }
            I::Copysign => {
                let b = t1!();
                let m = self.ar.konst(mask(w8) >> 1, w8);
                let s = self.ar.konst(1u128 << (w8 - 1), w8);
                let x = self.ar.bin(O::And, t0, m);
                let y = self.ar.bin(O::And, b, s);
                self.ar.bin(O::Or, x, y)
            }
            I::FToUs => self.ar.fp(O::FToU, ret.bits() as u8, t0, NIL, 0),
            I::FToSs => self.ar.fp(O::FToS, ret.bits() as u8, t0, NIL, 0),
            I::IsConst => self.ar.fls(),
            I::Arg0 => t0,
            _ => return Err(Stop::Unsupported(format!("intrinsic {:?}", i))),
        };
        Ok(self.vt(r))
    }
    /// the part of the space of inputs that takes this path, counted exactly: each input's values are a set of intervals,
    /// found by evaluation and confirmed by the solver (nothing else in them, nothing outside)
    fn measure(&mut self, st: &mut State, key: u64, total: u64) -> R<()> {
        if self.spec {
            return Err(Stop::Bail);
        }
        if !st.model_ok {
            let q = st.pc.clone();
            self.smt.soft = false;
            match self.smt.check(&self.ar, &q) {
                Res::Sat(m) => {
                    let mut nm = (*st.model).clone();
                    nm.extend(m);
                    st.model = Rc::new(nm);
                    st.model_ok = true;
                }
                Res::Unsat => return Err(Stop::Killed),
                Res::Unknown(_) => return Err(Stop::Limit("no model for measure".into())),
            }
        }
        let mut vol = 1f64;
        let mut words = 0;
        let mut ins: Vec<(u32, T)> = vec![];
        for i in st.inputs.clone() {
            if let Input::Term(t) = i {
                let vs = self.ar.vars_of(t);
                if vs.len() != 1 {
                    return Err(Stop::Limit("measure: input".into()));
                }
                ins.push((vs[0], t));
            }
        }
        for (i, &(v, t)) in ins.iter().enumerate() {
            words += 1;
            // what decides this input, given the earlier ones; and all that is known about those
            let later: Vec<u32> = ins[i + 1..].iter().map(|x| x.0).collect();
            let mut q: Vec<T> = st.pc.iter().copied().filter(|&c| self.ar.vars_of(c).contains(&v) && !self.ar.vars_of(c).iter().any(|x| later.contains(x))).collect();
            let mut vars: BTreeSet<u32> = q.iter().flat_map(|&c| self.ar.vars_of(c).to_vec()).filter(|x| *x != v).collect();
            let mut ctx: Vec<T> = vec![];
            loop {
                let before = (ctx.len(), vars.len());
                for &c in &st.pc {
                    let vs = self.ar.vars_of(c);
                    if vs.iter().any(|x| vars.contains(x)) && !vs.iter().any(|x| *x == v || later.contains(x)) && !ctx.contains(&c) {
                        ctx.push(c);
                        vars.extend(vs.iter().copied());
                    }
                }
                if before == (ctx.len(), vars.len()) {
                    break;
                }
            }
            q.sort_unstable();
            q.dedup();
            ctx.sort_unstable();
            let key = (v, q, ctx);
            let n = match self.counts.get(&key) {
                Some(&n) => n,
                None => {
                    let n = self.count(st, v, t, &key.1, &key.2)?;
                    self.counts.insert(key, n);
                    n
                }
            };
            let i = &self.ar.vars[v as usize];
            vol *= n as f64 / (i.hi - i.lo + 1) as f64;
        }
        let e = self.measures.entry((words, key)).or_insert((0., 0, total));
        e.0 += vol;
        e.1 += 1;
        Ok(())
    }
    fn holds(&mut self, m: &FxMap<u32, u128>, v: u32, q: &[T], x: u128) -> bool {
        self.ar.begin_eval();
        q.iter().all(|&c| self.ar.eval(c, |i| if i == v { x } else { m.get(&i).copied().unwrap_or(0) }) == 1)
    }
    fn count(&mut self, st: &State, v: u32, t: T, q: &[T], ctx: &[T]) -> R<u128> {
        let mut env = (*st.model).clone();
        for &c in q {
            for &i in self.ar.vars_of(c).iter() {
                let lo = self.ar.vars[i as usize].lo;
                env.entry(i).or_insert(lo);
            }
        }
        let (lo, hi) = (self.ar.vars[v as usize].lo, self.ar.vars[v as usize].hi);
        if q.is_empty() {
            return Ok(hi - lo + 1);
        }
        let w = self.ar.w(t);
        let mut conj = self.ar.tru();
        for &c in q {
            conj = self.ar.bin(O::And, conj, c);
        }
        let neg = self.ar.not(conj);
        let mut outside: Vec<T> = q.iter().chain(ctx).copied().collect();
        let mut found: Vec<(u128, u128)> = vec![];
        let mut x = *st.model.get(&v).unwrap_or(&lo);
        loop {
            if !self.holds(&env, v, q, x) || found.iter().any(|f| f.0 <= x && x <= f.1) || found.len() > 300 {
                return Err(Stop::Limit(format!("measure: {} intervals", found.len().min(300))));
            }
            // away from x, as far as it holds at the points tried
            let mut ends = [x, x];
            for (k, end) in ends.iter_mut().enumerate() {
                let at = |d: u128| if k == 0 { x.checked_sub(d).filter(|y| *y >= lo) } else { Some(x + d).filter(|y| *y <= hi) };
                let mut good = 0u128;
                let mut bad = 1u128;
                loop {
                    match at(bad) {
                        Some(y) if self.holds(&env, v, q, y) => {
                            good = bad;
                            bad *= 2;
                        }
                        _ => break,
                    }
                }
                while bad - good > 1 {
                    let mid = good + (bad - good) / 2;
                    match at(mid) {
                        Some(y) if self.holds(&env, v, q, y) => good = mid,
                        _ => bad = mid,
                    }
                }
                *end = at(good).unwrap();
            }
            // holes inside
            loop {
                let (a, b) = (self.ar.konst(ends[0], w), self.ar.konst(ends[1], w));
                let below = self.ar.bin(O::Ult, t, a);
                let above = self.ar.bin(O::Ult, b, t);
                let (nb, na) = (self.ar.not(below), self.ar.not(above));
                self.smt.soft = false;
                let mut inside = vec![nb, na, neg];
                inside.extend(ctx);
                match self.smt.check(&self.ar, &inside) {
                    Res::Unsat => {
                        let or = self.ar.bin(O::Or, below, above);
                        outside.push(or);
                        break;
                    }
                    Res::Sat(m) => {
                        let y = *m.get(&v).unwrap_or(&lo);
                        if self.holds(&env, v, q, y) || y < ends[0] || y > ends[1] {
                            return Err(Stop::Limit("measure: model".into()));
                        }
                        let k = (y > x) as usize;
                        let (mut good, mut bad) = (x, y);
                        while good.abs_diff(bad) > 1 {
                            let mid = good.min(bad) + good.abs_diff(bad) / 2;
                            if self.holds(&env, v, q, mid) {
                                good = mid;
                            } else {
                                bad = mid;
                            }
                        }
                        ends[k] = good;
                    }
                    Res::Unknown(_) => return Err(Stop::Limit("measure: undecided".into())),
                }
            }
            found.push((ends[0], ends[1]));
            // anything else
            self.smt.soft = false;
            match self.smt.check(&self.ar, &outside) {
                Res::Unsat => break,
                Res::Sat(m) => x = *m.get(&v).unwrap_or(&lo),
                Res::Unknown(_) => return Err(Stop::Limit("measure: undecided".into())),
            }
        }
        Ok(found.iter().map(|f| f.1 - f.0 + 1).sum())
    }
    fn prim(&mut self, st: &mut State, s: S, av: &[V]) -> R<Option<V>> {
        Ok(match s {
            S::Range => {
                let (lo, hi) = (self.cval(st, &av[0])?, self.cval(st, &av[1])?);
                if lo == hi {
                    st.inputs.push(Input::Fixed(lo));
                    return Ok(Some(V::C(lo)));
                }
                let bits = (64 - hi.leading_zeros()).max(1) as u8;
                let ord = st.nsym;
                st.nsym += 1;
                let v = self.ar.var(ord, bits, lo as u128, hi as u128, 0);
                let t = self.ar.zext(v, 64);
                st.inputs.push(Input::Term(t));
                Some(V::S(t))
            }
            S::Assume => {
                let t = self.tt(&av[0], 1);
                self.assume(st, t)?;
                None
            }
            S::Assert => {
                let id = self.cval(st, &av[1])?;
                let t = self.tt(&av[0], 1);
                self.check_assert(st, t, id)?;
                None
            }
            S::Conc => Some(V::C(self.cval(st, &av[0])?)),
            S::Simplify => Some(self.simp_v(st, av[0].clone())),
            S::Param => {
                let i = self.cval(st, &av[0])? as usize;
                Some(V::C(self.cfg.params.get(i).copied().unwrap_or(0)))
            }
            S::Shard => {
                let v = self.cval(st, &av[0])?;
                if v % self.cfg.shard.1 != self.cfg.shard.0 {
                    return Err(Stop::Killed);
                }
                None
            }
            S::Observe => {
                if st.obs.len() < 64 {
                    st.obs.push(av[0].clone());
                }
                None
            }
            S::Reach => {
                let id = self.cval(st, &av[0])?;
                *self.reach.entry(id).or_insert(0) += 1;
                None
            }
            S::Merge => {
                st.merge = self.cval(st, &av[0])? != 0;
                None
            }
            S::Symtab => {
                let k = self.cval(st, &av[0])?;
                st.symtab = k & 1 != 0;
                st.forkidx = k & 2 != 0;
                None
            }
            S::Preempt => {
                let k = self.cval(st, &av[0])? as u32;
                st.preempt = k & 0xff;
                st.choice = k >> 8;
                None
            }
            S::Measure => {
                let (key, total) = (self.cval(st, &av[0])?, self.cval(st, &av[1])?);
                self.measure(st, key, total)?;
                None
            }
            S::Engine => Some(V::C(1)),
            S::Close => return Err(Stop::Done),
        })
    }

    // ---------------------------------------------------------------- environment
    fn runnable(&self, st: &State) -> Vec<usize> {
        (0..st.threads.len()).filter(|&i| st.threads[i].stat == TStat::Run).collect()
    }
    fn switch_thread(&mut self, st: &mut State) -> R<()> {
        let n = st.threads.len();
        for d in 1..=n {
            let i = (st.cur + d) % n;
            if st.threads[i].stat == TStat::Run {
                if st.choice > 0 && !self.spec {
                    self.others = self.runnable(st).into_iter().filter(|&j| j != i && j != st.cur).collect();
                }
                st.cur = i;
                return Ok(());
            }
        }
        // timed waiters give up
        for d in 1..=n {
            let i = (st.cur + d) % n;
            if let TStat::Futex(_, true) = st.threads[i].stat {
                st.threads[i].stat = TStat::Run;
                st.cur = i;
                return Ok(());
            }
        }
        Err(Stop::Deadlock("all threads blocked".into()))
    }
    /// schedules are shared out among the shards by their first departure from the default
    fn mine(&mut self, st: &mut State) -> bool {
        if !st.sched.is_empty() {
            return true;
        }
        st.firsts += 1;
        self.cfg.shard.1 <= 1 || st.firsts % self.cfg.shard.1 as u64 == self.cfg.shard.0 as u64
    }
    /// the other threads that could run instead of the one just switched to
    fn flush_choices(&mut self, st: &mut State) {
        for j in std::mem::take(&mut self.others) {
            if !self.mine(st) {
                continue;
            }
            let mut alt = st.clone();
            alt.choice -= 1;
            alt.cur = j;
            alt.sched.push(j as u8 | 0x80);
            self.push_alt(alt, "schedule");
        }
    }
    /// bounded preemption at a synchronisation operation
    fn sync_point(&mut self, st: &mut State) -> R<()> {
        if self.spec {
            return Err(Stop::Bail);
        }
        if st.preempt == 0 || st.threads[st.cur].at_sync || st.threads.len() < 2 {
            return Ok(());
        }
        st.threads[st.cur].at_sync = true;
        for i in self.runnable(st) {
            if i == st.cur {
                continue;
            }
            if !self.mine(st) {
                continue;
            }
            let mut alt = st.clone();
            alt.preempt -= 1;
            alt.cur = i;
            alt.sched.push(i as u8);
            self.push_alt(alt, "preempt");
        }
        Ok(())
    }
    fn thread_end(&mut self, st: &mut State) -> R<()> {
        // run TLS destructors, then exit
        let cur = st.cur;
        if st.threads[cur].dtor_rounds < 64 {
            for k in 0..st.threads[cur].keys.len() {
                let v = st.threads[cur].keys[k];
                let d = st.key_dtors.get(k).copied().unwrap_or(0);
                if v != 0 && d != 0 {
                    st.threads[cur].keys[k] = 0;
                    st.threads[cur].dtor_rounds += 1;
                    let f = ((d - FUNC_BASE) / 16) as u32;
                    self.enter(st, f, vec![V::C(v)], None, None)?;
                    return Ok(());
                }
            }
        }
        st.threads[cur].stat = TStat::Exited;
        for t in st.threads.iter_mut() {
            if t.stat == TStat::Futex(JOIN + cur as u64 + 1, false) {
                t.stat = TStat::Run;
            }
        }
        self.switch_thread(st)?;
        self.flush_choices(st);
        Ok(())
    }
    fn rand_byte(st: &mut State) -> u8 {
        st.rng ^= st.rng << 13;
        st.rng ^= st.rng >> 7;
        st.rng ^= st.rng << 17;
        (st.rng >> 24) as u8
    }
    fn ext(&mut self, st: &mut State, x: X, av: &[V]) -> R<Option<V>> {
        let c = |e: &mut Engine, st: &mut State, i: usize| -> R<u64> { e.cval(st, &av[i]) };
        Ok(Some(match x {
            X::Malloc => {
                let n = c(self, st, 0)?;
                if n > 1 << 28 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                V::C((st.alloc(n as usize) as u64) << 32)
            }
            X::Calloc => {
                let n = c(self, st, 0)? * c(self, st, 1)?;
                if n > 1 << 28 {
                    return Err(Stop::Limit("huge allocation".into()));
                }
                V::C((st.alloc(n as usize) as u64) << 32)
            }
            X::Realloc => {
                let p = c(self, st, 0)?;
                let n = c(self, st, 1)?;
                let id = st.alloc(n as usize);
                if p != 0 {
                    let old = self.obj(st, (p >> 32) as u32)?;
                    let k = (old.data.len() as u64).min(n);
                    drop(old);
                    self.copy(st, (id as u64) << 32, p, k)?;
                    st.release((p >> 32) as u32);
                }
                V::C((id as u64) << 32)
            }
            X::Free => {
                let p = c(self, st, 0)?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    if id < HEAP_BASE || p as u32 != 0 {
                        return Err(Stop::Mem("bad free".into()));
                    }
                    self.obj(st, id)?;
                    st.release(id);
                }
                V::C(0)
            }
            X::Memalign => {
                let out = c(self, st, 0)?;
                let n = c(self, st, 2)?;
                let id = st.alloc(n as usize);
                self.wr(st, out, 8, &V::C((id as u64) << 32))?;
                V::C(0)
            }
            X::Bcmp | X::Memcmp => {
                let n = c(self, st, 2)?;
                let (p, q) = (c(self, st, 0)?, if n > 0 { c(self, st, 1)? } else { 0 });
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let mut all = vec![];
                let mut sym = false;
                // concrete prefix decides quickly
                let step = if x == X::Bcmp { 8 } else { 1 };
                let mut i = 0;
                while i < n {
                    let k = (n - i).min(step);
                    let a = self.rd(st, p + i, k as u32)?;
                    let b = self.rd(st, q + i, k as u32)?;
                    if let (V::C(u), V::C(v)) = (&a, &b) {
                        if u != v && !sym {
                            let r = if x == X::Bcmp { 1 } else if u < v { 0xffff_ffffu64 } else { 1 };
                            return Ok(Some(V::C(r)));
                        }
                    } else {
                        sym = true;
                    }
                    all.push((a, b, k));
                    i += k;
                }
                if !sym {
                    return Ok(Some(V::C(0)));
                }
                let (z, one, m1) = (self.ar.konst(0, 32), self.ar.konst(1, 32), self.ar.konst(0xffff_ffff, 32));
                let mut acc = z;
                for (a, b, k) in all.into_iter().rev() {
                    let w = (k * 8) as u32;
                    let (ta, tb) = (self.tt(&a, w), self.tt(&b, w));
                    let e = self.ar.bin(O::Eq, ta, tb);
                    let d = if x == X::Bcmp {
                        one
                    } else {
                        let l = self.ar.bin(O::Ult, ta, tb);
                        self.ar.ite(l, m1, one)
                    };
                    acc = self.ar.ite(e, acc, d);
                }
                self.vt(acc)
            }
            X::Strlen => {
                let p = c(self, st, 0)?;
                let mut n = 0;
                loop {
                    match self.rd(st, p + n, 1)? {
                        V::C(0) => break,
                        V::C(_) => n += 1,
                        _ => return Err(Stop::Unsupported("strlen on symbolic".into())),
                    }
                }
                V::C(n)
            }
            X::Abort => return Err(Stop::Panic("abort".into())),
            X::Read => V::C(u64::MAX),
            X::Write => av[2].clone(),
            X::Writev => {
                let p = c(self, st, 1)?;
                let n = c(self, st, 2)?;
                let mut tot = 0;
                for i in 0..n {
                    tot += self.rd(st, p + i * 16 + 8, 8)?.conc().unwrap_or(0) as u64;
                }
                V::C(tot)
            }
            X::Errno => {
                let cur = st.cur;
                if st.threads[cur].errno == 0 {
                    st.threads[cur].errno = st.alloc(4);
                }
                V::C((st.threads[cur].errno as u64) << 32)
            }
            X::Zero => V::C(0),
            X::Dlsym => {
                // the harness may bring its own source of random numbers
                let p = c(self, st, 1)?;
                let want = b"getrandom\0";
                let mut same = true;
                for (i, w) in want.iter().enumerate() {
                    same = same && self.rd(st, p + i as u64, 1)?.conc() == Some(*w as _);
                }
                match self.m.fidx.get("getrandom") {
                    Some(f) if same && self.m.funcs[*f as usize].body.is_some() => V::C(crate::ir::func_addr(*f)),
                    _ => V::C(0),
                }
            }
            X::NegOne => V::C(u64::MAX),
            X::Sysconf => V::C(match c(self, st, 0)? {
                30 => 4096,
                84 => 2,
                _ => 1024,
            }),
            X::ClockGettime => {
                st.clock += 1_000_000;
                let p = c(self, st, 1)?;
                let (s, n) = (st.clock / 1_000_000_000, st.clock % 1_000_000_000);
                self.wr(st, p, 8, &V::C(s))?;
                self.wr(st, p + 8, 8, &V::C(n))?;
                V::C(0)
            }
            X::Getrandom => {
                let (p, n) = (c(self, st, 0)?, c(self, st, 1)?);
                for i in 0..n {
                    let b = Self::rand_byte(st);
                    self.wr(st, p + i, 1, &V::C(b as u64))?;
                }
                V::C(n)
            }
            X::PtCreate => {
                let out = c(self, st, 0)?;
                let f = c(self, st, 2)?;
                let fi = ((f - FUNC_BASE) / 16) as u32;
                let func = self.m.func(fi);
                self.funcs.insert(fi);
                let mut regs = vec![V::C(0); func.nslots as usize];
                if let Some(p) = func.params.first() {
                    regs[*p as usize] = av[3].clone();
                }
                let fr = Frame { regs, func, blk: 0, ip: 0, allocas: vec![], dst: None, normal: None };
                st.threads.push(Thread { frames: vec![fr], stat: TStat::Run, tls: vec![], keys: vec![], errno: 0, at_sync: false, dtor_rounds: 0 });
                let id = st.threads.len() as u64;
                self.wr(st, out, 8, &V::C(id))?;
                V::C(0)
            }
            X::PtJoin => {
                let id = c(self, st, 0)?;
                let i = id as usize;
                if i == 0 || i > st.threads.len() {
                    return Err(Stop::Unsupported("join".into()));
                }
                if st.threads[i - 1].stat != TStat::Exited {
                    // woken by the end of that thread; the result is 0, as the register is
                    let cur = st.cur;
                    st.threads[cur].stat = TStat::Futex(JOIN + id, false);
                    self.switch_thread(st)?;
                    return Ok(None);
                }
                V::C(0)
            }
            X::PtSelf => V::C(st.cur as u64 + 1),
            X::KeyCreate => {
                let out = c(self, st, 0)?;
                let d = c(self, st, 1)?;
                if st.key_dtors.is_empty() {
                    st.key_dtors.push(0); // key 0 unused
                }
                st.key_dtors.push(d);
                let k = st.key_dtors.len() as u64 - 1;
                self.wr(st, out, 4, &V::C(k))?;
                V::C(0)
            }
            X::SetSpecific => {
                let k = c(self, st, 0)? as usize;
                let v = c(self, st, 1)?;
                let cur = st.cur;
                let keys = &mut st.threads[cur].keys;
                if keys.len() <= k {
                    keys.resize(k + 1, 0);
                }
                keys[k] = v;
                V::C(0)
            }
            X::GetSpecific => {
                let k = c(self, st, 0)? as usize;
                V::C(st.threads[st.cur].keys.get(k).copied().unwrap_or(0))
            }
            X::Yield => {
                if self.runnable(st).len() > 1 {
                    self.switch_thread(st)?;
                    return Ok(None);
                }
                V::C(0)
            }
            X::Pause => return Err(Stop::Deadlock("pause()".into())),
            X::Syscall => {
                let n = c(self, st, 0)?;
                match n {
                    202 => {
                        let addr = c(self, st, 1)?;
                        let op = c(self, st, 2)? & 0x7f;
                        let val = c(self, st, 3)? as u32;
                        if op == 0 || op == 9 {
                            let curv = self.rd(st, addr, 4)?;
                            let curv = self.cval(st, &curv)? as u32;
                            if curv != val {
                                let e = self.ext(st, X::Errno, &[])?.unwrap();
                                let e = self.cval(st, &e)?;
                                self.wr(st, e, 4, &V::C(11))?;
                                V::C(u64::MAX)
                            } else {
                                let timed = if av.len() > 4 { c(self, st, 4)? != 0 } else { false };
                                let cur = st.cur;
                                st.threads[cur].stat = TStat::Futex(addr, timed);
                                self.switch_thread(st)?;
                                return Ok(None);
                            }
                        } else if op == 1 || op == 10 {
                            let mut k = 0;
                            for t in st.threads.iter_mut() {
                                if k < val as u64 {
                                    if let TStat::Futex(a, _) = t.stat {
                                        if a == addr {
                                            t.stat = TStat::Run;
                                            k += 1;
                                        }
                                    }
                                }
                            }
                            V::C(k)
                        } else {
                            return Err(Stop::Unsupported("futex op".into()));
                        }
                    }
                    318 => {
                        let (p, n) = (c(self, st, 1)?, c(self, st, 2)?);
                        for i in 0..n {
                            let b = Self::rand_byte(st);
                            self.wr(st, p + i, 1, &V::C(b as u64))?;
                        }
                        V::C(n)
                    }
                    186 => V::C(st.cur as u64 + 100),
                    _ => return Err(Stop::Unsupported(format!("syscall {}", n))),
                }
            }
        }))
    }
}

fn bo(op: BinOp) -> O {
    match op {
        BinOp::Add => O::Add,
        BinOp::Sub => O::Sub,
        BinOp::Mul => O::Mul,
        BinOp::UDiv => O::UDiv,
        BinOp::URem => O::URem,
        BinOp::SDiv => O::SDiv,
        BinOp::SRem => O::SRem,
        BinOp::Shl => O::Shl,
        BinOp::LShr => O::LShr,
        BinOp::AShr => O::AShr,
        BinOp::And => O::And,
        BinOp::Or => O::Or,
        BinOp::Xor => O::Xor,
        BinOp::FAdd => O::FAdd,
        BinOp::FSub => O::FSub,
        BinOp::FMul => O::FMul,
        BinOp::FDiv => O::FDiv,
        BinOp::FRem => panic!("frem"),
    }
}

fn classify(n: &str, has_body: bool) -> FK {
    if let Some(s) = n.strip_prefix("llvm.") {
        let p = |x: &str| s.starts_with(x);
        return if p("lifetime") || p("experimental.noalias") || p("assume") || p("dbg") || p("donothing") || p("prefetch") || p("invariant") || p("sideeffect") {
            FK::Nop
        } else if p("memcpy") || p("memmove") {
            FK::Memcpy
        } else if p("memset") {
            FK::Memset
        } else if p("ctpop") {
            FK::Intr(I::Ctpop)
        } else if p("ctlz") {
            FK::Intr(I::Ctlz)
        } else if p("cttz") {
            FK::Intr(I::Cttz)
        } else if p("bswap") {
            FK::Intr(I::Bswap)
        } else if p("bitreverse") {
            FK::Intr(I::Bitrev)
        } else if p("abs") {
            FK::Intr(I::Abs)
        } else if p("umin") {
            FK::Intr(I::Umin)
        } else if p("umax") {
            FK::Intr(I::Umax)
        } else if p("smin") {
            FK::Intr(I::Smin)
        } else if p("smax") {
            FK::Intr(I::Smax)
        } else if p("usub.sat") {
            FK::Intr(I::UsubSat)
        } else if p("uadd.sat") {
            FK::Intr(I::UaddSat)
        } else if p("fshl") {
            FK::Intr(I::Fshl)
        } else if p("fshr") {
            FK::Intr(I::Fshr)
        } else if p("ucmp") {
            FK::Intr(I::Ucmp)
        } else if p("scmp") {
            FK::Intr(I::Scmp)
        } else if p("uadd.with") {
            FK::Intr(I::UaddO)
        } else if p("usub.with") {
            FK::Intr(I::UsubO)
        } else if p("umul.with") {
            FK::Intr(I::UmulO)
        } else if p("sadd.with") {
            FK::Intr(I::SaddO)
        } else if p("ssub.with") {
            FK::Intr(I::SsubO)
        } else if p("smul.with") {
            FK::Intr(I::SmulO)
        } else if p("fabs") {
            FK::Intr(I::Fabs)
        } else if p("sqrt") {
            FK::Intr(I::Sqrt)
        } else if p("floor") {
            FK::Intr(I::Floor)
        } else if p("fmuladd") {
            FK::Intr(I::Fma)
        } else if p("minnum") || p("minimumnum") {
            FK::Intr(I::Minnum)
        } else if p("maxnum") || p("maximumnum") {
            FK::Intr(I::Maxnum)
        } else if p("copysign") {
            FK::Intr(I::Copysign)
        } else if p("fptoui.sat") {
            FK::Intr(I::FToUs)
        } else if p("fptosi.sat") {
            FK::Intr(I::FToSs)
        } else if p("threadlocal.address") {
            FK::Intr(I::Tls)
        } else if p("is.constant") {
            FK::Intr(I::IsConst)
        } else if p("expect") || p("launder") || p("strip") || p("ssa.copy") {
            FK::Intr(I::Arg0)
        } else if p("vector.reduce.add") {
            FK::Intr(I::RedAdd)
        } else if p("vector.reduce.mul") {
            FK::Intr(I::RedMul)
        } else if p("vector.reduce.or") {
            FK::Intr(I::RedOr)
        } else if p("vector.reduce.and") {
            FK::Intr(I::RedAnd)
        } else if p("vector.reduce.xor") {
            FK::Intr(I::RedXor)
        } else if p("vector.reduce.umax") {
            FK::Intr(I::RedUmax)
        } else if p("vector.reduce.umin") {
            FK::Intr(I::RedUmin)
        } else if p("vector.reduce.smax") {
            FK::Intr(I::RedSmax)
        } else if p("vector.reduce.smin") {
            FK::Intr(I::RedSmin)
        } else if p("trap") {
            FK::Panic
        } else if p("x86.sse2.pause") {
            FK::Ext(X::Yield)
        } else {
            FK::Unknown
        };
    }
    let sx = match n {
        "sx_range" => Some(S::Range),
        "sx_assume" => Some(S::Assume),
        "sx_assert" => Some(S::Assert),
        "sx_concretize" => Some(S::Conc),
        "sx_simplify" => Some(S::Simplify),
        "sx_param" => Some(S::Param),
        "sx_shard" => Some(S::Shard),
        "sx_observe" => Some(S::Observe),
        "sx_reach" => Some(S::Reach),
        "sx_merge" => Some(S::Merge),
        "sx_symtab" => Some(S::Symtab),
        "sx_measure" => Some(S::Measure),
        "sx_preempt" => Some(S::Preempt),
        "sx_engine" => Some(S::Engine),
        "sx_done" => Some(S::Close),
        _ => None,
    };
    if let Some(s) = sx {
        return FK::Sx(s);
    }
    if n.contains("4core9panicking")
        || (n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("panic_handler") || n.contains("panic_with_hook") || n.contains("rust_panic")))
        || n == "rust_begin_unwind"
        || n.contains("rust_begin_unwind")
        || n.contains("handle_alloc_error")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("slice_error_fail")
    {
        return FK::Panic;
    }
    let x = match n {
        "malloc" => Some(X::Malloc),
        "calloc" => Some(X::Calloc),
        "realloc" => Some(X::Realloc),
        "free" => Some(X::Free),
        "posix_memalign" => Some(X::Memalign),
        "bcmp" => Some(X::Bcmp),
        "memcmp" => Some(X::Memcmp),
        "strlen" => Some(X::Strlen),
        "abort" => Some(X::Abort),
        "read" => Some(X::Read),
        "write" => Some(X::Write),
        "writev" => Some(X::Writev),
        "__errno_location" => Some(X::Errno),
        "syscall" => Some(X::Syscall),
        "dlsym" => Some(X::Dlsym),
        "getenv" | "close" | "munmap" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "pthread_detach"
        | "pthread_key_delete" | "pthread_attr_setguardsize" => Some(X::Zero),
        "open64" | "stat64" | "fstat64" | "readlink" | "lseek64" => Some(X::NegOne),
        "sysconf" => Some(X::Sysconf),
        "clock_gettime" => Some(X::ClockGettime),
        "getrandom" if !has_body => Some(X::Getrandom),
        "pthread_create" => Some(X::PtCreate),
        "pthread_join" => Some(X::PtJoin),
        "pthread_self" => Some(X::PtSelf),
        "pthread_key_create" => Some(X::KeyCreate),
        "pthread_setspecific" => Some(X::SetSpecific),
        "pthread_getspecific" => Some(X::GetSpecific),
        "sched_yield" => Some(X::Yield),
        "pause" => Some(X::Pause),
        "memcpy" | "memmove" if !has_body => return FK::Memcpy,
        "memset" if !has_body => return FK::Memset,
        _ => None,
    };
    if let Some(x) = x {
        return FK::Ext(x);
    }
    if has_body {
        FK::Normal
    } else {
        FK::Unknown
    }
}
