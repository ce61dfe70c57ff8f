//! Byte-addressed objects with a symbolic overlay. Addresses are (object id << 32) | offset.
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, (T, u8)>,
    pub ro: bool,
}
pub const HEAP_BASE: u32 = 0x100000;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(T),
    X(Rc<Ext>),
}
#[derive(Clone, Debug)]
pub enum Ext {
    Big(u128),
    Agg(Vec<V>),
}
pub fn mkc(v: u128) -> V {
    if v <= u64::MAX as u128 {
        V::C(v as u64)
    } else {
        V::X(Rc::new(Ext::Big(v)))
    }
}
impl V {
    pub fn conc(&self) -> Option<u128> {
        match self {
            V::C(v) => Some(*v as u128),
            V::X(x) => match &**x {
                Ext::Big(b) => Some(*b),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn is_sym(&self) -> bool {
        matches!(self, V::S(_))
    }
    pub fn agg(&self) -> Option<&Vec<V>> {
        match self {
            V::X(x) => match &**x {
                Ext::Agg(a) => Some(a),
                _ => None,
            },
            _ => None,
        }
    }
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: BTreeMap::new(), ro: false }
    }
    pub fn has_sym(&self, off: u32, n: u32) -> bool {
        if self.sym.is_empty() {
            return false;
        }
        let lo = off.saturating_sub(15);
        self.sym.range(lo..off + n).any(|(&o, &(_, k))| o + k as u32 > off)
    }
    pub fn read_c(&self, off: u32, n: u32) -> u128 {
        let mut v = 0u128;
        let d = &self.data[off as usize..(off + n) as usize];
        if n == 8 {
            return u64::from_le_bytes(d.try_into().unwrap()) as u128;
        }
        for i in (0..n as usize).rev() {
            v = (v << 8) | d[i] as u128;
        }
        v
    }
    /// read n bytes (n<=16); width 8n
    pub fn read(&self, ar: &mut Arena, off: u32, n: u32) -> V {
        if !self.has_sym(off, n) {
            return mkc(self.read_c(off, n));
        }
        if let Some(&(t, k)) = self.sym.get(&off) {
            if k as u32 == n {
                return V::S(t);
            }
            if k as u32 > n {
                let r = ar.extract(t, 0, (n * 8) as u8);
                return V::S(r);
            }
        }
        // bytewise, grouped
        let mut acc: Option<T> = None;
        let mut i = 0;
        while i < n {
            let o = off + i;
            // find covering entry
            let lo = o.saturating_sub(15);
            let e = self.sym.range(lo..=o).rev().find(|(&so, &(_, k))| so + k as u32 > o).map(|(&so, &(t, k))| (so, t, k));
            let (piece, len) = match e {
                Some((so, t, k)) => {
                    let avail = (so + k as u32 - o).min(n - i);
                    (ar.extract(t, ((o - so) * 8) as u8, (avail * 8) as u8), avail)
                }
                None => {
                    let nx = self.sym.range(o..off + n).next().map(|(&so, _)| so).unwrap_or(off + n);
                    let len = (nx - o).min(n - i);
                    let c = self.read_c(o, len);
                    (ar.konst(c, (len * 8) as u8), len)
                }
            };
            acc = Some(match acc {
                None => piece,
                Some(a) => ar.concat(piece, a),
            });
            i += len;
        }
        let t = acc.unwrap();
        match ar.as_const(t) {
            Some(k) => mkc(k),
            None => V::S(t),
        }
    }
    pub fn clear_sym(&mut self, ar: &mut Arena, off: u32, n: u32) {
        if self.sym.is_empty() {
            return;
        }
        let lo = off.saturating_sub(15);
        let hit: Vec<(u32, T, u8)> =
            self.sym.range(lo..off + n).filter(|(&o, &(_, k))| o + k as u32 > off).map(|(&o, &(t, k))| (o, t, k)).collect();
        for (o, t, k) in hit {
            self.sym.remove(&o);
            let end = o + k as u32;
            if o < off {
                let p = ar.extract(t, 0, ((off - o) * 8) as u8);
                self.put(ar, o, p, (off - o) as u8);
            }
            if end > off + n {
                let s = off + n;
                let p = ar.extract(t, ((s - o) * 8) as u8, ((end - s) * 8) as u8);
                self.put(ar, s, p, (end - s) as u8);
            }
        }
    }
    fn put(&mut self, ar: &Arena, off: u32, t: T, n: u8) {
        match ar.as_const(t) {
            Some(k) => self.write_c(off, n as u32, k),
            None => {
                self.sym.insert(off, (t, n));
            }
        }
    }
    pub fn write_c(&mut self, off: u32, n: u32, v: u128) {
        let d = &mut self.data[off as usize..(off + n) as usize];
        if n == 8 {
            d.copy_from_slice(&(v as u64).to_le_bytes());
            return;
        }
        for i in 0..n as usize {
            d[i] = (v >> (8 * i)) as u8;
        }
    }
    pub fn write(&mut self, ar: &mut Arena, off: u32, n: u32, v: &V) {
        self.clear_sym(ar, off, n);
        match v {
            V::S(t) => {
                let t = *t;
                let w = ar.w(t) as u32;
                debug_assert_eq!(w, n * 8);
                self.put(ar, off, t, n as u8);
            }
            v => self.write_c(off, n, v.conc().expect("scalar")),
        }
    }
}
