//! Parser for the textual LLVM IR that rustc emits for the harness crate (pokers + std, fat LTO).
//! Functions are parsed lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => ((*n as u64) * (*w as u64) + 7) / 8,
                t => *n as u64 * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_fp(&self) -> bool {
        matches!(self, Ty::Double | Ty::Float)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Slot(u32),
    /// scalar constant of at most 128 bits
    C(u128),
    Agg(Rc<Vec<Op>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Bitcast, PtrToInt, IntToPtr, UIToFP, SIToFP, FPToUI, FPToSI, FPTrunc, FPExt }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // index in module funcs
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, dst: u32, a: Op, b: Op },
    ICmp { pred: Pred, ty: Ty, dst: u32, a: Op, b: Op },
    FCmp { pred: u8, ty: Ty, dst: u32, a: Op, b: Op },
    FNeg { ty: Ty, dst: u32, a: Op },
    Cast { op: CastOp, from: Ty, to: Ty, dst: u32, a: Op },
    Select { dst: u32, cty: Ty, ty: Ty, c: Op, a: Op, b: Op },
    Load { dst: u32, ty: Ty, ptr: Op, atomic: bool },
    Store { ty: Ty, val: Op, ptr: Op, atomic: bool },
    Alloca { dst: u32, size: u64, count: Option<(Op, u32)> },
    Gep { dst: u32, base: Op, off: i64, steps: Vec<(Op, u32, i64)> },
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    ExtractValue { dst: u32, a: Op, path: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Op, v: Op, path: Vec<u32> },
    ExtractElement { dst: u32, a: Op, i: Op },
    InsertElement { dst: u32, a: Op, v: Op, i: Op, ty: Ty },
    Shuffle { dst: u32, a: Op, b: Op, mask: Vec<i32>, n: u32 },
    Rmw { dst: u32, op: RmwOp, ty: Ty, ptr: Op, val: Op },
    CmpXchg { dst: u32, ty: Ty, ptr: Op, cmp: Op, new: Op },
    Fence,
    Freeze { dst: u32, a: Op },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { w: u32, v: Op, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Op>),
    Unreachable,
    Resume,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Op)>, // pred block, value
}
#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nslots: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range in text (define line .. closing brace)
    pub weak: bool,
    pub parsed: std::cell::RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub init: Option<(usize, usize)>, // byte range: type + initializer
    pub constant: bool,
    pub tls: bool,
    pub cached: std::cell::RefCell<Option<Rc<Vec<u8>>>>,
}

pub struct Module {
    pub text: Rc<String>,
    pub types: HashMap<String, Ty>,
    pub typetext: HashMap<String, (usize, usize)>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const FUNC_BASE: u64 = 0x7F00_0000_0000_0000;
pub fn global_addr(g: u32) -> u64 {
    ((g as u64) + 1) << 32
}
pub fn func_addr(f: u32) -> u64 {
    FUNC_BASE + (f as u64) * 16
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    CStr(Vec<u8>),
    Str(&'a str),
    P(u8),
    Meta(&'a str),
    Attr,
    Dots,
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_idc(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                if c == b'%' {
                    out.push(Tok::Local(&s[st..en]));
                } else {
                    out.push(Tok::Global(&s[st..en]));
                }
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(&s[i + 1..j]));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tok::Attr);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(&s[i + 1..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut v = Vec::new();
                let mut j = i + 2;
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            v.push(b'\\');
                            j += 2;
                            continue;
                        }
                        let h = u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap();
                        v.push(h);
                        j += 3;
                    } else {
                        v.push(b[j]);
                        j += 1;
                    }
                }
                out.push(Tok::CStr(v));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let mut j = i + 1;
                while j < b.len()
                    && (b[j].is_ascii_alphanumeric()
                        || b[j] == b'.'
                        || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E') && !s[i..j].starts_with("0x")))
                {
                    j += 1;
                }
                out.push(Tok::Num(&s[i..j]));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                let mut j = i;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(&s[i..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
    }
    out
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = Rc::new(std::fs::read_to_string(path).expect("read ll"));
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            typetext: HashMap::new(),
            funcs: Vec::new(),
            fidx: HashMap::new(),
            globals: Vec::new(),
            gidx: HashMap::new(),
            aliases: HashMap::new(),
        };
        let bytes = text.as_bytes();
        let mut pos = 0;
        let n = bytes.len();
        let mut alias_lines = Vec::new();
        while pos < n {
            let eol = memchr(bytes, pos).unwrap_or(n);
            let line = &text[pos..eol];
            if line.starts_with('@') {
                let toks_end = line.find(" = ").expect("global");
                let name = line[1..toks_end].trim_matches('"').to_string();
                let rest = &line[toks_end + 3..];
                // words until the type
                let mut constant = false;
                let mut tls = false;
                let mut is_alias = false;
                let mut external = false;
                let mut off = toks_end + 3;
                let mut r = rest;
                loop {
                    let w = r.split(' ').next().unwrap();
                    let wl = w.len() + 1;
                    if w == "constant" {
                        constant = true;
                        off += wl;
                        break;
                    }
                    if w == "global" {
                        off += wl;
                        break;
                    }
                    if w == "alias" {
                        is_alias = true;
                        break;
                    }
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if w.starts_with("thread_local") {
                        tls = true;
                    }
                    off += wl;
                    r = &r[wl..];
                }
                if is_alias {
                    alias_lines.push((name, pos, eol));
                } else {
                    let gi = m.globals.len() as u32;
                    m.gidx.insert(name.clone(), gi);
                    m.globals.push(Global {
                        name,
                        init: if external { None } else { Some((pos + off, eol)) },
                        constant,
                        tls,
                        cached: Default::default(),
                    });
                }
                pos = eol + 1;
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = find_func_at(line);
                let name = if line.as_bytes()[at + 1] == b'"' {
                    let e = line[at + 2..].find('"').unwrap();
                    &line[at + 2..at + 2 + e]
                } else {
                    let e = line[at..].find('(').unwrap();
                    &line[at + 1..at + e]
                };
                let fi = m.funcs.len() as u32;
                m.fidx.insert(name.to_string(), fi);
                let body = if line.starts_with("define ") {
                    // find "\n}\n"
                    let mut p = eol + 1;
                    loop {
                        let e = memchr(bytes, p).unwrap_or(n);
                        if bytes[p] == b'}' {
                            break;
                        }
                        p = e + 1;
                    }
                    let r = (pos, p);
                    pos = memchr(bytes, p).unwrap_or(n) + 1;
                    Some(r)
                } else {
                    pos = eol + 1;
                    None
                };
                let weak = line.contains(" extern_weak ");
                m.funcs.push(FuncDecl { name: name.to_string(), body, weak, parsed: Default::default() });
            } else if line.starts_with('%') {
                let e = line.find(" = type ").unwrap();
                let name = line[1..e].trim_matches('"').to_string();
                m.typetext.insert(name, (pos + e + 8, eol));
                pos = eol + 1;
            } else {
                pos = eol + 1;
            }
        }
        for (name, s, e) in alias_lines {
            let line = &text[s..e];
            let toks = lex(line);
            let tgt = toks.iter().rev().find_map(|t| if let Tok::Global(g) = t { Some(g.to_string()) } else { None }).unwrap();
            m.aliases.insert(name, tgt);
        }
        // resolve named types
        let names: Vec<String> = m.typetext.keys().cloned().collect();
        for nme in names {
            m.resolve_type(&nme);
        }
        m
    }
    fn resolve_type(&mut self, name: &str) -> Ty {
        if let Some(t) = self.types.get(name) {
            return t.clone();
        }
        let Some(&(s, e)) = self.typetext.get(name) else { return Ty::Other };
        let text = self.text.clone();
        let toks = lex(&text[s..e]);
        // pre-resolve nested
        for t in &toks {
            if let Tok::Local(n) = t {
                if *n != name {
                    self.resolve_type(n);
                }
            }
        }
        let mut p = P { m: self, t: &toks, i: 0, ctx: None };
        let ty = p.ty();
        self.types.insert(name.to_string(), ty.clone());
        ty
    }
    pub fn sym_addr(&self, name: &str) -> u64 {
        let mut n = name;
        let mut k = 0;
        while let Some(a) = self.aliases.get(n) {
            n = a;
            k += 1;
            if k > 10 {
                break;
            }
        }
        if let Some(&f) = self.fidx.get(n) {
            if self.funcs[f as usize].weak && self.funcs[f as usize].body.is_none() {
                return 0;
            }
            return func_addr(f);
        }
        if let Some(&g) = self.gidx.get(n) {
            if self.globals[g as usize].init.is_none() {
                return 0;
            }
            return global_addr(g);
        }
        panic!("unknown symbol {}", name)
    }
    pub fn global_init(&self, g: u32) -> Rc<Vec<u8>> {
        let gl = &self.globals[g as usize];
        if let Some(r) = &*gl.cached.borrow() {
            return r.clone();
        }
        let (s, e) = gl.init.expect("external global");
        let toks = lex(&self.text[s..e]);
        let mut p = P { m: self, t: &toks, i: 0, ctx: None };
        let ty = p.ty();
        let c = p.constant(&ty);
        let mut bytes = vec![0u8; ty.size() as usize];
        write_const(&ty, &c, &mut bytes, 0);
        let r = Rc::new(bytes);
        *gl.cached.borrow_mut() = Some(r.clone());
        r
    }
    pub fn func(&self, f: u32) -> Rc<Func> {
        let d = &self.funcs[f as usize];
        if let Some(r) = &*d.parsed.borrow() {
            return r.clone();
        }
        let r = Rc::new(self.parse_func(f));
        *d.parsed.borrow_mut() = Some(r.clone());
        r
    }
    fn parse_func(&self, f: u32) -> Func {
        let d = &self.funcs[f as usize];
        let (s, e) = d.body.unwrap();
        let text = &self.text[s..e];
        let hdr_end = text.find('\n').unwrap();
        let hdr = &text[..hdr_end];
        let at = find_func_at(hdr);
        let mut ctx = Ctx { slots: HashMap::new(), n: 0, blocks: HashMap::new() };
        // params
        let toks = lex(&hdr[at..]);
        let mut params = Vec::new();
        let mut unnamed = 0u32;
        {
            let mut p = P { m: self, t: &toks, i: 1, ctx: None };
            p.expect(b'(');
            if !p.accept(b')') {
                loop {
                    if p.peek() == Some(&Tok::Dots) {
                        p.i += 1;
                        p.expect(b')');
                        break;
                    }
                    let _ty = p.ty();
                    p.skip_attrs();
                    let nm = if let Some(Tok::Local(n)) = p.peek() {
                        let r = n.to_string();
                        p.i += 1;
                        if let Ok(k) = r.parse::<u32>() {
                            unnamed = unnamed.max(k + 1);
                        }
                        r
                    } else {
                        let r = unnamed.to_string();
                        unnamed += 1;
                        r
                    };
                    let sl = ctx.slot(&nm);
                    params.push(sl);
                    if p.accept(b',') {
                        continue;
                    }
                    p.expect(b')');
                    break;
                }
            }
        }
        // split into statements
        let body = &text[hdr_end + 1..];
        // First pass: block labels
        let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
        let mut cur: Option<(String, Vec<String>)> = None;
        let mut lines = body.lines().peekable();
        while let Some(l) = lines.next() {
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    l[1..1 + e].to_string()
                } else {
                    let e = l.find(':').unwrap_or_else(|| panic!("label? {}", l));
                    l[..e].to_string()
                };
                if let Some(c) = cur.take() {
                    blocks.push(c);
                }
                cur = Some((lab, Vec::new()));
                continue;
            }
            let tl = l.trim_start();
            if tl.starts_with(';') {
                continue;
            }
            if cur.is_none() {
                // unnamed entry block gets next number = number of params unnamed
                cur = Some((format!("{}", unnamed), Vec::new()));
            }
            let c = cur.as_mut().unwrap();
            let mut st = tl.to_string();
            let is_sw = st.starts_with("switch ");
            if is_sw {
                while !st.contains(']') {
                    st.push(' ');
                    st.push_str(lines.next().unwrap().trim());
                }
            } else {
                // continuation lines (invoke .. to label, landingpad clauses)
                while let Some(nl) = lines.peek() {
                    if nl.starts_with("          ") || nl.trim_start().starts_with("to label") {
                        st.push(' ');
                        st.push_str(nl.trim());
                        lines.next();
                    } else {
                        break;
                    }
                }
            }
            c.1.push(st);
        }
        if let Some(c) = cur.take() {
            blocks.push(c);
        }
        for (i, b) in blocks.iter().enumerate() {
            ctx.blocks.insert(b.0.clone(), i as u32);
        }
        let mut out = Vec::new();
        for (name, sts) in &blocks {
            let mut phis = Vec::new();
            let mut insts = Vec::new();
            for st in sts {
                let toks = lex(st);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut p = P { m: self, t: &toks, i: 0, ctx: Some(&mut ctx) };
                    p.stmt()
                }));
                match r {
                    Ok(Stmt::Phi(p)) => phis.push(p),
                    Ok(Stmt::Inst(i)) => insts.push(i),
                    Ok(Stmt::Skip) => {}
                    Err(_) => insts.push(Inst::Unsupported(st.chars().take(200).collect())),
                }
            }
            out.push(Block { name: name.clone(), phis, insts });
        }
        Func { name: d.name.clone(), idx: f, nslots: ctx.n, params, blocks: out }
    }
}

fn memchr(b: &[u8], mut p: usize) -> Option<usize> {
    while p < b.len() {
        if b[p] == b'\n' {
            return Some(p);
        }
        p += 1;
    }
    None
}
fn find_func_at(line: &str) -> usize {
    // first '@' (return attributes never contain one)
    line.find('@').unwrap()
}

pub fn write_const(ty: &Ty, c: &Op, out: &mut [u8], off: usize) {
    match (ty, c) {
        (Ty::Arr(..), Op::Agg(v)) | (Ty::Struct(..), Op::Agg(v)) | (Ty::Vec(..), Op::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                write_const(&ty.elem(i), x, out, off + o);
            }
        }
        (_, Op::C(v)) => {
            let n = ty.size() as usize;
            if ty.is_agg() {
                return; // zero
            }
            for k in 0..n.min(16) {
                out[off + k] = (v >> (8 * k)) as u8;
            }
        }
        _ => panic!("const"),
    }
}

struct Ctx {
    slots: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
}
impl Ctx {
    fn slot(&mut self, n: &str) -> u32 {
        if let Some(&s) = self.slots.get(n) {
            return s;
        }
        let s = self.n;
        self.n += 1;
        self.slots.insert(n.to_string(), s);
        s
    }
}
enum Stmt {
    Phi(Phi),
    Inst(Inst),
    Skip,
}
struct P<'a, 'm, 'c> {
    m: &'m Module,
    t: &'a [Tok<'a>],
    i: usize,
    ctx: Option<&'c mut Ctx>,
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl<'a, 'm, 'c> P<'a, 'm, 'c> {
    fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn accept(&mut self, c: u8) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.accept(c) {
            panic!("expected {} at {:?}", c as char, self.t.get(self.i));
        }
    }
    fn accept_id(&mut self, s: &str) -> bool {
        if self.peek() == Some(&Tok::Id(s)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ty(&mut self) -> Ty {
        let t = self.next();
        let mut ty = match t {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if self.accept_id("addrspace") {
                    self.expect(b'(');
                    self.next();
                    self.expect(b')');
                }
                Ty::Ptr
            }
            Tok::Id("float") => Ty::Float,
            Tok::Id("double") => Ty::Double,
            Tok::Id("metadata") | Tok::Id("label") | Tok::Id("token") | Tok::Id("half") | Tok::Id("x86_fp80") | Tok::Id("fp128") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {}", s))),
            Tok::P(b'[') => {
                let Tok::Num(n) = self.next() else { panic!("arr") };
                assert!(self.accept_id("x"));
                let e = self.ty();
                self.expect(b']');
                Ty::Arr(n.parse().unwrap(), Rc::new(e))
            }
            Tok::P(b'<') => {
                if self.peek() == Some(&Tok::P(b'{')) {
                    self.i += 1;
                    let f = self.fields();
                    self.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let Tok::Num(n) = self.next() else { panic!("vec") };
                    assert!(self.accept_id("x"));
                    let e = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n.parse().unwrap(), Rc::new(e))
                }
            }
            Tok::P(b'{') => {
                let f = self.fields();
                Ty::Struct(Rc::new(f), false)
            }
            Tok::Local(n) => self.m.types.get(n).cloned().unwrap_or(Ty::Other),
            t => panic!("type: {:?}", t),
        };
        // function type: ty (args)  - only appears in calls with varargs
        if self.peek() == Some(&Tok::P(b'(')) && matches!(ty, Ty::Void | Ty::Int(_) | Ty::Ptr) {
            // lookahead: is it a function type "i64 (i64, ...)" ?
            let save = self.i;
            self.i += 1;
            let mut depth = 1;
            while depth > 0 {
                match self.next() {
                    Tok::P(b'(') => depth += 1,
                    Tok::P(b')') => depth -= 1,
                    _ => {}
                }
            }
            if !matches!(self.peek(), Some(Tok::Global(_)) | Some(Tok::Local(_))) {
                self.i = save;
            }
            let _ = &mut ty;
        }
        ty
    }
    fn fields(&mut self) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.accept(b'}') {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.accept(b',') {
                continue;
            }
            self.expect(b'}');
            return f;
        }
    }
    fn skip_parens(&mut self) {
        if self.accept(b'(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    Tok::P(b'(') => d += 1,
                    Tok::P(b')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    fn is_const_kw(s: &str) -> bool {
        matches!(
            s,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr"
                | "trunc" | "sub" | "add" | "xor" | "bitcast" | "addrspacecast" | "c" | "zext" | "shl" | "asm" | "ptrtoaddr"
        )
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) if !Self::is_const_kw(s) => {
                    let is_align = *s == "align";
                    self.i += 1;
                    if is_align {
                        if let Some(Tok::Num(_)) = self.peek() {
                            self.i += 1;
                            continue;
                        }
                    }
                    self.skip_parens();
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.accept(b'=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr) => self.i += 1,
                _ => return,
            }
        }
    }
    fn num(&self, n: &str, ty: &Ty) -> u128 {
        match ty {
            Ty::Int(w) => {
                if let Some(x) = n.strip_prefix("u0x") {
                    return u128::from_str_radix(x, 16).unwrap() & mask(*w);
                }
                if let Some(x) = n.strip_prefix("s0x") {
                    return u128::from_str_radix(x, 16).unwrap() & mask(*w);
                }
                if let Some(x) = n.strip_prefix('-') {
                    let v: u128 = x.parse().unwrap();
                    (v.wrapping_neg()) & mask(*w)
                } else {
                    n.parse::<u128>().unwrap_or_else(|_| panic!("num {}", n)) & mask(*w)
                }
            }
            Ty::Double => {
                if let Some(x) = n.strip_prefix("0x") {
                    u64::from_str_radix(x, 16).unwrap() as u128
                } else if n == "+inf" {
                    f64::INFINITY.to_bits() as u128
                } else if n == "-inf" {
                    f64::NEG_INFINITY.to_bits() as u128
                } else {
                    n.parse::<f64>().unwrap().to_bits() as u128
                }
            }
            Ty::Float => {
                if let Some(x) = n.strip_prefix("0x") {
                    (f64::from_bits(u64::from_str_radix(x, 16).unwrap()) as f32).to_bits() as u128
                } else {
                    (n.parse::<f64>().unwrap() as f32).to_bits() as u128
                }
            }
            _ => panic!("num of {:?}", ty),
        }
    }
    fn zero(ty: &Ty) -> Op {
        if ty.is_agg() {
            let n = ty.nelem();
            Op::Agg(Rc::new((0..n).map(|i| Self::zero(&ty.elem(i))).collect()))
        } else {
            Op::C(0)
        }
    }
    fn scalar_c(o: &Op) -> u128 {
        match o {
            Op::C(v) => *v,
            _ => panic!("non-constant"),
        }
    }
    /// constant or local operand of the given type
    fn operand(&mut self, ty: &Ty) -> Op {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = *n;
            self.i += 1;
            let s = self.ctx.as_mut().expect("local in constant").slot(n);
            return Op::Slot(s);
        }
        self.constant(ty)
    }
    fn constant(&mut self, ty: &Ty) -> Op {
        let t = self.next();
        match t {
            Tok::Local(n) => {
                let s = self.ctx.as_mut().expect("local in constant").slot(n);
                Op::Slot(s)
            }
            Tok::Num(n) => Op::C(self.num(n, ty)),
            Tok::Id(n) if n.starts_with("f0x") => Op::C(u128::from_str_radix(&n[3..], 16).unwrap()),
            Tok::Id("true") => Op::C(1),
            Tok::Id("false") => Op::C(0),
            Tok::Id("null") | Tok::Id("none") => Op::C(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => Self::zero(ty),
            Tok::Id("nan") => Op::C(f64::NAN.to_bits() as u128),
            Tok::Global(n) => Op::C(self.m.sym_addr(n) as u128),
            Tok::CStr(v) => Op::Agg(Rc::new(v.into_iter().map(|b| Op::C(b as u128)).collect())),
            Tok::Id("splat") => {
                self.expect(b'(');
                let et = self.ty();
                let v = self.constant(&et);
                self.expect(b')');
                Op::Agg(Rc::new(vec![v; ty.nelem()]))
            }
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if t == Tok::P(b'[') { b']' } else { b'}' };
                let mut v = Vec::new();
                if self.accept(close) {
                    return Op::Agg(Rc::new(v));
                }
                loop {
                    let et = self.ty();
                    v.push(self.operand(&et));
                    if self.accept(b',') {
                        continue;
                    }
                    self.expect(close);
                    break;
                }
                Op::Agg(Rc::new(v))
            }
            Tok::P(b'<') => {
                let packed = self.accept(b'{');
                let mut v = Vec::new();
                if packed && self.accept(b'}') {
                    self.expect(b'>');
                    return Op::Agg(Rc::new(v));
                }
                loop {
                    let et = self.ty();
                    v.push(self.operand(&et));
                    if self.accept(b',') {
                        continue;
                    }
                    break;
                }
                if packed {
                    self.expect(b'}');
                }
                self.expect(b'>');
                Op::Agg(Rc::new(v))
            }
            Tok::Id("getelementptr") => {
                while let Some(Tok::Id(s)) = self.peek() {
                    if *s == "inbounds" || *s == "nuw" || *s == "nusw" || *s == "inrange" {
                        self.i += 1;
                        self.skip_parens_if_inrange();
                    } else {
                        break;
                    }
                }
                self.expect(b'(');
                let et = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = Self::scalar_c(&self.constant(&pt));
                let mut off = 0i128;
                let mut first = true;
                let mut cur = et;
                while self.accept(b',') {
                    let it = self.ty();
                    let iv = Self::scalar_c(&self.constant(&it));
                    let iv = sext(iv, it.bits());
                    if first {
                        off += iv * cur.size() as i128;
                        first = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(..) => {
                                off += cur.field_off(iv as usize) as i128;
                                cur = cur.elem(iv as usize);
                            }
                            _ => {
                                let e = cur.elem(0);
                                off += iv * e.size() as i128;
                                cur = e;
                            }
                        }
                    }
                }
                self.expect(b')');
                Op::C((base as i128 + off) as u64 as u128)
            }
            Tok::Id(c @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "addrspacecast" | "zext" | "ptrtoaddr")) => {
                let _ = c;
                self.expect(b'(');
                let ft = self.ty();
                let v = Self::scalar_c(&self.constant(&ft));
                assert!(self.accept_id("to"));
                let tt = self.ty();
                self.expect(b')');
                Op::C(v & mask(tt.bits()))
            }
            Tok::Id(c @ ("sub" | "add" | "xor" | "shl")) => {
                while let Some(Tok::Id(_)) = self.peek() {
                    self.i += 1;
                }
                self.expect(b'(');
                let at = self.ty();
                let a = Self::scalar_c(&self.constant(&at));
                self.expect(b',');
                let bt = self.ty();
                let b = Self::scalar_c(&self.constant(&bt));
                self.expect(b')');
                let r = match c {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "shl" => a << b,
                    _ => a ^ b,
                };
                Op::C(r & mask(at.bits()))
            }
            t => panic!("constant: {:?}", t),
        }
    }
    fn skip_parens_if_inrange(&mut self) {
        if let Some(Tok::Id("inrange")) = self.t.get(self.i - 1) {
            self.skip_parens();
        }
    }
    fn typed(&mut self) -> (Ty, Op) {
        let ty = self.ty();
        self.skip_attrs();
        if ty == Ty::Other {
            // metadata operand: skip to , or )
            let mut d = 0;
            while let Some(t) = self.peek() {
                match t {
                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                    Tok::P(b')') | Tok::P(b'}') if d > 0 => d -= 1,
                    Tok::P(b',') | Tok::P(b')') if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return (ty, Op::C(0));
        }
        let o = self.operand(&ty);
        (ty, o)
    }
    fn label(&mut self) -> u32 {
        assert!(self.accept_id("label"));
        let Tok::Local(n) = self.next() else { panic!("label") };
        self.ctx.as_ref().unwrap().blocks[n]
    }
    fn flags(&mut self) {
        while let Some(Tok::Id(s)) = self.peek() {
            if matches!(*s, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "inrange") {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn stmt(&mut self) -> Stmt {
        let mut dst: Option<u32> = None;
        if let Some(Tok::Local(n)) = self.peek() {
            let n = *n;
            if self.t.get(self.i + 1) == Some(&Tok::P(b'=')) {
                self.i += 2;
                dst = Some(self.ctx.as_mut().unwrap().slot(n));
            }
        }
        let op = match self.next() {
            Tok::Id(s) => s,
            t => panic!("stmt {:?}", t),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "urem" => BinOp::URem,
                "sdiv" => BinOp::SDiv,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(b) = bin(op) {
            self.flags();
            let ty = self.ty();
            let a = self.operand(&ty);
            self.expect(b',');
            let bb = self.operand(&ty);
            return Stmt::Inst(Inst::Bin { op: b, ty, dst: d, a, b: bb });
        }
        let cast = |s: &str| -> Option<CastOp> {
            Some(match s {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "bitcast" => CastOp::Bitcast,
                "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                "inttoptr" => CastOp::IntToPtr,
                "uitofp" => CastOp::UIToFP,
                "sitofp" => CastOp::SIToFP,
                "fptoui" => CastOp::FPToUI,
                "fptosi" => CastOp::FPToSI,
                "fptrunc" => CastOp::FPTrunc,
                "fpext" => CastOp::FPExt,
                _ => return None,
            })
        };
        if let Some(c) = cast(op) {
            self.flags();
            let from = self.ty();
            let a = self.operand(&from);
            assert!(self.accept_id("to"));
            let to = self.ty();
            return Stmt::Inst(Inst::Cast { op: c, from, to, dst: d, a });
        }
        let i = match op {
            "phi" => {
                self.flags();
                let ty = self.ty();
                let mut inc = Vec::new();
                loop {
                    if !self.accept(b'[') {
                        break;
                    }
                    let v = self.operand(&ty);
                    self.expect(b',');
                    let Tok::Local(n) = self.next() else { panic!() };
                    let bi = self.ctx.as_ref().unwrap().blocks[n];
                    self.expect(b']');
                    inc.push((bi, v));
                    if !self.accept(b',') {
                        break;
                    }
                }
                return Stmt::Phi(Phi { dst: d, ty, inc });
            }
            "icmp" => {
                self.flags();
                let Tok::Id(p) = self.next() else { panic!() };
                let pred = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {}", p),
                };
                let ty = self.ty();
                let a = self.operand(&ty);
                self.expect(b',');
                let b = self.operand(&ty);
                Inst::ICmp { pred, ty, dst: d, a, b }
            }
            "fcmp" => {
                self.flags();
                let Tok::Id(p) = self.next() else { panic!() };
                // bits: 1 eq, 2 gt, 4 lt, 8 unordered
                let pred = match p {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let ty = self.ty();
                let a = self.operand(&ty);
                self.expect(b',');
                let b = self.operand(&ty);
                Inst::FCmp { pred, ty, dst: d, a, b }
            }
            "fneg" => {
                self.flags();
                let (ty, a) = self.typed();
                Inst::FNeg { ty, dst: d, a }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.typed();
                self.expect(b',');
                let (ty, a) = self.typed();
                self.expect(b',');
                let (_, b) = self.typed();
                Inst::Select { dst: d, cty, ty, c, a, b }
            }
            "freeze" => {
                let (_, a) = self.typed();
                Inst::Freeze { dst: d, a }
            }
            "load" => {
                let mut atomic = false;
                while let Some(Tok::Id(s)) = self.peek() {
                    match *s {
                        "atomic" => {
                            atomic = true;
                            self.i += 1
                        }
                        "volatile" => self.i += 1,
                        _ => break,
                    }
                }
                let ty = self.ty();
                self.expect(b',');
                let (_, p) = self.typed();
                Inst::Load { dst: d, ty, ptr: p, atomic }
            }
            "store" => {
                let mut atomic = false;
                while let Some(Tok::Id(s)) = self.peek() {
                    match *s {
                        "atomic" => {
                            atomic = true;
                            self.i += 1
                        }
                        "volatile" => self.i += 1,
                        _ => break,
                    }
                }
                let (ty, v) = self.typed();
                self.expect(b',');
                let (_, p) = self.typed();
                Inst::Store { ty, val: v, ptr: p, atomic }
            }
            "alloca" => {
                self.accept_id("inalloca");
                let ty = self.ty();
                let mut count = None;
                if self.accept(b',') {
                    if self.peek() != Some(&Tok::Id("align")) && self.peek() != Some(&Tok::Id("addrspace")) {
                        let (ct, c) = self.typed();
                        count = Some((c, ct.bits()));
                    }
                }
                Inst::Alloca { dst: d, size: ty.size(), count }
            }
            "getelementptr" => {
                self.flags();
                let et = self.ty();
                self.expect(b',');
                let (bt, base) = self.typed();
                if bt.is_agg() {
                    panic!("vector gep");
                }
                let mut off = 0i64;
                let mut steps = Vec::new();
                let mut first = true;
                let mut cur = et;
                while self.accept(b',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (it, io) = self.typed();
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = Self::scalar_c(&io) as usize;
                                off += cur.field_off(k) as i64;
                                cur = cur.elem(k);
                                continue;
                            }
                            _ => {
                                let e = cur.elem(0);
                                scale = e.size() as i64;
                                cur = e;
                            }
                        }
                    }
                    match io {
                        Op::C(v) => off = off.wrapping_add((sext(v, it.bits()) as i64).wrapping_mul(scale)),
                        o => steps.push((o, it.bits(), scale)),
                    }
                }
                Inst::Gep { dst: d, base, off, steps }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    self.next();
                }
                let invoke = op == "invoke";
                // fast-math flags, cc, ret attrs
                loop {
                    match self.peek() {
                        Some(Tok::Id(s)) => {
                            let s = *s;
                            if matches!(s, "void" | "ptr" | "float" | "double" | "metadata" | "token")
                                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
                            {
                                break;
                            }
                            self.i += 1;
                            if s == "align" {
                                if let Some(Tok::Num(_)) = self.peek() {
                                    self.i += 1;
                                }
                            }
                            self.skip_parens();
                        }
                        Some(Tok::P(_)) | Some(Tok::Local(_)) => break,
                        _ => {
                            self.i += 1;
                        }
                    }
                }
                let ret = self.ty();
                let callee = match self.next() {
                    Tok::Global(n) => {
                        let mut n = n;
                        while let Some(a) = self.m.aliases.get(n) {
                            n = a;
                        }
                        Callee::Direct(*self.m.fidx.get(n).unwrap_or_else(|| panic!("callee {}", n)))
                    }
                    Tok::Local(n) => Callee::Indirect(Op::Slot(self.ctx.as_mut().unwrap().slot(n))),
                    Tok::Id("asm") => {
                        return Stmt::Skip; // empty inline asm (black_box); a result would be reported when used
                    }
                    t => {
                        let _ = t;
                        self.i -= 1;
                        let c = self.constant(&Ty::Ptr);
                        Callee::Indirect(c)
                    }
                };
                self.expect(b'(');
                let mut args = Vec::new();
                if !self.accept(b')') {
                    loop {
                        let a = self.typed();
                        args.push(a);
                        if self.accept(b',') {
                            continue;
                        }
                        self.expect(b')');
                        break;
                    }
                }
                let normal = if invoke {
                    while !self.accept_id("to") {
                        self.i += 1;
                    }
                    Some(self.label())
                } else {
                    None
                };
                Inst::Call { dst, ret, callee, args, normal }
            }
            "extractvalue" => {
                let (_, a) = self.typed();
                let mut path = Vec::new();
                while self.accept(b',') {
                    match self.next() {
                        Tok::Num(n) => path.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::ExtractValue { dst: d, a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.typed();
                self.expect(b',');
                let (_, v) = self.typed();
                let mut path = Vec::new();
                while self.accept(b',') {
                    match self.next() {
                        Tok::Num(n) => path.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::InsertValue { dst: d, ty, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.typed();
                self.expect(b',');
                let (_, i) = self.typed();
                Inst::ExtractElement { dst: d, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.typed();
                self.expect(b',');
                let (_, v) = self.typed();
                self.expect(b',');
                let (_, i) = self.typed();
                Inst::InsertElement { dst: d, a, v, i, ty }
            }
            "shufflevector" => {
                let (ty, a) = self.typed();
                self.expect(b',');
                let (_, b) = self.typed();
                self.expect(b',');
                let (mt, mk) = self.typed();
                let Op::Agg(mv) = mk else { panic!("mask") };
                let _ = mt;
                let mask: Vec<i32> = mv.iter().map(|x| Self::scalar_c(x) as u32 as i32).collect();
                Inst::Shuffle { dst: d, a, b, mask, n: ty.nelem() as u32 }
            }
            "atomicrmw" => {
                self.accept_id("volatile");
                let Tok::Id(o) = self.next() else { panic!() };
                let rop = match o {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    "nand" => RmwOp::Nand,
                    _ => panic!("rmw {}", o),
                };
                let (_, p) = self.typed();
                self.expect(b',');
                let (ty, v) = self.typed();
                Inst::Rmw { dst: d, op: rop, ty, ptr: p, val: v }
            }
            "cmpxchg" => {
                self.accept_id("weak");
                self.accept_id("volatile");
                let (_, p) = self.typed();
                self.expect(b',');
                let (ty, c) = self.typed();
                self.expect(b',');
                let (_, n) = self.typed();
                Inst::CmpXchg { dst: d, ty, ptr: p, cmp: c, new: n }
            }
            "fence" => Inst::Fence,
            "br" => {
                if self.peek() == Some(&Tok::Id("label")) {
                    Inst::Br(self.label())
                } else {
                    let (_, c) = self.typed();
                    self.expect(b',');
                    let a = self.label();
                    self.expect(b',');
                    let b = self.label();
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.typed();
                self.expect(b',');
                let default = self.label();
                self.expect(b'[');
                let mut cases = Vec::new();
                while !self.accept(b']') {
                    let (_, c) = self.typed();
                    self.expect(b',');
                    let l = self.label();
                    cases.push((Self::scalar_c(&c), l));
                }
                Inst::Switch { w: ty.bits(), v, default, cases }
            }
            "ret" => {
                let ty = self.ty();
                if ty == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.operand(&ty);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume,
            "landingpad" | "cleanupret" | "catchpad" => Inst::Unsupported("landingpad".into()),
            "#dbg_value" | "#dbg_declare" => return Stmt::Skip,
            _ => panic!("unknown op {}", op),
        };
        Stmt::Inst(i)
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
