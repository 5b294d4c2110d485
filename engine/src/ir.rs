//! Parser for textual LLVM IR (opaque pointers), lazily per function body.
use crate::exec::{B, V};
use crate::term::{mask, Op as BinK};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32), // bits
    Arr(u64, Rc<Ty>),
    Vect(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(b) => (*b as u64 / 8).max(1).min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(b) => if *b == 80 { 16 } else { *b as u64 / 8 },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => match **t { Ty::Int(w) => (n * w as u64 + 7) / 8, _ => n * t.size() },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !*packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vect(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vect(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vect(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vect(..)) }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(b) => *b, _ => 0 }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, ZExt, SExt, Id }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opd), Asm }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { d: u32, size: u64, n: Opd, nw: u32, align: u64 },
    Load { d: u32, ty: Ty, p: Opd, align: u64 },
    Store { ty: Ty, v: Opd, p: Opd, align: u64 },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u64, u32)> },
    Bin { d: u32, op: BinK, ty: Ty, a: Opd, b: Opd, nuw: bool, nsw: bool, exact: bool, disjoint: bool },
    Icmp { d: u32, pred: Pred, ty: Ty, a: Opd, b: Opd },
    Cast { d: u32, k: CastK, from: Ty, to: Ty, a: Opd },
    Select { d: u32, cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<Option<u32>> },
    Freeze { d: u32, ty: Ty, a: Opd },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, normal: Option<(u32, u32)> },
    LandingPad { d: u32 },
    Resume,
    Atomic { d: u32, kind: String, ty: Ty, p: Opd, a: Opd, b: Option<Opd> },
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, c: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(Opd, u32)>)>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub id: usize,
    pub name: String,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncText { pub header: String, pub body: (usize, usize), pub pretty: String, pub di: u32 }
pub struct GlobalDef { pub name: String, pub ty: Ty, pub init: Option<(usize, usize)>, pub align: u64, pub constant: bool, pub text: String }

pub struct Module {
    pub lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub ftexts: HashMap<String, FuncText>,
    pub globals: Vec<GlobalDef>,
    pub gaddr: HashMap<String, u64>,
    pub fn_ids: HashMap<String, usize>,
    pub fn_names: Vec<String>,
    pub declared: HashMap<String, ()>,
    pub md: HashMap<u32, usize>, // metadata id -> line
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x7f00_0000_0000;
pub const STRIDE: u32 = 26;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { W(String), L(String), G(String), N(String), S(String), CS(Vec<u8>), Md(String), P(char), Attr }

pub fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { o.push(s[i]); i += 1; }
    }
    o
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => { i += 1; }
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' { i += 1; }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) { i += 1; }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' { i += 1; }
                out.push(Tok::S(s[st..i].to_string()));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while b[i] != b'"' { i += 1; }
                out.push(Tok::CS(unescape(&b[st..i])));
                i += 1;
            }
            b'!' => {
                let st = i;
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' { i += 1; }
                    i += 1;
                } else {
                    while i < b.len() && isid(b[i]) { i += 1; }
                }
                out.push(Tok::Md(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(Tok::Attr);
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'+') { i += 1; }
                out.push(Tok::N(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(Tok::W(s[st..i].to_string()));
            }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

pub type PR<X> = Result<X, String>;

pub struct Ps<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub m: &'a Module,
    pub regs: HashMap<String, u32>,
    pub blocks: HashMap<String, u32>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if x == w) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) -> PR<()> {
        if self.eatp(c) { Ok(()) } else { Err(format!("expected {} got {:?} in {:?}", c, self.peek(), &self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())])) }
    }
    fn word(&mut self) -> PR<String> {
        match self.peek() { Some(Tok::W(w)) => { let w = w.clone(); self.i += 1; Ok(w) } o => Err(format!("expected word got {:?}", o)) }
    }
    fn num(&mut self) -> PR<i128> {
        match self.peek() {
            Some(Tok::N(n)) => { let v = n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).map_err(|e| format!("{} {}", e, n))?; self.i += 1; Ok(v) }
            o => Err(format!("expected number got {:?}", o)),
        }
    }
    fn skip_parens(&mut self) {
        if self.isp('(') {
            let mut d = 0;
            loop {
                match self.peek() {
                    Some(Tok::P('(')) => d += 1,
                    Some(Tok::P(')')) => { d -= 1; }
                    None => return,
                    _ => {}
                }
                self.i += 1;
                if d == 0 { return; }
            }
        }
    }
    pub fn ty(&mut self) -> PR<Ty> {
        let t = match self.peek().cloned() {
            Some(Tok::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => { if self.eatw("addrspace") { self.skip_parens(); } Ty::Ptr }
                    "half" | "bfloat" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(80),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    w if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("unknown type {}", w)),
                }
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n = self.num()? as u64;
                if !self.eatw("x") { return Err("arr".into()); }
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.isp('{') {
                    let t = self.ty()?;
                    self.exp('>')?;
                    match t { Ty::Struct(f, _) => Ty::Struct(f, true), _ => unreachable!() }
                } else {
                    let n = self.num()? as u64;
                    if !self.eatw("x") { return Err("vec".into()); }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vect(n, Rc::new(t))
                }
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                let mut f = vec![];
                if !self.eatp('}') {
                    loop {
                        f.push(self.ty()?);
                        if self.eatp('}') { break; }
                        self.exp(',')?;
                    }
                }
                Ty::Struct(f, false)
            }
            Some(Tok::L(n)) => {
                self.i += 1;
                self.m.types.get(&n).cloned().ok_or(format!("unknown named type {}", n))?
            }
            o => return Err(format!("expected type got {:?}", o)),
        };
        Ok(t)
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "trunc" | "add" | "sub" | "xor" | "splat" | "asm" | "blockaddress" | "dso_local_equivalent" => return,
                        "align" => {
                            self.i += 1;
                            if matches!(self.peek(), Some(Tok::N(_))) { self.i += 1; } else { self.skip_parens(); }
                        }
                        _ => { self.i += 1; self.skip_parens(); }
                    }
                }
                Some(Tok::S(_)) => { self.i += 1; if self.eatp('=') { self.i += 1; } }
                Some(Tok::Attr) => self.i += 1,
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn block(&self, n: &str) -> PR<u32> { self.blocks.get(n).copied().ok_or(format!("unknown block {}", n)) }
    fn label(&mut self) -> PR<u32> {
        if !self.eatw("label") { return Err("label".into()); }
        match self.peek().cloned() { Some(Tok::L(n)) => { self.i += 1; self.block(&n) } o => Err(format!("label {:?}", o)) }
    }
    pub fn zero(t: &Ty) -> V {
        if t.is_agg() { V::A(Rc::new((0..t.count()).map(|i| Self::zero(&t.elem(i))).collect())) } else { V::I(0) }
    }
    pub fn undef(t: &Ty) -> V {
        if t.is_agg() { V::A(Rc::new((0..t.count()).map(|i| Self::undef(&t.elem(i))).collect())) } else { V::U }
    }
    fn konst(&mut self, t: &Ty) -> PR<V> { match self.opd(t)? { Opd::C(v) => Ok(v), _ => Err("expected constant".into()) } }
    fn tyconst(&mut self) -> PR<(Ty, V)> { let t = self.ty()?; self.skip_attrs_const(); let v = self.konst(&t)?; Ok((t, v)) }
    fn skip_attrs_const(&mut self) {}
    pub fn opd(&mut self, t: &Ty) -> PR<Opd> {
        let tok = self.peek().cloned().ok_or("eof operand")?;
        Ok(match tok {
            Tok::L(n) => { self.i += 1; Opd::R(self.reg(&n)) }
            Tok::G(n) => {
                self.i += 1;
                let n = self.m.aliases.get(&n).cloned().unwrap_or(n);
                if let Some(&a) = self.m.gaddr.get(&n) { Opd::C(V::I(a as u128)) }
                else if let Some(&f) = self.m.fn_ids.get(&n) { Opd::C(V::I((FN_BASE + 16 * f as u64) as u128)) }
                else { return Err(format!("unknown global {}", n)); }
            }
            Tok::N(n) => {
                self.i += 1;
                match t {
                    Ty::Float(64) => Opd::C(V::I(if n.starts_with("0x") { u64::from_str_radix(&n[2..], 16).map_err(|e| e.to_string())? as u128 } else { n.parse::<f64>().map_err(|e| e.to_string())?.to_bits() as u128 })),
                    Ty::Float(32) => Opd::C(V::I(if n.starts_with("0x") { (f64::from_bits(u64::from_str_radix(&n[2..], 16).map_err(|e| e.to_string())?) as f32).to_bits() as u128 } else { n.parse::<f32>().map_err(|e| e.to_string())?.to_bits() as u128 })),
                    Ty::Float(_) => Opd::C(V::U),
                    _ => {
                        let v = n.parse::<i128>().map(|x| x as u128).or_else(|_| n.parse::<u128>()).map_err(|e| format!("{} {}", e, n))?;
                        Opd::C(V::I(v & mask(t.bits())))
                    }
                }
            }
            Tok::CS(b) => { self.i += 1; Opd::C(V::A(Rc::new(b.iter().map(|x| V::I(*x as u128)).collect()))) }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => {
                self.i += 1;
                let mut close = match tok { Tok::P('[') => ']', Tok::P('{') => '}', _ => '>' };
                let mut packed = false;
                if close == '>' && self.eatp('{') { close = '}'; packed = true; }
                let mut v = vec![];
                if !self.eatp(close) {
                    loop {
                        v.push(self.tyconst()?.1);
                        if self.eatp(close) { break; }
                        self.exp(',')?;
                    }
                }
                if packed { self.exp('>')?; }
                Opd::C(V::A(Rc::new(v)))
            }
            Tok::W(w) => {
                self.i += 1;
                match w.as_str() {
                    "true" => Opd::C(V::I(1)),
                    "false" => Opd::C(V::I(0)),
                    "null" | "none" => Opd::C(V::I(0)),
                    "undef" | "poison" => Opd::C(Self::undef(t)),
                    "zeroinitializer" => Opd::C(Self::zero(t)),
                    "splat" => {
                        self.exp('(')?;
                        let (_, v) = self.tyconst()?;
                        self.exp(')')?;
                        Opd::C(V::A(Rc::new(vec![v; t.count()])))
                    }
                    "getelementptr" => {
                        while let Some(Tok::W(_)) = self.peek() { self.i += 1; self.skip_parens_attr(); }
                        self.exp('(')?;
                        let st = self.ty()?;
                        self.exp(',')?;
                        let (_, b) = self.tyconst()?;
                        let mut off = match b { V::I(x) => x as i64, _ => return Err("cgep".into()) };
                        let mut cur = st.clone();
                        let mut first = true;
                        while self.eatp(',') {
                            self.eatw("inrange");
                            let (_, i) = self.tyconst()?;
                            let i = match i { V::I(x) => x as i64, _ => return Err("cgep".into()) };
                            if first { off += i * st.size() as i64; first = false; } else {
                                off += cur.offset(i as usize) as i64;
                                cur = cur.elem(i as usize);
                            }
                        }
                        self.exp(')')?;
                        Opd::C(V::I(off as u64 as u128))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "trunc" => {
                        self.exp('(')?;
                        let (_, v) = self.tyconst()?;
                        if !self.eatw("to") { return Err("cast".into()); }
                        let t2 = self.ty()?;
                        self.exp(')')?;
                        match v { V::I(x) => Opd::C(V::I(x & mask(t2.bits().max(1)))), o => Opd::C(o) }
                    }
                    "add" | "sub" | "xor" => {
                        while let Some(Tok::W(_)) = self.peek() { self.i += 1; }
                        self.exp('(')?;
                        let (_, a) = self.tyconst()?;
                        self.exp(',')?;
                        let (_, b) = self.tyconst()?;
                        self.exp(')')?;
                        match (a, b) {
                            (V::I(a), V::I(b)) => Opd::C(V::I(match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & mask(t.bits()))),
                            _ => return Err("constexpr".into()),
                        }
                    }
                    _ => return Err(format!("operand word {}", w)),
                }
            }
            o => return Err(format!("operand {:?}", o)),
        })
    }
    fn skip_parens_attr(&mut self) {
        // inrange(a,b) style groups start with a number; the real operand list starts with a type
        if self.isp('(') {
            if let Some(Tok::N(_)) = self.t.get(self.i + 1) { self.skip_parens(); }
        }
    }
    fn tyop(&mut self) -> PR<(Ty, Opd)> { let t = self.ty()?; let o = self.opd(&t)?; Ok((t, o)) }

    fn align_tail(&mut self, def: u64) -> u64 {
        let mut al = def;
        while self.i < self.t.len() {
            if self.eatw("align") {
                if let Ok(n) = self.num() { al = n as u64; }
            } else { self.i += 1; }
        }
        al
    }

    fn call(&mut self, d: Option<u32>, invoke: bool) -> PR<Ins> {
        // [cconv/attrs] type [fnty] callee(args)
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    let is_ty = matches!(w.as_str(), "void" | "ptr" | "half" | "float" | "double" | "fp128" | "bfloat" | "x86_fp80" | "metadata" | "token")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()));
                    if is_ty { break; }
                    self.i += 1;
                    if w == "align" || w == "cc" || w == "addrspace" { if matches!(self.peek(), Some(Tok::N(_))) { self.i += 1; continue; } }
                    self.skip_parens();
                }
                Some(Tok::Attr) => self.i += 1,
                Some(Tok::S(_)) => { self.i += 1; if self.eatp('=') { self.i += 1; } }
                _ => break,
            }
        }
        let ret = self.ty()?;
        // optional function type
        if self.isp('(') { self.skip_parens(); }
        let callee = match self.peek().cloned() {
            Some(Tok::G(n)) => { self.i += 1; Callee::Direct(self.m.aliases.get(&n).cloned().unwrap_or(n)) }
            Some(Tok::L(n)) => { self.i += 1; Callee::Indirect(Opd::R(self.reg(&n))) }
            Some(Tok::W(w)) if w == "asm" => {
                while !self.isp('(') { self.i += 1; if self.i >= self.t.len() { return Err("asm".into()); } }
                Callee::Asm
            }
            _ => { let o = self.opd(&Ty::Ptr)?; Callee::Indirect(o) }
        };
        self.exp('(')?;
        let mut args = vec![];
        if !self.eatp(')') {
            loop {
                if self.isw("metadata") {
                    self.i += 1;
                    let mut depth = 0;
                    while let Some(t) = self.peek() {
                        match t { Tok::P('(') => depth += 1, Tok::P(')') => { if depth == 0 { break; } depth -= 1; } Tok::P(',') if depth == 0 => break, _ => {} }
                        self.i += 1;
                    }
                } else {
                    let t = self.ty()?;
                    self.skip_attrs();
                    let o = self.opd(&t)?;
                    args.push((t, o));
                }
                if self.eatp(')') { break; }
                self.exp(',')?;
            }
        }
        let mut normal = None;
        if invoke {
            while self.i < self.t.len() && !self.isw("to") { self.i += 1; }
            self.i += 1;
            let ok = self.label()?;
            if !self.eatw("unwind") { return Err("invoke without unwind".into()); }
            normal = Some((ok, self.label()?));
        }
        Ok(Ins::Call { d, ret, callee, args, normal })
    }

    fn flags(&mut self) -> (bool, bool, bool, bool) {
        let mut f = (false, false, false, false);
        loop {
            if self.eatw("nuw") { f.0 = true } else if self.eatw("nsw") { f.1 = true } else if self.eatw("exact") { f.2 = true } else if self.eatw("disjoint") { f.3 = true }
            else if self.eatw("nneg") || self.eatw("samesign") || self.eatw("inbounds") || self.eatw("nusw") || self.eatw("fast") || self.eatw("nnan") || self.eatw("ninf") || self.eatw("nsz") {} else { return f; }
        }
    }

    pub fn instr(&mut self, raw: &str) -> PR<Ins> {
        let mut d = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (self.t.get(0).cloned(), self.t.get(1)) {
            self.i = 2;
            d = Some(self.reg(&n));
        }
        let op = self.word()?;
        let dd = d.unwrap_or(0);
        let ins = match op.as_str() {
            "alloca" => {
                self.eatw("inalloca");
                let t = self.ty()?;
                let mut n = Opd::C(V::I(1));
                let mut nw = 64;
                let mut align = t.align();
                while self.eatp(',') {
                    if self.eatw("align") { align = self.num()? as u64; } else if let Some(Tok::Md(_)) = self.peek() { break; } else {
                        let (t, o) = self.tyop()?;
                        nw = t.bits();
                        n = o;
                    }
                }
                Ins::Alloca { d: dd, size: t.size(), n, nw, align }
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let ty = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                let al = ty.align();
                let align = self.align_tail(al);
                Ins::Load { d: dd, ty, p, align }
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                let al = ty.align();
                let align = self.align_tail(al);
                Ins::Store { ty, v, p, align }
            }
            "getelementptr" => {
                loop {
                    self.flags();
                    if self.eatw("inrange") { self.skip_parens(); } else { break; }
                }
                let st = self.ty()?;
                self.exp(',')?;
                let (bt, base) = self.tyop()?;
                if bt != Ty::Ptr { return Err("vector gep".into()); }
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = st.clone();
                let mut first = true;
                while self.eatp(',') {
                    if let Some(Tok::Md(_)) = self.peek() { break; }
                    let (it, o) = self.tyop()?;
                    let w = it.bits();
                    if first {
                        first = false;
                        match o { Opd::C(V::I(x)) => off = off.wrapping_add((crate::term::sext(x, w) as i64).wrapping_mul(st.size() as i64)), o => idx.push((o, st.size(), w)) }
                    } else {
                        match (&cur, o) {
                            (_, Opd::C(V::I(x))) => {
                                if let Ty::Struct(..) = cur { off += cur.offset(x as usize) as i64; } else { off = off.wrapping_add((crate::term::sext(x, w) as i64).wrapping_mul(cur.elem(0).size() as i64)); }
                                cur = cur.elem(if let Ty::Struct(..) = cur { x as usize } else { 0 });
                            }
                            (_, o) => { let e = cur.elem(0); idx.push((o, e.size(), w)); cur = e; }
                        }
                    }
                }
                Ins::Gep { d: dd, base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let f = self.flags();
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.exp(',')?;
                let b = self.opd(&ty)?;
                let k = match op.as_str() {
                    "add" => BinK::Add, "sub" => BinK::Sub, "mul" => BinK::Mul, "udiv" => BinK::UDiv, "sdiv" => BinK::SDiv, "urem" => BinK::URem, "srem" => BinK::SRem,
                    "shl" => BinK::Shl, "lshr" => BinK::LShr, "ashr" => BinK::AShr, "and" => BinK::And, "or" => BinK::Or, _ => BinK::Xor,
                };
                Ins::Bin { d: dd, op: k, ty, a, b, nuw: f.0, nsw: f.1, exact: f.2, disjoint: f.3 }
            }
            "icmp" => {
                self.flags();
                let p = match self.word()?.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, o => return Err(format!("pred {}", o)),
                };
                let ty = self.ty()?;
                let a = self.opd(&ty)?;
                self.exp(',')?;
                let b = self.opd(&ty)?;
                Ins::Icmp { d: dd, pred: p, ty, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (from, a) = self.tyop()?;
                if !self.eatw("to") { return Err("cast".into()); }
                let to = self.ty()?;
                let (fb, tb) = match (&from, &to) {
                    (Ty::Vect(_, f), Ty::Vect(_, t)) => (f.bits(), t.bits()),
                    _ => (from.bits(), to.bits()),
                };
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt,
                    _ => {
                        if from.is_agg() != to.is_agg() || fb == 0 { return Ok(Ins::Unsupported(raw.to_string())); }
                        if from.is_agg() && from.count() != to.count() { return Ok(Ins::Unsupported(raw.to_string())); }
                        if fb == tb { CastK::Id } else if fb < tb { CastK::ZExt } else { CastK::Trunc }
                    }
                };
                Ins::Cast { d: dd, k, from, to, a }
            }
            "select" => {
                self.flags();
                let (cty, c) = self.tyop()?;
                self.exp(',')?;
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                Ins::Select { d: dd, cty, ty, c, a, b }
            }
            "extractvalue" => {
                let (_, a) = self.tyop()?;
                let mut idx = vec![];
                while self.eatp(',') { if let Ok(n) = self.num() { idx.push(n as u32) } else { break; } }
                Ins::ExtractV { d: dd, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, v) = self.tyop()?;
                let mut idx = vec![];
                while self.eatp(',') { if let Ok(n) = self.num() { idx.push(n as u32) } else { break; } }
                Ins::InsertV { d: dd, ty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                Ins::ExtractE { d: dd, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, v) = self.tyop()?;
                self.exp(',')?;
                let (_, i) = self.tyop()?;
                Ins::InsertE { d: dd, ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                self.exp(',')?;
                let (mt, mk) = self.tyconst()?;
                let msk = match mk { V::A(v) => v.iter().map(|x| match x { V::I(k) => Some(*k as u32), _ => None }).collect(), _ => vec![None; mt.count()] };
                Ins::Shuffle { d: dd, ty, a, b, mask: msk }
            }
            "freeze" => { let (ty, a) = self.tyop()?; Ins::Freeze { d: dd, ty, a } }
            "call" => self.call(d, false)?,
            "tail" | "musttail" | "notail" => { self.eatw("call"); self.call(d, false)? }
            "invoke" => self.call(d, true)?,
            "br" => {
                if self.isw("label") { Ins::Br(self.label()?) } else {
                    let (_, c) = self.tyop()?;
                    self.exp(',')?;
                    let a = self.label()?;
                    self.exp(',')?;
                    let b = self.label()?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.tyop()?;
                self.exp(',')?;
                let def = self.label()?;
                self.exp('[')?;
                let mut cases = vec![];
                while !self.eatp(']') {
                    let (_, v) = self.tyconst()?;
                    self.exp(',')?;
                    let l = self.label()?;
                    match v { V::I(k) => cases.push((k, l)), _ => return Err("switch const".into()) }
                }
                Ins::Switch { w: t.bits(), c, def, cases }
            }
            "ret" => { let t = self.ty()?; if t == Ty::Void { Ins::Ret(None) } else { Ins::Ret(Some(self.opd(&t)?)) } }
            "landingpad" => Ins::LandingPad { d: dd },
            "resume" => Ins::Resume,
            "unreachable" => Ins::Unreachable,
            "fence" => Ins::Nop,
            "atomicrmw" => {
                self.eatw("volatile");
                let kind = self.word()?;
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, a) = self.tyop()?;
                Ins::Atomic { d: dd, kind, ty, p, a, b: None }
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                Ins::Atomic { d: dd, kind: "cmpxchg".into(), ty, p, a, b: Some(b) }
            }
            _ => Ins::Unsupported(raw.to_string()),
        };
        Ok(ins)
    }
}

impl Module {
    pub fn load(path: &str) -> PR<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        drop(text);
        let mut m = Module { lines: vec![], types: HashMap::new(), ftexts: HashMap::new(), globals: vec![], gaddr: HashMap::new(), fn_ids: HashMap::new(), fn_names: vec![], declared: HashMap::new(), md: HashMap::new(), aliases: HashMap::new() };
        // pass 1: types, names
        let mut i = 0;
        let mut pretty = String::new();
        let mut global_lines = vec![];
        let mut type_lines = vec![];
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") {
                let at = l.find('@').ok_or("define")?;
                let name = name_at(l, at + 1);
                let mut j = i + 1;
                while lines[j] != "}" { j += 1; }
                let id = m.fn_names.len();
                m.fn_ids.insert(name.clone(), id);
                m.fn_names.push(name.clone());
                let di = l.rfind("!dbg !").map(|p| l[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(0);
                m.ftexts.insert(name, FuncText { header: l.clone(), body: (i + 1, j), pretty: std::mem::take(&mut pretty), di });
                i = j;
            } else if l.starts_with("declare ") {
                let at = l.find('@').ok_or("declare")?;
                let name = name_at(l, at + 1);
                let id = m.fn_names.len();
                m.fn_ids.insert(name.clone(), id);
                m.fn_names.push(name.clone());
                m.declared.insert(name, ());
            } else if l.starts_with('@') {
                global_lines.push(i);
            } else if l.starts_with('%') && l.contains(" = type ") {
                type_lines.push(i);
            } else if l.starts_with("; ") {
                if !l.starts_with("; Function Attrs") { pretty = l[2..].to_string(); }
            } else if l.starts_with('!') {
                let n: String = l[1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = n.parse::<u32>() { m.md.insert(n, i); }
            }
            i += 1;
        }
        // named types, iterate for forward references
        let mut pending = type_lines;
        for _ in 0..50 {
            let mut next = vec![];
            for &li in &pending {
                let l = &lines[li];
                let toks = tokenize(l);
                let n = match &toks[0] { Tok::L(n) => n.clone(), _ => continue };
                let mut ps = Ps { t: toks[3..].to_vec(), i: 0, m: &m, regs: HashMap::new(), blocks: HashMap::new() };
                match ps.ty() { Ok(t) => { m.types.insert(n, t); } Err(_) => next.push(li) }
            }
            if next.is_empty() { break; }
            pending = next;
        }
        // globals: first assign addresses
        let mut parsed = vec![];
        for &li in &global_lines {
            let toks = tokenize(&lines[li]);
            let name = match &toks[0] { Tok::G(n) => n.clone(), _ => continue };
            let mut k = 2;
            let mut ext = false;
            let mut alias = false;
            loop {
                match &toks[k] {
                    Tok::W(w) if w == "global" || w == "constant" => break,
                    Tok::W(w) if w == "alias" || w == "ifunc" => { alias = true; break; }
                    Tok::W(w) if w == "external" || w == "extern_weak" => { ext = true; }
                    _ => {}
                }
                k += 1;
                if k >= toks.len() { return Err(format!("global {}", name)); }
            }
            if alias {
                for t in &toks[k..] { if let Tok::G(g) = t { m.aliases.insert(name.clone(), g.clone()); break; } }
                continue;
            }
            let constant = matches!(&toks[k], Tok::W(w) if w == "constant");
            let (ty, pos) = {
                let mut ps = Ps { t: toks.clone(), i: k + 1, m: &m, regs: HashMap::new(), blocks: HashMap::new() };
                let t = ps.ty().map_err(|e| format!("global {}: {}", name, e))?;
                (t, ps.i)
            };
            let mut align = ty.align();
            let mut q = pos;
            while q + 1 < toks.len() {
                if let (Tok::W(w), Tok::N(n)) = (&toks[q], &toks[q + 1]) { if w == "align" && toks[q - 1] == Tok::P(',') { align = n.parse().unwrap_or(align); } }
                q += 1;
            }
            let id = m.globals.len() as u64;
            let base = crate::exec::obj_base(id, align);
            m.gaddr.insert(name.clone(), base);
            m.globals.push(GlobalDef { name, ty, init: if ext { None } else { Some((li, pos)) }, align, constant, text: String::new() });
            parsed.push(toks);
        }
        m.lines = lines;
        Ok(m)
    }
    pub fn global_init(&self, g: &GlobalDef) -> PR<Option<V>> {
        let (li, pos) = match g.init { Some(x) => x, None => return Ok(None) };
        let toks = tokenize(&self.lines[li]);
        let mut ps = Ps { t: toks, i: pos, m: self, regs: HashMap::new(), blocks: HashMap::new() };
        match ps.opd(&g.ty) { Ok(Opd::C(v)) => Ok(Some(v)), Ok(_) => Err("global init".into()), Err(e) => Err(e) }
    }
    pub fn parse_func(&self, name: &str) -> PR<Func> {
        let ft = self.ftexts.get(name).ok_or_else(|| format!("no body for {}", name))?;
        let toks = tokenize(&ft.header);
        let mut ps = Ps { t: toks, i: 0, m: self, regs: HashMap::new(), blocks: HashMap::new() };
        while !matches!(ps.peek(), Some(Tok::G(_))) { ps.i += 1; }
        ps.i += 1;
        ps.exp('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !ps.eatp(')') {
            loop {
                if ps.isp('.') || ps.isw("...") { return Err("varargs".into()); }
                ps.ty()?;
                ps.skip_attrs();
                let nm = match ps.peek().cloned() { Some(Tok::L(n)) => { ps.i += 1; n } o => return Err(format!("param {:?}", o)) };
                if nm.chars().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                params.push(ps.reg(&nm));
                if ps.eatp(')') { break; }
                ps.exp(',')?;
            }
        }
        // split into blocks, joining multi-line instructions
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut cur: Option<(String, Vec<String>)> = None;
        let (s, e) = ft.body;
        let mut i = s;
        while i < e {
            let l = &self.lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') { continue; }
            if !l.starts_with(' ') {
                // label
                let nm = if l.starts_with('"') { let end = l[1..].find('"').unwrap(); l[1..1 + end].to_string() } else { l[..l.find(':').ok_or(format!("label? {}", l))?].to_string() };
                if let Some(b) = cur.take() { blocks.push(b); }
                cur = Some((nm, vec![]));
                continue;
            }
            let tl = l.trim_start();
            if tl.starts_with('#') { continue; }
            let mut txt = tl.to_string();
            if tl.starts_with("switch") && !tl.contains(']') {
                while i < e {
                    txt.push(' ');
                    txt.push_str(self.lines[i].trim());
                    let done = self.lines[i].trim_start().starts_with(']');
                    i += 1;
                    if done { break; }
                }
            } else {
                while i < e && self.lines[i].starts_with("          ") {
                    txt.push(' ');
                    txt.push_str(self.lines[i].trim());
                    i += 1;
                }
            }
            if cur.is_none() { cur = Some((unnamed.to_string(), vec![])); }
            cur.as_mut().unwrap().1.push(txt);
        }
        if let Some(b) = cur.take() { blocks.push(b); }
        for (k, b) in blocks.iter().enumerate() { ps.blocks.insert(b.0.clone(), k as u32); }
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut b = Block { phis: vec![], ins: vec![], dbg: vec![] };
            for l in ls {
                let dbg = l.rfind("!dbg !").map(|p| l[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<u32>().unwrap_or(0)).unwrap_or(0);
                ps.t = tokenize(l);
                ps.i = 0;
                if let (Some(Tok::P('=')), Some(Tok::W(w))) = (ps.t.get(1), ps.t.get(2)) {
                    if w == "phi" {
                        let n = match &ps.t[0] { Tok::L(n) => n.clone(), _ => return Err("phi".into()) };
                        let d = ps.reg(&n);
                        ps.i = 3;
                        ps.flags();
                        let ty = ps.ty()?;
                        let mut inc = vec![];
                        loop {
                            if !ps.eatp('[') { break; }
                            let o = ps.opd(&ty)?;
                            ps.exp(',')?;
                            let bn = match ps.peek().cloned() { Some(Tok::L(n)) => { ps.i += 1; n } o => return Err(format!("phi {:?}", o)) };
                            ps.exp(']')?;
                            inc.push((o, ps.block(&bn)?));
                            if !ps.eatp(',') { break; }
                        }
                        b.phis.push((d, inc));
                        continue;
                    }
                }
                let ins = match ps.instr(l) { Ok(x) => x, Err(e) => Ins::Unsupported(format!("{} :: {}", l, e)) };
                b.ins.push(ins);
                b.dbg.push(dbg);
            }
            out.push(b);
        }
        Ok(Func { id: self.fn_ids[name], name: name.to_string(), nregs: ps.regs.len(), params, blocks: out })
    }
    /// (file, function, line) for a DILocation id
    pub fn loc(&self, id: u32) -> Option<(String, String, u32)> {
        let l = &self.lines[*self.md.get(&id)?];
        let line: u32 = field(l, "line: ")?.parse().ok()?;
        let mut sc: u32 = field(l, "scope: !")?.parse().ok()?;
        for _ in 0..64 {
            let s = &self.lines[*self.md.get(&sc)?];
            if s.contains("DISubprogram(") {
                let nm = quoted(s, "name: \"").unwrap_or_default();
                let f: u32 = field(s, "file: !")?.parse().ok()?;
                let fl = &self.lines[*self.md.get(&f)?];
                let fname = quoted(fl, "filename: \"").unwrap_or_default();
                let dir = quoted(fl, "directory: \"").unwrap_or_default();
                let full = if fname.starts_with('/') { fname } else { format!("{}/{}", dir, fname) };
                return Some((full, nm, line));
            }
            sc = field(s, "scope: !")?.parse().ok()?;
        }
        None
    }
    pub fn inlined_at(&self, id: u32) -> Option<u32> {
        let l = &self.lines[*self.md.get(&id)?];
        field(l, "inlinedAt: !")?.parse().ok()
    }
}
fn field(l: &str, k: &str) -> Option<String> {
    let p = l.find(k)? + k.len();
    Some(l[p..].chars().take_while(|c| c.is_ascii_digit()).collect())
}
fn quoted(l: &str, k: &str) -> Option<String> {
    let p = l.find(k)? + k.len();
    Some(l[p..].chars().take_while(|c| *c != '"').collect())
}
fn name_at(l: &str, p: usize) -> String {
    let b = l.as_bytes();
    if b[p] == b'"' { let e = l[p + 1..].find('"').unwrap(); l[p + 1..p + 1 + e].to_string() } else {
        l[p..].chars().take_while(|c| c.is_ascii_alphanumeric() || "_.$-".contains(*c)).collect()
    }
}
#[allow(dead_code)]
pub fn unused(_: B) {}
