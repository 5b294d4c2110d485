//! Hash-consed bit-vector terms with light simplification.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,     // a = var index
    Const,   // a,b = low/high 64 bits via consts table index
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle, // width 1
    Ite,
    Concat,  // a = high, b = low
    Extract, // a, b = lo ; width = node width
    ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of a binary operator. None = undefined (division by zero and the like).
pub fn eval_bin(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { return None } else { a / b },
        Op::URem => if b == 0 { return None } else { a % b },
        Op::SDiv => if b == 0 { return None } else { (sext(a, w).wrapping_div(sext(b, w))) as u128 & m },
        Op::SRem => if b == 0 { return None } else { (sext(a, w).wrapping_rem(sext(b, w))) as u128 & m },
        Op::Shl => if b >= w as u128 { return None } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { return None } else { a >> b },
        Op::AShr => if b >= w as u128 { return None } else { (sext(a, w) >> b) as u128 & m },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    })
}

impl Terms {
    pub fn new() -> Self {
        Terms { nodes: vec![], map: HashMap::new() }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) { return t; }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.map.insert(n, t);
        t
    }
    /// Indices of the variables occurring in the given terms.
    pub fn support(&self, ts: &[T]) -> std::collections::HashSet<u32> {
        let mut out = std::collections::HashSet::new();
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<T> = ts.to_vec();
        while let Some(t) = todo.pop() {
            if !seen.insert(t) { continue; }
            let n = self.nodes[t as usize];
            match n.op {
                Op::Var => { out.insert(n.a); }
                Op::Const => {}
                Op::Extract | Op::ZExt | Op::SExt => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => todo.extend([n.a, n.b]),
            }
        }
        out
    }
    pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w }
    pub fn konst(&mut self, w: u32, v: u128) -> T {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn var(&mut self, idx: u32, w: u32) -> T {
        self.mk(Node { op: Op::Var, w, a: idx, b: 0, c: 0, k: 0 })
    }
    pub fn not(&mut self, t: T) -> T {
        let one = self.konst(self.w(t), mask(self.w(t)));
        self.bin(Op::Xor, t, one)
    }
    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = eval_bin(op, w, x, y) { return self.konst(rw, r); }
        }
        // commutative: constant to the right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
            }
            _ => {}
        }
        let cb = self.as_const(b);
        let m = mask(w);
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if cb == Some(0) => return a,
            Op::Mul if cb == Some(1) => return a,
            Op::Mul | Op::And if cb == Some(0) => return b,
            Op::And if cb == Some(m) || a == b => return a,
            Op::Or if cb == Some(m) => return b,
            Op::Or if a == b => return a,
            Op::Xor | Op::Sub if a == b => return self.konst(w, 0),
            Op::Eq | Op::Ule | Op::Sle if a == b => return self.konst(1, 1),
            Op::Ult | Op::Slt if a == b => return self.konst(1, 0),
            Op::Ult if cb == Some(0) => return self.konst(1, 0),
            Op::UDiv if cb == Some(1) => return a,
            _ => {}
        }
        let na = self.nodes[a as usize];
        match op {
            Op::Xor => {
                if let Some(k) = cb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                }
            }
            Op::And => {
                if let Some(k) = cb {
                    // and with low mask => zext(extract)
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k & mask(iw) == mask(iw) { return a; }
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                }
            }
            Op::Add => {
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if let Some(k) = cb {
                    let kk = self.konst(w, (k as i128).wrapping_neg() as u128);
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Eq => {
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if let (Some(x), Some(y)) = (x, y) {
                                if x != y {
                                    if x == k { return na.a; }
                                    if y == k { return self.not(na.a); }
                                    return self.konst(1, 0);
                                }
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k & !mask(iw) != 0 { return self.konst(1, 0); }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Xor | Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let v = if na.op == Op::Xor { k ^ k2 } else { k.wrapping_sub(k2) };
                                let kk = self.konst(w, v);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.nodes[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if let Some(k) = cb {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) { return self.konst(1, 1); }
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k >= w as u128 { return self.konst(w, 0); }
                    let hi = self.extract(a, k as u32, w - k as u32);
                    return self.zext(hi, w);
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k >= w as u128 { return self.konst(w, 0); }
                    let lo = self.extract(a, 0, w - k as u32);
                    let z = self.konst(k as u32, 0);
                    return self.concat(lo, z);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        if let (Some(h), Some(l)) = (self.as_const(hi), self.as_const(lo)) {
            return self.konst(wh + wl, (h << wl) | l);
        }
        if self.as_const(hi) == Some(0) { return self.zext(lo, wh + wl); }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl {
            return self.extract(nl.a, nl.b, wh + wl);
        }
        // hi = extract(x, wl..), lo = x itself of width wl cannot happen; zext case:
        if nl.op == Op::ZExt { /* fallthrough */ }
        self.mk(Node { op: Op::Concat, w: wh + wl, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.nodes[t as usize];
        if lo == 0 && w == n.w { return t; }
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let a = self.extract(n.b, lo, w);
                    let b = self.extract(n.c, lo, w);
                    return self.ite(n.a, a, b);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a: t, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let n = self.nodes[t as usize];
        if n.w == w { return t; }
        match n.op {
            Op::Const => return self.konst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a: t, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let n = self.nodes[t as usize];
        if n.w == w { return t; }
        if n.op == Op::Const { return self.konst(w, sext(n.k, n.w) as u128); }
        self.mk(Node { op: Op::SExt, w, a: t, b: 0, c: 0, k: 0 })
    }
    /// Evaluate under an assignment (var index -> value; missing = 0).
    pub fn eval(&self, t: T, model: &[u64], memo: &mut HashMap<T, u128>) -> u128 {
        if let Some(&v) = memo.get(&t) { return v; }
        let n = self.nodes[t as usize];
        let v = match n.op {
            Op::Const => return n.k,
            Op::Var => model.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 { self.eval(n.b, model, memo) } else { self.eval(n.c, model, memo) }
            }
            Op::Concat => {
                let h = self.eval(n.a, model, memo);
                let l = self.eval(n.b, model, memo);
                (h << self.w(n.b)) | l
            }
            Op::Extract => (self.eval(n.a, model, memo) >> n.b) & mask(n.w),
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => sext(self.eval(n.a, model, memo), self.w(n.a)) as u128 & mask(n.w),
            _ => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                let w = self.w(n.a);
                match eval_bin(n.op, w, a, b) {
                    Some(v) => v,
                    None => match n.op { // SMT-LIB total semantics
                        Op::UDiv => mask(w),
                        Op::URem | Op::SRem => a,
                        Op::SDiv => if sext(a, w) < 0 { 1 } else { mask(w) },
                        Op::AShr => if sext(a, w) < 0 { mask(w) } else { 0 },
                        _ => 0,
                    },
                }
            }
        };
        memo.insert(t, v);
        v
    }
}
