//! Forking symbolic executor.
use crate::ir::*;
pub use crate::mem::obj_base;
use crate::mem::*;
use crate::term::{eval_bin, mask, sext, Op as K, Terms, T};
use crate::z3::{Res, Solver};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { U, C(u8), S(T) }

#[derive(Clone, Debug)]
pub enum V { I(u128), S(T), U, A(Rc<Vec<V>>), M(Rc<Vec<B>>) }

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    /// Called through sym_catch: unwinding stops here.
    pub catch: bool,
}

#[derive(Clone)]
pub struct Asrt { pub a: T, pub b: Option<T>, pub line: u32 }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub model: Rc<Vec<u64>>,
    pub known: Rc<HashMap<T, u128>>,
    pub nvars: u32,
    pub vars: Rc<Vec<T>>,
    pub asserts: Rc<Vec<Asrt>>,
    pub nassert: u64,
    pub obs: Rc<Vec<T>>,
    pub steps: u64,
    pub expect_panic: bool,
    pub leak_check: bool,
    pub forks: u32,
    pub nch: u32,
    pub shard_ok: bool,
    pub hash: u64,
    pub smax: usize,
    pub sbase: usize,
}

pub enum Stop { Fault(&'static str, String), Unsup(String), Kill }
type R<X> = Result<X, Stop>;

pub struct Violation { pub kind: String, pub msg: String, pub line: u32, pub inputs: Vec<u64>, pub at: String }
pub struct Sample { pub inputs: Vec<u64>, pub obs: Vec<u64>, pub outcome: &'static str, pub steps: u64 }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub expected_panics: u64, pub killed: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub sym_asserts: u64,
    pub final_queries: u64, pub final_unsat: u64, pub branch_queries: u64, pub unknown: u64, pub max_steps: u64, pub max_forks: u32, pub max_vars: u32,
    pub other_shard: u64, pub concrete_only: u64,
}

/// max_alloc: no path of a check needs more in one block; a program that asks for it is taken to have run away.
pub struct Cfg { pub max_alloc: u64, pub max_steps: u64, pub max_secs: f64, pub shard: u64, pub shards: u64, pub shard_depth: u32, pub samples: usize, pub max_viol: usize, pub seed: u64, pub dumps: usize, pub params: Vec<u64> }

pub struct Ex<'m> {
    pub m: &'m Module,
    pub tm: Terms,
    pub sv: Solver,
    pub funcs: HashMap<String, Rc<Func>>,
    pub fn_by_id: Vec<Option<Rc<Func>>>,
    pub work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub viol_keys: HashSet<String>,
    pub samples: Vec<Sample>,
    pub covers: BTreeSet<u32>,
    pub dbg_seen: HashSet<u32>,
    pub fn_seen: HashSet<usize>,
    pub unsup: Option<String>,
    pub cfg: Cfg,
    pub rng: u64,
    pub dumps: Vec<(String, bool)>,
    pub timed_out: bool,
    pub t0: Instant,
}

fn fault<X>(k: &'static str, m: impl Into<String>) -> R<X> { Err(Stop::Fault(k, m.into())) }
fn unsup<X>(m: impl Into<String>) -> R<X> { Err(Stop::Unsup(m.into())) }

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        let n = m.fn_names.len();
        Ex { m, tm: Terms::new(), sv: Solver::new(20000), funcs: HashMap::new(), fn_by_id: vec![None; n], work: vec![], st: Stats::default(), viol: vec![], viol_keys: HashSet::new(), samples: vec![], covers: BTreeSet::new(), dbg_seen: HashSet::new(), fn_seen: HashSet::new(), unsup: None, rng: cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, cfg, dumps: vec![], timed_out: false, t0: Instant::now() }
    }
    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    fn func(&mut self, name: &str) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) { return Ok(f.clone()); }
        match self.m.parse_func(name) {
            Ok(f) => { let f = Rc::new(f); self.fn_seen.insert(f.id); self.funcs.insert(name.to_string(), f.clone()); self.fn_by_id[f.id] = Some(f.clone()); Ok(f) }
            Err(e) => unsup(format!("function {}: {}", name, e)),
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let mut mem = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            let size = g.ty.size();
            if size > (1 << STRIDE) - 0x3000 { continue; }
            mem.put_live(i as u64, Obj { base: obj_base(i as u64, g.align), size, kind: Kind::Global(g.constant), data: vec![0; size as usize], tag: vec![0; size as usize], sym: Default::default() });
        }
        mem.next = self.m.globals.len() as u64;
        for g in self.m.globals.iter() {
            let base = self.m.gaddr[&g.name];
            match self.m.global_init(g) {
                Ok(Some(v)) => self.init_store(&mut mem, base, &g.ty, &v),
                _ => {} // stays uninitialised: any use is reported
            }
        }
        let f = self.func(entry).map_err(|_| format!("no entry {}", entry))?;
        let fr = Frame { regs: vec![V::U; f.nregs], f, blk: 0, ip: 0, allocas: vec![], ret: None, catch: false };
        self.work.push(State { frames: vec![Rc::new(fr)], mem, pc: vec![], model: Rc::new(vec![]), known: Rc::new(HashMap::new()), nvars: 0, vars: Rc::new(vec![]), asserts: Rc::new(vec![]), nassert: 0, obs: Rc::new(vec![]), steps: 0, expect_panic: false, leak_check: false, forks: 0, nch: 0, shard_ok: false, hash: 0xcbf29ce484222325, smax: 0, sbase: 0 });
        Ok(())
    }
    fn init_store(&mut self, mem: &mut Mem, addr: u64, ty: &Ty, v: &V) {
        if ty.is_agg() {
            if let V::A(a) = v { for i in 0..ty.count() { let e = ty.elem(i); self.init_store(mem, addr + ty.offset(i), &e, &a[i]); } }
            return;
        }
        if let V::I(x) = v {
            let n = ty.size();
            if let Some((o, off)) = mem.init_mut(addr) { for i in 0..n as usize { o.put(off + i, B::C((x >> (8 * i)) as u8)); } }
        }
    }

    pub fn run(&mut self) {
        while let Some(mut s) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_secs { self.timed_out = true; return; }
            self.run_state(&mut s);
            if self.unsup.is_some() || self.viol.len() >= self.cfg.max_viol { return; }
        }
    }
    fn mine(&self, s: &State) -> bool { self.cfg.shards <= 1 || (s.hash ^ (s.hash >> 29)) % self.cfg.shards == self.cfg.shard }

    fn run_state(&mut self, s: &mut State) {
        let mut tick = 0u32;
        loop {
            if !s.shard_ok && s.nch >= self.cfg.shard_depth && self.cfg.shards > 1 {
                if !self.mine(s) { self.st.other_shard += 1; return; }
                s.shard_ok = true;
            }
            let r = self.step(s);
            s.steps += 1;
            self.st.steps += 1;
            tick += 1;
            if tick & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_secs { self.timed_out = true; return; }
            match r {
                Ok(true) => {
                    if s.steps > self.cfg.max_steps { self.end_fault(s, "hang", format!("no termination within {} instructions", self.cfg.max_steps)); return; }
                }
                Ok(false) => { self.end_ok(s, "returned"); return; }
                Err(Stop::Kill) => { self.st.killed += 1; return; }
                Err(Stop::Fault("expected-panic", _)) => { self.st.expected_panics += 1; self.end_ok(s, "panicked as expected"); return; }
                Err(Stop::Fault(k, m)) => { self.end_fault(s, k, m); return; }
                Err(Stop::Unsup(m)) => { let w = self.here(s); self.unsup = Some(format!("{} [{}]", m, w)); return; }
            }
        }
    }
    fn here(&self, s: &State) -> String {
        let mut out = vec![];
        for fr in s.frames.iter().rev().take(6) {
            let b = &fr.f.blocks[fr.blk as usize];
            let mut id = b.dbg.get(fr.ip as usize).copied().unwrap_or(0);
            let mut g = 0;
            while id != 0 && g < 12 {
                if let Some((f, n, l)) = self.m.loc(id) { out.push(format!("{} ({}:{})", n, f, l)); }
                id = self.m.inlined_at(id).unwrap_or(0);
                g += 1;
            }
            if b.dbg.get(fr.ip as usize).copied().unwrap_or(0) == 0 { out.push(fr.f.name.clone()); }
        }
        out.truncate(24);
        out.join(" <- ")
    }
    fn inputs(&self, s: &State, model: &[u64]) -> Vec<u64> {
        let mut memo = HashMap::new();
        s.vars.iter().map(|t| self.tm.eval(*t, model, &mut memo) as u64).collect()
    }
    /// A model of the path condition with random values wherever the path leaves them free.
    fn random_model(&mut self, s: &State) -> Vec<u64> {
        let mut any: Vec<u64> = s.model.to_vec();
        any.resize(s.nvars as usize, 0);
        let mut free = any.clone();
        let used = self.tm.support(&s.pc);
        for t in s.vars.iter() {
            let n = self.tm.nodes[*t as usize];
            if n.op != K::Var || n.a as usize >= any.len() { continue; }
            let r = self.rand() & mask(n.w) as u64;
            any[n.a as usize] = r;
            if !used.contains(&n.a) { free[n.a as usize] = r; }
        }
        let mut memo = HashMap::new();
        if s.pc.iter().all(|t| self.tm.eval(*t, &any, &mut memo) == 1) { any } else { free }
    }
    fn end_fault(&mut self, s: &mut State, kind: &str, msg: String) {
        // An earlier assertion may already fail on this path; report the fault (the path is feasible: its model satisfies pc).
        let at = self.here(s);
        let key = format!("{}|{}|{}", kind, msg.chars().take(60).collect::<String>(), at.chars().take(120).collect::<String>());
        if !self.viol_keys.insert(key) { return; }
        let inputs = self.inputs(s, &s.model.clone());
        self.viol.push(Violation { kind: kind.into(), msg, line: 0, inputs, at });
    }
    fn end_ok(&mut self, s: &mut State, outcome: &'static str) {
        if !s.shard_ok && !self.mine(s) { self.st.other_shard += 1; return; }
        if outcome == "returned" && s.leak_check && s.mem.heap_live > 0 {
            let l = s.mem.heap_leaks();
            self.end_fault(s, "leak", format!("{} heap block(s) never freed, e.g. {} bytes", l.len(), l[0].1));
            return;
        }
        self.st.paths += 1;
        self.st.asserts += s.nassert;
        self.st.max_steps = self.st.max_steps.max(s.steps);
        self.st.max_forks = self.st.max_forks.max(s.forks);
        self.st.max_vars = self.st.max_vars.max(s.nvars);
        if s.asserts.is_empty() { self.st.concrete_only += 1; }
        else {
            let mut goals = vec![];
            let mut neq = vec![];
            for a in s.asserts.iter() {
                match a.b { None => { let n = self.tm.not(a.a); goals.push(n); } Some(b) => neq.push((a.a, b)) }
            }
            self.st.sym_asserts += s.asserts.len() as u64;
            self.st.final_queries += 1;
            let mut d = None;
            let want = self.dumps.len() < self.cfg.dumps && (self.rand() % 7 == 0);
            let (r, m) = self.sv.check(&self.tm, &s.pc, &goals, &neq, s.nvars as usize, if want { Some(&mut d) } else { None });
            if let Some(t) = d { self.dumps.push((t, r == Res::Sat)); }
            match r {
                Res::Unsat => self.st.final_unsat += 1,
                Res::Unknown => self.st.unknown += 1,
                Res::Sat => {
                    let model = m.unwrap();
                    let mut memo = HashMap::new();
                    let mut line = 0;
                    let mut msg = String::from("assertion");
                    for a in s.asserts.iter() {
                        let x = self.tm.eval(a.a, &model, &mut memo);
                        match a.b {
                            None => if x != 1 { line = a.line; break; },
                            Some(b) => { let y = self.tm.eval(b, &model, &mut memo); if x != y { line = a.line; msg = format!("{:#x} != {:#x}", x, y); break; } }
                        }
                    }
                    if self.viol_keys.insert(format!("assert|{}", line)) {
                        let inputs = self.inputs(s, &model);
                        self.viol.push(Violation { kind: "assert".into(), msg, line, inputs, at: String::new() });
                    }
                    return;
                }
            }
        }
        // sample for native cross-validation
        let k = self.st.paths;
        let slot = if self.samples.len() < self.cfg.samples { Some(self.samples.len()) } else { let r = self.rand() % k; if (r as usize) < self.cfg.samples { Some(r as usize) } else { None } };
        if let Some(i) = slot {
            let model = self.random_model(s);
            let inputs = self.inputs(s, &model);
            let mut memo = HashMap::new();
            let obs = s.obs.iter().map(|t| self.tm.eval(*t, &model, &mut memo) as u64).collect();
            let smp = Sample { inputs, obs, outcome, steps: s.steps };
            if i == self.samples.len() { self.samples.push(smp) } else { self.samples[i] = smp }
        }
    }

    // ---- values -------------------------------------------------------
    fn term(&mut self, v: &V, w: u32) -> R<T> {
        match v {
            V::I(x) => Ok(self.tm.konst(w, *x)),
            V::S(t) => Ok(*t),
            _ => fault("uninit", "use of an uninitialised value"),
        }
    }
    fn wrap(&self, t: T) -> V { match self.tm.as_const(t) { Some(k) => V::I(k), None => V::S(t) } }
    fn get<'a>(&self, fr: &'a Frame, o: &'a Opd) -> V { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() } }

    fn add_pc(&mut self, s: &mut State, c: T) { if self.tm.as_const(c).is_none() { s.pc.push(c); } }
    fn note_choice(&mut self, s: &mut State, bit: u64) {
        // Only explicit choices identify a shard: their outcomes do not depend on solver models, so every
        // path belongs to exactly one shard.
        if s.nch < self.cfg.shard_depth { s.hash = (s.hash ^ (bit + 1)).wrapping_mul(0x100000001b3); s.hash ^= s.hash >> 17; s.nch += 1; }
        s.forks += 1;
    }
    /// Make boolean term c concrete in this state: the other outcome, if feasible, is pushed as a state that re-executes the current instruction.
    fn decide(&mut self, s: &mut State, c: T) -> R<bool> {
        if let Some(k) = self.tm.as_const(c) { return Ok(k == 1); }
        if let Some(&k) = s.known.get(&c) { return Ok(k == 1); }
        let mut memo = HashMap::new();
        let v = self.tm.eval(c, &s.model, &mut memo) == 1;
        let nc = self.tm.not(c);
        let (cur, oth) = if v { (c, nc) } else { (nc, c) };
        self.st.branch_queries += 1;
        let mut pc2 = s.pc.clone();
        pc2.push(oth);
        let (r, m) = self.sv.check(&self.tm, &pc2, &[], &[], s.nvars as usize, None);
        match r {
            Res::Unknown => { self.st.unknown += 1; }
            Res::Sat => {
                let mut o = s.clone();
                o.pc = pc2;
                o.model = Rc::new(m.unwrap());
                Rc::make_mut(&mut o.known).insert(c, (!v) as u128);
                o.forks += 1;
                s.forks += 1;
                self.st.forks += 1;
                self.work.push(o);
                self.add_pc(s, cur);
            }
            Res::Unsat => {}
        }
        Rc::make_mut(&mut s.known).insert(c, v as u128);
        Ok(v)
    }
    fn conc(&mut self, s: &mut State, v: &V, w: u32) -> R<u128> {
        match v {
            V::I(x) => Ok(*x),
            V::S(t) => {
                let t = *t;
                if let Some(&k) = s.known.get(&t) { return Ok(k); }
                loop {
                    let mut memo = HashMap::new();
                    let x = self.tm.eval(t, &s.model, &mut memo);
                    let k = self.tm.konst(w, x);
                    let e = self.tm.bin(K::Eq, t, k);
                    if self.decide(s, e)? { Rc::make_mut(&mut s.known).insert(t, x); return Ok(x); }
                }
            }
            _ => fault("uninit", "use of an uninitialised value as an address, size or branch condition"),
        }
    }
    fn addr(&mut self, s: &mut State, v: &V) -> R<u64> { Ok(self.conc(s, v, 64)? as u64) }

    fn load_bytes(&self, s: &State, addr: u64, n: usize) -> R<Vec<B>> {
        match s.mem.find(addr, n as u64, "read") { Ok((o, off)) => Ok((0..n).map(|i| o.get(off + i)).collect()), Err(e) => fault("memory", e) }
    }
    fn from_bytes(&mut self, b: &[B], bits: u32) -> V {
        if b.iter().all(|x| matches!(x, B::C(_))) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() { if let B::C(c) = x { v |= (*c as u128) << (8 * i); } }
            return V::I(v & mask(bits));
        }
        if b.iter().all(|x| *x == B::U) { return V::U; }
        if b.iter().any(|x| *x == B::U) { return V::M(Rc::new(b.to_vec())); }
        let mut t: Option<T> = None;
        for x in b.iter() {
            let bt = match x { B::C(c) => self.tm.konst(8, *c as u128), B::S(t) => *t, B::U => unreachable!() };
            t = Some(match t { None => bt, Some(lo) => self.tm.concat(bt, lo) });
        }
        let mut t = t.unwrap();
        if self.tm.w(t) > bits { t = self.tm.extract(t, 0, bits); }
        self.wrap(t)
    }
    fn load(&mut self, s: &State, addr: u64, ty: &Ty) -> R<V> {
        if ty.is_agg() {
            if let Ty::Vect(_, e) = ty { if e.bits() % 8 != 0 { return unsup("load of sub-byte vector"); } }
            let mut v = vec![];
            for i in 0..ty.count() { let e = ty.elem(i); v.push(self.load(s, addr + ty.offset(i), &e)?); }
            return Ok(V::A(Rc::new(v)));
        }
        let bits = ty.bits();
        let n = ((bits + 7) / 8) as usize;
        if n == 0 { return unsup(format!("load of {:?}", ty)); }
        // fast path
        match s.mem.find(addr, n as u64, "read") {
            Ok((o, off)) => {
                if o.tag[off..off + n].iter().all(|t| *t == 1) {
                    let mut v = 0u128;
                    for i in 0..n { v |= (o.data[off + i] as u128) << (8 * i); }
                    return Ok(V::I(v & mask(bits)));
                }
                let b: Vec<B> = (0..n).map(|i| o.get(off + i)).collect();
                Ok(self.from_bytes(&b, bits))
            }
            Err(e) => fault("memory", e),
        }
    }
    fn to_bytes(&mut self, v: &V, n: usize, bits: u32) -> Vec<B> {
        match v {
            V::I(x) => (0..n).map(|i| B::C((x >> (8 * i)) as u8)).collect(),
            V::S(t) => {
                let mut t = *t;
                let w = self.tm.w(t);
                if w < 8 * n as u32 { t = self.tm.zext(t, 8 * n as u32); }
                (0..n).map(|i| { let e = self.tm.extract(t, 8 * i as u32, 8); match self.tm.as_const(e) { Some(k) => B::C(k as u8), None => B::S(e) } }).collect()
            }
            V::M(b) => (0..n).map(|i| b.get(i).copied().unwrap_or(B::C(0))).collect(),
            _ => { let _ = bits; vec![B::U; n] }
        }
    }
    fn store(&mut self, s: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        if ty.is_agg() {
            if let Ty::Vect(_, e) = ty { if e.bits() % 8 != 0 { return unsup("store of sub-byte vector"); } }
            let vs = match v { V::A(a) => a.clone(), _ => Rc::new(vec![V::U; ty.count()]) };
            for i in 0..ty.count() { let e = ty.elem(i); self.store(s, addr + ty.offset(i), &e, &vs[i])?; }
            return Ok(());
        }
        let bits = ty.bits();
        let n = ((bits + 7) / 8) as usize;
        if n == 0 { return unsup(format!("store of {:?}", ty)); }
        if let V::I(x) = v {
            return match s.mem.find_mut(addr, n as u64) {
                Ok((o, off)) => {
                    for i in 0..n {
                        if o.tag[off + i] == 2 { o.sym.remove(&((off + i) as u32)); }
                        o.tag[off + i] = 1;
                        o.data[off + i] = (x >> (8 * i)) as u8;
                    }
                    Ok(())
                }
                Err(e) => fault("memory", e),
            };
        }
        let b = self.to_bytes(v, n, bits);
        match s.mem.find_mut(addr, n as u64) { Ok((o, off)) => { for (i, x) in b.iter().enumerate() { o.put(off + i, *x); } Ok(()) } Err(e) => fault("memory", e) }
    }
    fn memcopy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = match s.mem.find(src, n, "read") { Ok((o, off)) => (o.clone(), off), Err(e) => return fault("memory", e) };
        let (o, off) = match s.mem.find_mut(d, n) { Ok(x) => x, Err(e) => return fault("memory", e) };
        let (sobj, soff) = so;
        let n = n as usize;
        o.data[off..off + n].copy_from_slice(&sobj.data[soff..soff + n]);
        if !o.sym.is_empty() || !sobj.sym.is_empty() {
            let ks: Vec<u32> = o.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
            for k in ks { o.sym.remove(&k); }
            for (k, v) in sobj.sym.range(soff as u32..(soff + n) as u32) { o.sym.insert(k - soff as u32 + off as u32, *v); }
        }
        o.tag[off..off + n].copy_from_slice(&sobj.tag[soff..soff + n]);
        Ok(())
    }

    fn bytes_of(&self, v: &V, n: usize) -> Vec<B> { match v { V::I(x) => (0..n).map(|i| B::C((x >> (8 * i)) as u8)).collect(), V::M(b) => b.to_vec(), _ => vec![B::U; n] } }

    fn bin(&mut self, op: K, w: u32, a: &V, b: &V, fl: (bool, bool, bool, bool)) -> R<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                let (x, y) = (*x, *y);
                match op {
                    K::UDiv | K::URem | K::SDiv | K::SRem if y == 0 => return fault("ub", "division by zero"),
                    _ => {}
                }
                let r = match eval_bin(op, w, x, y) { Some(r) => r, None => return Ok(V::U) };
                // poison-generating flags
                let (nuw, nsw, exact, dis) = fl;
                let bad = match op {
                    K::Add => (nuw && r < x) || (nsw && sext(x, w).checked_add(sext(y, w)).map(|z| z != sext(r, w)).unwrap_or(true)),
                    K::Sub => (nuw && y > x) || (nsw && sext(x, w).checked_sub(sext(y, w)).map(|z| z != sext(r, w)).unwrap_or(true)),
                    K::Mul => w <= 64 && ((nuw && x * y > mask(w)) || (nsw && sext(x, w) * sext(y, w) != sext(r, w))),
                    K::Or => dis && x & y != 0,
                    K::LShr => exact && (r << y) != x,
                    K::Shl => nuw && (r >> y) != x,
                    K::UDiv => exact && r * y != x,
                    _ => false,
                };
                Ok(if bad { V::U } else { V::I(r) })
            }
            (V::A(x), V::A(y)) => {
                let mut o = vec![];
                for i in 0..x.len() { o.push(self.bin(op, w, &x[i], &y[i], fl)?); }
                Ok(V::A(Rc::new(o)))
            }
            (V::S(_), V::S(_)) | (V::S(_), V::I(_)) | (V::I(_), V::S(_)) => {
                let (x, y) = (self.term(a, w)?, self.term(b, w)?);
                let t = self.tm.bin(op, x, y);
                Ok(self.wrap(t))
            }
            _ => {
                // undef involved
                let zero = |v: &V| matches!(v, V::I(0));
                let ones = |v: &V| matches!(v, V::I(x) if *x == mask(w));
                match op {
                    K::And | K::Mul if zero(a) || zero(b) => return Ok(V::I(0)),
                    K::Or if ones(a) || ones(b) => return Ok(V::I(mask(w))),
                    _ => {}
                }
                if let (V::M(_), V::I(k)) = (a, b) {
                    let n = ((w + 7) / 8) as usize;
                    let x = self.bytes_of(a, n);
                    match op {
                        K::And | K::Or | K::Xor => {
                            let mut o = vec![];
                            for i in 0..n {
                                let kb = (k >> (8 * i)) as u8;
                                o.push(match (op, x[i], kb) {
                                    (K::And, _, 0) => B::C(0),
                                    (K::And, y, 0xff) => y,
                                    (K::Or, _, 0xff) => B::C(0xff),
                                    (K::Or, y, 0) | (K::Xor, y, 0) => y,
                                    (_, B::C(c), _) => B::C(match op { K::And => c & kb, K::Or => c | kb, _ => c ^ kb }),
                                    (_, B::S(t), _) => { let kt = self.tm.konst(8, kb as u128); let r = self.tm.bin(op, t, kt); B::S(r) }
                                    _ => B::U,
                                });
                            }
                            return Ok(self.from_bytes(&o, w));
                        }
                        K::LShr | K::Shl if k % 8 == 0 && *k < w as u128 => {
                            let sh = (*k / 8) as usize;
                            let o: Vec<B> = (0..n).map(|i| if op == K::LShr { if i + sh < n { x[i + sh] } else { B::C(0) } } else if i >= sh { x[i - sh] } else { B::C(0) }).collect();
                            return Ok(self.from_bytes(&o, w));
                        }
                        _ => {}
                    }
                }
                if let (V::M(_), V::M(_)) | (V::I(_), V::M(_)) = (a, b) {
                    if matches!(op, K::Or | K::Add) {
                        // disjoint merge of byte fields
                        let n = ((w + 7) / 8) as usize;
                        let (x, y) = (self.bytes_of(a, n), self.bytes_of(b, n));
                        let mut o = vec![];
                        for i in 0..n { o.push(match (x[i], y[i]) { (B::C(0), z) | (z, B::C(0)) => z, _ => B::U }); }
                        return Ok(self.from_bytes(&o, w));
                    }
                }
                match op { K::UDiv | K::URem | K::SDiv | K::SRem if matches!(b, V::U | V::M(_)) => return fault("uninit", "division by uninitialised value"), _ => {} }
                Ok(V::U)
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                let (x, y) = (*x, *y);
                let (sx, sy) = (sext(x, w), sext(y, w));
                Ok(V::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u128))
            }
            (V::A(x), V::A(y)) => { let mut o = vec![]; for i in 0..x.len() { o.push(self.icmp(p, w, &x[i], &y[i])?); } Ok(V::A(Rc::new(o))) }
            (V::S(_), V::S(_)) | (V::S(_), V::I(_)) | (V::I(_), V::S(_)) => {
                let (x, y) = (self.term(a, w)?, self.term(b, w)?);
                let t = match p {
                    Pred::Eq => self.tm.bin(K::Eq, x, y),
                    Pred::Ne => { let t = self.tm.bin(K::Eq, x, y); self.tm.not(t) }
                    Pred::Ugt => self.tm.bin(K::Ult, y, x),
                    Pred::Uge => { let t = self.tm.bin(K::Ult, x, y); self.tm.not(t) }
                    Pred::Ult => self.tm.bin(K::Ult, x, y),
                    Pred::Ule => { let t = self.tm.bin(K::Ult, y, x); self.tm.not(t) }
                    Pred::Sgt => self.tm.bin(K::Slt, y, x),
                    Pred::Sge => { let t = self.tm.bin(K::Slt, x, y); self.tm.not(t) }
                    Pred::Slt => self.tm.bin(K::Slt, x, y),
                    Pred::Sle => { let t = self.tm.bin(K::Slt, y, x); self.tm.not(t) }
                };
                Ok(self.wrap(t))
            }
            _ => {
                if let (V::M(x), V::I(k)) | (V::I(k), V::M(x)) = (a, b) {
                    if matches!(p, Pred::Eq | Pred::Ne) {
                        for (i, y) in x.iter().enumerate() { if let B::C(c) = y { if *c != (k >> (8 * i)) as u8 { return Ok(V::I((p == Pred::Ne) as u128)); } } }
                    }
                }
                Ok(V::U)
            }
        }
    }
    fn cast(&mut self, k: CastK, fw: u32, tw: u32, a: &V) -> R<V> {
        Ok(match a {
            V::I(x) => V::I(match k { CastK::Trunc => x & mask(tw), CastK::SExt => sext(*x, fw) as u128 & mask(tw), _ => *x }),
            V::S(t) => {
                let t = match k { CastK::Trunc => self.tm.extract(*t, 0, tw), CastK::ZExt => self.tm.zext(*t, tw), CastK::SExt => self.tm.sext(*t, tw), CastK::Id => *t };
                self.wrap(t)
            }
            V::A(v) => { let mut o = vec![]; for x in v.iter() { o.push(self.cast(k, fw, tw, x)?); } V::A(Rc::new(o)) }
            V::M(b) => match k {
                CastK::Trunc => { let n = ((tw + 7) / 8) as usize; let b = b[..n].to_vec(); self.from_bytes(&b, tw) }
                CastK::ZExt if fw % 8 == 0 => { let n = ((tw + 7) / 8) as usize; let mut b = b.to_vec(); b.resize(n, B::C(0)); V::M(Rc::new(b)) }
                CastK::Id => a.clone(),
                _ => V::U,
            },
            V::U => V::U,
        })
    }
    fn select(&mut self, s: &mut State, ty: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::I(k) => Ok(if *k == 1 { a.clone() } else { b.clone() }),
            V::S(t) => {
                let scalar = |v: &V| matches!(v, V::I(_) | V::S(_));
                if let (Ty::Int(w), true, true) = (ty, scalar(a), scalar(b)) {
                    if !s.known.contains_key(t) {
                        let (x, y) = (self.term(a, *w)?, self.term(b, *w)?);
                        let r = self.tm.ite(*t, x, y);
                        return Ok(self.wrap(r));
                    }
                }
                Ok(if self.decide(s, *t)? { a.clone() } else { b.clone() })
            }
            V::A(cs) => {
                let (x, y) = match (a, b) { (V::A(x), V::A(y)) => (x, y), _ => return unsup("vector select") };
                let mut o = vec![];
                for i in 0..cs.len() { let e = ty.elem(i); o.push(self.select(s, &e, &cs[i], &x[i], &y[i])?); }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(V::U),
        }
    }
    fn fresh(&mut self, s: &mut State, w: u32) -> T {
        let t = self.tm.var(s.nvars, w);
        s.nvars += 1;
        Rc::make_mut(&mut s.vars).push(t);
        t
    }

    // ---- control ------------------------------------------------------
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let (o, _) = inc.iter().find(|x| x.1 == from).expect("phi edge");
                vals.push((*d, match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() }));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    fn set(&self, s: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        fr.regs[d as usize] = v;
        fr.ip += 1;
    }
    fn adv(&self, s: &mut State) { Rc::make_mut(s.frames.last_mut().unwrap()).ip += 1; }

    /// Ok(true) = continue, Ok(false) = entry function returned
    fn step(&mut self, s: &mut State) -> R<bool> {
        let frc = s.frames.last().unwrap();
        let f = frc.f.clone();
        let blk = &f.blocks[frc.blk as usize];
        let ip = frc.ip as usize;
        let dbg = blk.dbg[ip];
        if dbg != 0 { self.dbg_seen.insert(dbg); }
        macro_rules! g { ($o:expr) => {{ let fr: &Frame = s.frames.last().unwrap(); match $o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() } }}; }
        match &blk.ins[ip] {
            Ins::Nop => self.adv(s),
            Ins::Alloca { d, size, n, nw, align } => {
                let nv = g!(n);
                let n = self.conc(s, &nv, *nw)? as u64;
                let a = s.mem.alloc(size * n, *align, Kind::Stack);
                Rc::make_mut(s.frames.last_mut().unwrap()).allocas.push(a);
                self.set(s, *d, V::I(a as u128));
            }
            Ins::Load { d, ty, p, align } => {
                let p = g!(p);
                let a = self.addr(s, &p)?;
                if a % align != 0 { return fault("memory", format!("misaligned read at {:#x} (align {})", a, align)); }
                let v = self.load(s, a, ty)?;
                self.set(s, *d, v);
            }
            Ins::Store { ty, v, p, align } => {
                let p = g!(p);
                let a = self.addr(s, &p)?;
                if a % align != 0 { return fault("memory", format!("misaligned write at {:#x} (align {})", a, align)); }
                let v = g!(v);
                self.store(s, a, ty, &v)?;
                self.adv(s);
            }
            Ins::Gep { d, base, off, idx } => {
                let b = g!(base);
                let k = V::I(*off as u64 as u128);
                let mut r = if *off == 0 { b } else { self.bin(K::Add, 64, &b, &k, (false, false, false, false))? };
                for (o, sc, w) in idx {
                    let mut i = g!(o);
                    if *w != 64 { i = self.cast(if *w < 64 { CastK::SExt } else { CastK::Trunc }, *w, 64, &i)?; }
                    let m = self.bin(K::Mul, 64, &i, &V::I(*sc as u128), (false, false, false, false))?;
                    r = self.bin(K::Add, 64, &r, &m, (false, false, false, false))?;
                }
                self.set(s, *d, r);
            }
            Ins::Bin { d, op, ty, a, b, nuw, nsw, exact, disjoint } => {
                let (a, b) = (g!(a), g!(b));
                let w = if let Ty::Vect(_, e) = ty { e.bits() } else { ty.bits() };
                if let (K::UDiv | K::URem | K::SDiv | K::SRem, V::S(t)) = (op, &b) {
                    let z = self.tm.konst(w, 0);
                    let e = self.tm.bin(K::Eq, *t, z);
                    if self.decide(s, e)? { return fault("ub", "division by zero"); }
                }
                let v = self.bin(*op, w, &a, &b, (*nuw, *nsw, *exact, *disjoint))?;
                self.set(s, *d, v);
            }
            Ins::Icmp { d, pred, ty, a, b } => {
                let (a, b) = (g!(a), g!(b));
                let w = if let Ty::Vect(_, e) = ty { e.bits() } else { ty.bits() };
                let v = self.icmp(*pred, w, &a, &b)?;
                self.set(s, *d, v);
            }
            Ins::Cast { d, k, from, to, a } => {
                let a = g!(a);
                let (fw, tw) = match (from, to) { (Ty::Vect(_, x), Ty::Vect(_, y)) => (x.bits(), y.bits()), _ => (from.bits(), to.bits()) };
                let v = self.cast(*k, fw, tw, &a)?;
                self.set(s, *d, v);
            }
            Ins::Select { d, ty, c, a, b, .. } => {
                let (c, a, b) = (g!(c), g!(a), g!(b));
                let v = self.select(s, ty, &c, &a, &b)?;
                self.set(s, *d, v);
            }
            Ins::ExtractV { d, a, idx } => {
                let mut v = g!(a);
                for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => V::U }; }
                self.set(s, *d, v);
            }
            Ins::InsertV { d, ty, a, v, idx } => {
                let (a, v) = (g!(a), g!(v));
                let r = insert(ty, a, v, idx);
                self.set(s, *d, r);
            }
            Ins::ExtractE { d, a, i } => {
                let (a, i) = (g!(a), g!(i));
                let i = self.conc(s, &i, 64)? as usize;
                let v = match a { V::A(x) => x.get(i).cloned().unwrap_or(V::U), _ => V::U };
                self.set(s, *d, v);
            }
            Ins::InsertE { d, ty, a, v, i } => {
                let (a, v, i) = (g!(a), g!(v), g!(i));
                let i = self.conc(s, &i, 64)? as u32;
                let r = insert(ty, a, v, &[i]);
                self.set(s, *d, r);
            }
            Ins::Shuffle { d, ty, a, b, mask } => {
                let n = ty.count();
                let lane = |v: &V, i: usize| match v { V::A(x) => x[i].clone(), _ => V::U };
                let (a, b) = (g!(a), g!(b));
                let r = mask.iter().map(|k| match k { None => V::U, Some(k) => { let k = *k as usize; if k < n { lane(&a, k) } else { lane(&b, k - n) } } }).collect();
                self.set(s, *d, V::A(Rc::new(r)));
            }
            Ins::Freeze { d, ty, a } => {
                let v = g!(a);
                let v = self.freeze(s, ty, v)?;
                self.set(s, *d, v);
            }
            Ins::Br(t) => self.jump(s, *t),
            Ins::CondBr(c, a, b) => {
                let v = g!(c);
                let k = match v {
                    V::I(x) => x == 1,
                    V::S(t) => self.decide(s, t)?,
                    _ => return fault("uninit", "branch on an uninitialised value"),
                };
                self.jump(s, if k { *a } else { *b });
            }
            Ins::Switch { w, c, def, cases } => {
                let v = g!(c);
                let x = match v {
                    V::I(x) => Some(x),
                    V::S(t) => {
                        if let Some(&k) = s.known.get(&t) { Some(k) } else {
                            let mut memo = HashMap::new();
                            let x = self.tm.eval(t, &s.model, &mut memo);
                            if cases.iter().any(|(k, _)| *k == x) {
                                let k = self.tm.konst(*w, x);
                                let e = self.tm.bin(K::Eq, t, k);
                                if self.decide(s, e)? { Some(x) } else { unreachable!() }
                            } else {
                                // default under the model: exclude the cases one at a time
                                for (k, _) in cases {
                                    let kt = self.tm.konst(*w, *k);
                                    let e = self.tm.bin(K::Eq, t, kt);
                                    if self.decide(s, e)? { unreachable!() }
                                }
                                None
                            }
                        }
                    }
                    _ => return fault("uninit", "switch on an uninitialised value"),
                };
                let to = x.and_then(|x| cases.iter().find(|(k, _)| *k == x).map(|c| c.1)).unwrap_or(*def);
                self.jump(s, to);
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| g!(o));
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas { s.mem.free_id(*a); }
                if s.frames.is_empty() { return Ok(false); }
                let ret = fr.ret;
                let v = if fr.catch { Some(V::I(0)) } else { v };
                match (ret, v) { (Some(d), Some(v)) => self.set(s, d, v), _ => self.adv(s) }
                self.after_call(s);
            }
            Ins::LandingPad { d } => self.set(s, *d, V::A(Rc::new(vec![V::I(0x10), V::I(0)]))),
            Ins::Resume => return self.unwind_caller(s),
            Ins::Unreachable => return fault("ub", "reached an `unreachable` instruction (undefined behaviour)"),
            Ins::Atomic { d, kind, ty, p, a, b } => {
                let p = g!(p);
                let ad = self.addr(s, &p)?;
                let old = self.load(s, ad, ty)?;
                let a = g!(a);
                let w = ty.bits();
                let nf = (false, false, false, false);
                let new = match kind.as_str() {
                    "cmpxchg" => {
                        let c = self.icmp(Pred::Eq, w, &old, &a)?;
                        let ok = self.conc(s, &c, 1)? == 1;
                        if ok { let nv = g!(b.as_ref().unwrap()); self.store(s, ad, ty, &nv)?; }
                        self.set(s, *d, V::A(Rc::new(vec![old, V::I(ok as u128)])));
                        return Ok(true);
                    }
                    "xchg" => a,
                    "add" => self.bin(K::Add, w, &old, &a, nf)?,
                    "sub" => self.bin(K::Sub, w, &old, &a, nf)?,
                    "and" => self.bin(K::And, w, &old, &a, nf)?,
                    "or" => self.bin(K::Or, w, &old, &a, nf)?,
                    "xor" => self.bin(K::Xor, w, &old, &a, nf)?,
                    o => return unsup(format!("atomicrmw {}", o)),
                };
                self.store(s, ad, ty, &new)?;
                self.set(s, *d, old);
            }
            Ins::Call { d, ret, callee, args, .. } => {
                let vals: Vec<V> = args.iter().map(|(_, o)| g!(o)).collect();
                let name: String = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Asm => { self.adv(s); return Ok(true); }
                    Callee::Indirect(o) => {
                        let v = g!(o);
                        let a = self.addr(s, &v)?;
                        if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fn_names.len() as u64 { return fault("memory", format!("call through invalid function pointer {:#x}", a)); }
                        self.m.fn_names[((a - FN_BASE) / 16) as usize].clone()
                    }
                };
                if name.ends_with("17rust_begin_unwind") && !self.m.declared.contains_key("sym_panic") { return self.std_panic(s, &vals[0]); }
                if name == "sym_throw" { return self.unwind(s); }
                let catch = name == "sym_catch";
                let (name, vals) = if catch {
                    let a = self.addr(s, &vals[0])?;
                    match self.m.fn_names.get((a.wrapping_sub(FN_BASE) / 16) as usize) { Some(n) => (n.clone(), vec![vals[1].clone()]), None => return fault("memory", "sym_catch of no function") }
                } else { (name, vals) };
                if self.m.ftexts.contains_key(&name) {
                    if s.frames.len() > 4000 { return fault("hang", "call stack deeper than 4000 frames"); }
                    let fu = self.func(&name)?;
                    if fu.params.len() != vals.len() { return unsup(format!("arity of {}", name)); }
                    let mut regs = vec![V::U; fu.nregs];
                    for (p, v) in fu.params.iter().zip(vals) { regs[*p as usize] = v; }
                    s.frames.push(Rc::new(Frame { f: fu, blk: 0, ip: 0, regs, allocas: vec![], ret: *d, catch }));
                    s.smax = s.smax.max(s.frames.len());
                    return Ok(true);
                }
                let tys: Vec<&Ty> = args.iter().map(|a| &a.0).collect();
                let r = self.builtin(s, &name, ret, &tys, &vals)?;
                match (d, r) { (Some(d), Some(v)) => self.set(s, *d, v), (Some(d), None) => self.set(s, *d, V::U), _ => self.adv(s) }
                self.after_call(s);
            }
            Ins::Unsupported(t) => return unsup(format!("instruction: {}", t)),
        }
        Ok(true)
    }
    /// A panic in a harness that links std, whose panic machinery is not executed.
    fn std_panic(&mut self, s: &mut State, info: &V) -> R<bool> {
        if s.expect_panic { return fault("expected-panic", ""); }
        let i = self.addr(s, info)?;
        let mut word = |a: u64, t: Ty| match self.load(s, a, &t) { Ok(V::I(x)) => x as u64, _ => 0 };
        let l = word(i + 8, Ty::Ptr);
        let (f, n, line) = (word(l, Ty::Ptr), word(l + 8, Ty::Int(64)), word(l + 16, Ty::Int(32)));
        let b = self.load_bytes(s, f, (n as usize).min(300)).unwrap_or_default();
        let f: String = b.iter().map(|x| match x { B::C(c) if *c > 0 => *c as char, _ => '?' }).collect();
        fault("panic", format!("{}:{}", f, line))
    }
    /// Something is being thrown in the current frame, whose current instruction is a call.
    fn unwind(&mut self, s: &mut State) -> R<bool> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        match &f.blocks[fr.blk as usize].ins[fr.ip as usize] {
            Ins::Call { normal: Some((_, pad)), .. } => { self.jump(s, *pad); Ok(true) }
            _ => self.unwind_caller(s),
        }
    }
    fn unwind_caller(&mut self, s: &mut State) -> R<bool> {
        loop {
            let fr = s.frames.pop().unwrap();
            for a in &fr.allocas { s.mem.free_id(*a); }
            if s.frames.is_empty() { return fault("panic", "nothing catches what was thrown"); }
            if fr.catch {
                match fr.ret { Some(d) => self.set(s, d, V::I(1)), None => self.adv(s) }
                self.after_call(s);
                return Ok(true);
            }
            let up = s.frames.last().unwrap();
            let f = up.f.clone();
            if let Ins::Call { normal: Some((_, pad)), .. } = &f.blocks[up.blk as usize].ins[up.ip as usize] { self.jump(s, *pad); return Ok(true); }
        }
    }
    /// An invoke continues at its normal destination.
    fn after_call(&mut self, s: &mut State) {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        if let Ins::Call { normal: Some((n, _)), .. } = &f.blocks[fr.blk as usize].ins[fr.ip as usize - 1] { self.jump(s, *n); }
    }
    fn freeze(&mut self, s: &mut State, ty: &Ty, v: V) -> R<V> {
        Ok(match v {
            V::U | V::M(_) => { if ty.is_agg() { return unsup("freeze of aggregate"); } V::I(0) }
            V::A(x) => { let mut o = vec![]; for (i, e) in x.iter().enumerate() { let et = ty.elem(i); o.push(self.freeze(s, &et, e.clone())?); } V::A(Rc::new(o)) }
            v => v,
        })
    }
    fn builtin(&mut self, s: &mut State, name: &str, ret: &Ty, tys: &[&Ty], a: &[V]) -> R<Option<V>> {
        let nf = (false, false, false, false);
        match name {
            "sym_var" => {
                let w = self.conc(s, &a[0], 32)? as u32;
                let t = self.fresh(s, w);
                let z = self.tm.zext(t, 64);
                return Ok(Some(self.wrap(z)));
            }
            "sym_choice" => {
                let n = self.conc(s, &a[0], 32)? as u64;
                if n == 0 { return Err(Stop::Kill); }
                let idx = s.nvars as usize;
                let t = self.fresh(s, 32);
                let base = s.clone();
                // every value of a fresh, otherwise unconstrained variable is feasible
                for i in (0..n).rev() {
                    let k = self.tm.konst(32, i as u128);
                    let e = self.tm.bin(K::Eq, t, k);
                    let mut o = if i == 0 { break } else { base.clone() };
                    o.pc.push(e);
                    Rc::make_mut(&mut o.known).insert(t, i as u128);
                    let mut m = (*o.model).clone();
                    if m.len() <= idx { m.resize(idx + 1, 0); }
                    m[idx] = i;
                    o.model = Rc::new(m);
                    self.note_choice(&mut o, i);
                    self.st.forks += 1;
                    // resume after the call
                    let d = match &o.frames.last().unwrap().f.blocks[o.frames.last().unwrap().blk as usize].ins[o.frames.last().unwrap().ip as usize] { Ins::Call { d, .. } => *d, _ => None };
                    match d { Some(d) => self.set(&mut o, d, V::I(i as u128)), None => self.adv(&mut o) }
                    self.after_call(&mut o);
                    self.work.push(o);
                }
                let k = self.tm.konst(32, 0);
                let e = self.tm.bin(K::Eq, t, k);
                s.pc.push(e);
                Rc::make_mut(&mut s.known).insert(t, 0);
                let mut m = (*s.model).clone();
                if m.len() <= idx { m.resize(idx + 1, 0); }
                m[idx] = 0;
                s.model = Rc::new(m);
                self.note_choice(s, 0);
                return Ok(Some(V::I(0)));
            }
            "sym_conc" => { let v = self.conc(s, &a[0], 64)?; return Ok(Some(V::I(v))); }
            "sym_assume" => {
                match &a[0] {
                    V::I(1) => {}
                    V::I(_) => return Err(Stop::Kill),
                    V::S(t) => {
                        let mut memo = HashMap::new();
                        if self.tm.eval(*t, &s.model, &mut memo) != 1 {
                            let mut pc = s.pc.clone();
                            pc.push(*t);
                            self.st.branch_queries += 1;
                            let (r, m) = self.sv.check(&self.tm, &pc, &[], &[], s.nvars as usize, None);
                            match r { Res::Sat => s.model = Rc::new(m.unwrap()), Res::Unsat => return Err(Stop::Kill), Res::Unknown => { self.st.unknown += 1; return Err(Stop::Kill); } }
                        }
                        s.pc.push(*t);
                        Rc::make_mut(&mut s.known).insert(*t, 1);
                    }
                    _ => return fault("uninit", "assumption on an uninitialised value"),
                }
                return Ok(None);
            }
            "sym_assert" => {
                let line = match a[1] { V::I(x) => x as u32, _ => 0 };
                s.nassert += 1;
                match &a[0] {
                    V::I(1) => {}
                    V::I(_) => return fault("assert", format!("line {}", line)),
                    V::S(t) => Rc::make_mut(&mut s.asserts).push(Asrt { a: *t, b: None, line }),
                    _ => return fault("uninit", format!("assertion at line {} depends on an uninitialised value", line)),
                }
                return Ok(None);
            }
            "sym_assert_eq" => {
                let line = match a[2] { V::I(x) => x as u32, _ => 0 };
                s.nassert += 1;
                match (&a[0], &a[1]) {
                    (V::I(x), V::I(y)) => { if x != y { return fault("assert", format!("line {}: {:#x} != {:#x}", line, x, y)); } }
                    (V::S(_) | V::I(_), V::S(_) | V::I(_)) => {
                        let (x, y) = (self.term(&a[0], 64)?, self.term(&a[1], 64)?);
                        // the two sides are the same hash-consed term: nothing is left to decide; on the
                        // very long paths of the giant trees only the first ones are handed to the solver
                        if x != y || s.asserts.len() < 1000 {
                            Rc::make_mut(&mut s.asserts).push(Asrt { a: x, b: Some(y), line });
                        }
                    }
                    _ => return fault("uninit", format!("assertion at line {} compares an uninitialised value", line)),
                }
                return Ok(None);
            }
            "sym_observe" => {
                let t = match &a[0] { V::I(_) | V::S(_) => self.term(&a[0], 64)?, _ => return fault("uninit", "observed an uninitialised value") };
                Rc::make_mut(&mut s.obs).push(t);
                return Ok(None);
            }
            "sym_cover" => { if let V::I(x) = a[0] { self.covers.insert(x as u32); } return Ok(None); }
            "sym_expect_panic" => { s.expect_panic = matches!(a[0], V::I(1)); return Ok(None); }
            "sym_leak_check" => { s.leak_check = matches!(a[0], V::I(1)); return Ok(None); }
            "sym_param" => { let i = self.conc(s, &a[0], 32)? as usize; return Ok(Some(V::I(self.cfg.params.get(i).copied().unwrap_or(0) as u128))); }
            "sym_shard" => {
                if !s.shard_ok && !self.mine(s) { self.st.other_shard += 1; return Err(Stop::Kill); }
                s.shard_ok = true;
                return Ok(None);
            }
            "sym_stack_reset" => { s.sbase = s.frames.len(); s.smax = s.frames.len(); return Ok(None); }
            "sym_stack_max" => return Ok(Some(V::I((s.smax - s.sbase) as u128))),
            "sym_heap_live" => return Ok(Some(V::I(s.mem.heap_live as u128))),
            "sym_panic" => {
                if s.expect_panic { return fault("expected-panic", ""); }
                let p = self.addr(s, &a[0])?;
                let n = self.conc(s, &a[1], 64)? as usize;
                let line = match &a[2] { V::I(x) => *x, _ => 0 };
                let b = self.load_bytes(s, p, n).unwrap_or_default();
                let f: String = b.iter().map(|x| match x { B::C(c) => *c as char, _ => '?' }).collect();
                return fault("panic", format!("{}:{}", f, line));
            }
            "sym_alloc" | "sym_alloc_zeroed" => {
                let n = self.conc(s, &a[0], 64)? as u64;
                let al = self.conc(s, &a[1], 64)? as u64;
                if n > self.cfg.max_alloc { return fault("hang", format!("allocation of {} bytes", n)); }
                let p = s.mem.alloc(n, al, Kind::Heap(al));
                if name == "sym_alloc_zeroed" { let (o, off) = s.mem.find_mut(p, n).ok().unwrap(); for i in 0..n as usize { o.put(off + i, B::C(0)); } }
                return Ok(Some(V::I(p as u128)));
            }
            "sym_free" => {
                let p = self.addr(s, &a[0])?;
                let n = self.conc(s, &a[1], 64)? as u64;
                let al = self.conc(s, &a[2], 64)? as u64;
                match s.mem.heap_obj(p) { Ok((sz, a2)) => { if sz != n || al != a2 { return fault("memory", format!("deallocation with size {} align {} of a block of size {} align {}", n, al, sz, a2)); } } Err(e) => return fault("memory", e) }
                s.mem.free_id(p);
                return Ok(None);
            }
            "sym_realloc" => {
                let p = self.addr(s, &a[0])?;
                let n = self.conc(s, &a[1], 64)? as u64;
                let al = self.conc(s, &a[2], 64)? as u64;
                let nn = self.conc(s, &a[3], 64)? as u64;
                match s.mem.heap_obj(p) { Ok((sz, a2)) => { if sz != n || al != a2 { return fault("memory", "reallocation with wrong layout"); } } Err(e) => return fault("memory", e) }
                if nn > self.cfg.max_alloc { return fault("hang", format!("allocation of {} bytes", nn)); }
                let q = s.mem.alloc(nn, al, Kind::Heap(al));
                self.memcopy(s, q, p, n.min(nn))?;
                s.mem.free_id(p);
                return Ok(Some(V::I(q as u128)));
            }
            "memcpy" | "memmove" => {
                let (d, sr, n) = (self.addr(s, &a[0])?, self.addr(s, &a[1])?, self.conc(s, &a[2], 64)? as u64);
                self.memcopy(s, d, sr, n)?;
                return Ok(Some(V::I(d as u128)));
            }
            "memset" => {
                let (d, n) = (self.addr(s, &a[0])?, self.conc(s, &a[2], 64)? as u64);
                let v = self.cast(CastK::Trunc, 32, 8, &a[1])?;
                self.memset(s, d, &v, n)?;
                return Ok(Some(V::I(d as u128)));
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (self.addr(s, &a[0])?, self.addr(s, &a[1])?, self.conc(s, &a[2], 64)? as usize);
                if n == 0 { return Ok(Some(V::I(0))); }
                let (x, y) = (self.load_bytes(s, p, n)?, self.load_bytes(s, q, n)?);
                let mut r = self.tm.konst(32, 0);
                for i in (0..n).rev() {
                    let tb = |me: &mut Self, b: B| -> R<T> { match b { B::C(c) => Ok(me.tm.konst(8, c as u128)), B::S(t) => Ok(t), B::U => fault("uninit", "memcmp of uninitialised memory") } };
                    let (u, v) = (tb(self, x[i])?, tb(self, y[i])?);
                    let e = self.tm.bin(K::Eq, u, v);
                    let l = self.tm.bin(K::Ult, u, v);
                    let m1 = self.tm.konst(32, 0xffff_ffff);
                    let p1 = self.tm.konst(32, 1);
                    let df = self.tm.ite(l, m1, p1);
                    r = self.tm.ite(e, r, df);
                }
                return Ok(Some(self.wrap(r)));
            }
            "strlen" => {
                let p = self.addr(s, &a[0])?;
                let mut n = 0;
                loop { match self.load(s, p + n, &Ty::Int(8))? { V::I(0) => return Ok(Some(V::I(n as u128))), V::I(_) => n += 1, _ => return unsup("strlen of symbolic bytes") } }
            }
            "abort" | "llvm.trap" => { return fault("panic", "abort"); }
            _ => {}
        }
        if let Some(i) = name.strip_prefix("llvm.") {
            if i.starts_with("lifetime") || i.starts_with("dbg") || i.starts_with("experimental.noalias") || i.starts_with("prefetch") || i.starts_with("stackrestore") || i.starts_with("sideeffect") || i.starts_with("donothing") { return Ok(None); }
            if i.starts_with("stacksave") { return Ok(Some(V::I(0x1000))); }
            if i.starts_with("invariant.start") { return Ok(Some(V::I(0))); }
            if i.starts_with("assume") {
                match &a[0] { V::I(0) => return fault("ub", "llvm.assume of a false condition"), _ => return Ok(None) }
            }
            if i.starts_with("memcpy") || i.starts_with("memmove") {
                let nw = tys[2].bits();
                let n = self.conc(s, &a[2], nw)? as u64;
                if n == 0 { return Ok(None); }
                let (d, sr) = (self.addr(s, &a[0])?, self.addr(s, &a[1])?);
                self.memcopy(s, d, sr, n)?;
                return Ok(None);
            }
            if i.starts_with("memset") {
                let nw = tys[2].bits();
                let n = self.conc(s, &a[2], nw)? as u64;
                if n == 0 { return Ok(None); }
                let d = self.addr(s, &a[0])?;
                self.memset(s, d, &a[1], n)?;
                return Ok(None);
            }
            if i.starts_with("expect") || i.starts_with("launder") || i.starts_with("strip.invariant") || i.starts_with("ssa.copy") || i.starts_with("threadlocal.address") { return Ok(Some(a[0].clone())); }
            if i.starts_with("is.constant") { return Ok(Some(V::I(0))); }
            if i.starts_with("objectsize") { return Ok(Some(V::I(if matches!(a[1], V::I(1)) { 0 } else { mask(ret.bits()) }))); }
            if i.starts_with("trap") || i.starts_with("ubsantrap") { return fault("panic", "trap"); }
            if i.starts_with("ptrmask") { let v = self.bin(K::And, 64, &a[0], &a[1], nf)?; return Ok(Some(v)); }
            // lane-wise integer intrinsics
            if let (Some(V::A(x)), true) = (a.get(0), matches!(tys.get(0), Some(Ty::Vect(..)))) {
                if !i.starts_with("vector.") {
                    let mut o = vec![];
                    for k in 0..x.len() {
                        let la: Vec<V> = a.iter().map(|v| match v { V::A(y) => y[k].clone(), v => v.clone() }).collect();
                        let et: Vec<Ty> = tys.iter().map(|t| if t.is_agg() { t.elem(0) } else { (*t).clone() }).collect();
                        let er: Vec<&Ty> = et.iter().collect();
                        let re = ret.elem(0);
                        match self.builtin(s, name, &re, &er, &la)? { Some(v) => o.push(v), None => o.push(V::U) }
                    }
                    return Ok(Some(V::A(Rc::new(o))));
                }
                if i.starts_with("vector.reduce") {
                    let w = tys[0].elem(0).bits();
                    let mut r = x[0].clone();
                    let k = if i.contains(".add") { K::Add } else if i.contains(".and") { K::And } else if i.contains(".or") { K::Or } else if i.contains(".xor") { K::Xor } else { return unsup(name) };
                    for v in &x[1..] { r = self.bin(k, w, &r, v, nf)?; }
                    return Ok(Some(r));
                }
            }
            let w = tys.get(0).map(|t| t.bits()).unwrap_or(0);
            if i.contains(".with.overflow") {
                let op = match &i[1..4] { "add" => K::Add, "sub" => K::Sub, _ => K::Mul };
                let signed = i.starts_with('s');
                let r = self.bin(op, w, &a[0], &a[1], nf)?;
                let o = match (&a[0], &a[1]) {
                    (V::I(x), V::I(y)) => {
                        let (x, y) = (*x, *y);
                        let rr = match r { V::I(r) => r, _ => 0 };
                        V::I(if w > 64 { return unsup("i128 overflow op") } else if signed {
                            let (sx, sy) = (sext(x, w), sext(y, w));
                            let z = match op { K::Add => sx + sy, K::Sub => sx - sy, _ => sx * sy };
                            (z != sext(rr, w)) as u128
                        } else { match op { K::Add => (x + y > mask(w)) as u128, K::Sub => (x < y) as u128, _ => (x * y > mask(w)) as u128 } })
                    }
                    (V::U | V::M(_), _) | (_, V::U | V::M(_)) => V::U,
                    _ => {
                        let (x, y) = (self.term(&a[0], w)?, self.term(&a[1], w)?);
                        let w2 = if op == K::Mul { 2 * w } else { w + 1 };
                        if w2 > 128 { return unsup("wide symbolic overflow op"); }
                        let (x2, y2) = if signed { (self.tm.sext(x, w2), self.tm.sext(y, w2)) } else { (self.tm.zext(x, w2), self.tm.zext(y, w2)) };
                        let z = self.tm.bin(op, x2, y2);
                        let lo = self.tm.extract(z, 0, w);
                        let back = if signed { self.tm.sext(lo, w2) } else { self.tm.zext(lo, w2) };
                        let e = self.tm.bin(K::Eq, back, z);
                        let n = self.tm.not(e);
                        self.wrap(n)
                    }
                };
                return Ok(Some(V::A(Rc::new(vec![r, o]))));
            }
            let mm = |x: &str| i.starts_with(x);
            if mm("umax") || mm("umin") || mm("smax") || mm("smin") {
                let p = if mm("umax") { Pred::Ugt } else if mm("umin") { Pred::Ult } else if mm("smax") { Pred::Sgt } else { Pred::Slt };
                let c = self.icmp(p, w, &a[0], &a[1])?;
                let v = self.select(s, tys[0], &c, &a[0], &a[1])?;
                return Ok(Some(v));
            }
            if mm("uadd.sat") || mm("usub.sat") {
                let op = if mm("uadd") { K::Add } else { K::Sub };
                let r = self.bin(op, w, &a[0], &a[1], nf)?;
                let c = if mm("uadd") { self.icmp(Pred::Ult, w, &r, &a[0])? } else { self.icmp(Pred::Ult, w, &a[0], &a[1])? };
                let sat = V::I(if mm("uadd") { mask(w) } else { 0 });
                let v = self.select(s, tys[0], &c, &sat, &r)?;
                return Ok(Some(v));
            }
            if mm("sadd.sat") || mm("ssub.sat") {
                let op = if mm("sadd") { K::Add } else { K::Sub };
                let r = self.bin(op, w, &a[0], &a[1], nf)?;
                // overflow: the second operand's sign does not agree with the direction moved
                let down = self.icmp(Pred::Slt, w, &r, &a[0])?;
                let neg = self.icmp(if op == K::Add { Pred::Slt } else { Pred::Sgt }, w, &a[1], &V::I(0))?;
                let o = self.bin(K::Xor, 1, &down, &neg, nf)?;
                let below = self.icmp(Pred::Slt, w, &a[0], &V::I(0))?;
                let sat = self.select(s, tys[0], &below, &V::I(1u128 << (w - 1)), &V::I(mask(w) >> 1))?;
                let v = self.select(s, tys[0], &o, &sat, &r)?;
                return Ok(Some(v));
            }
            if mm("ucmp") || mm("scmp") {
                let (lt, gt) = if mm("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let rw = ret.bits();
                let l = self.icmp(lt, w, &a[0], &a[1])?;
                let g = self.icmp(gt, w, &a[0], &a[1])?;
                let x = self.select(s, ret, &g, &V::I(1), &V::I(0))?;
                let v = self.select(s, ret, &l, &V::I(mask(rw)), &x)?;
                return Ok(Some(v));
            }
            if mm("abs") {
                let n = self.bin(K::Sub, w, &V::I(0), &a[0], nf)?;
                let c = self.icmp(Pred::Slt, w, &a[0], &V::I(0))?;
                let v = self.select(s, tys[0], &c, &n, &a[0])?;
                return Ok(Some(v));
            }
            if mm("fshl") || mm("fshr") {
                let k = self.conc(s, &a[2], w)? % w as u128;
                let l = mm("fshl");
                let sl = if l { k } else { w as u128 - k };
                if k == 0 { return Ok(Some(if l { a[0].clone() } else { a[1].clone() })); }
                let x = self.bin(K::Shl, w, &a[0], &V::I(sl), nf)?;
                let y = self.bin(K::LShr, w, &a[1], &V::I(w as u128 - sl), nf)?;
                let v = self.bin(K::Or, w, &x, &y, nf)?;
                return Ok(Some(v));
            }
            if mm("ctpop") || mm("ctlz") || mm("cttz") || mm("bswap") || mm("bitreverse") {
                if let V::U | V::M(_) = a[0] { return Ok(Some(V::U)); }
                if mm("bswap") {
                    let n = (w / 8) as usize;
                    let mut b = self.to_bytes(&a[0].clone(), n, w);
                    b.reverse();
                    return Ok(Some(self.from_bytes(&b, w)));
                }
                if !matches!(a[0], V::I(_)) && w <= 64 {
                    let bit = |me: &mut Self, k: u32| -> R<V> { let x = me.bin(K::LShr, w, &a[0], &V::I(k as u128), nf)?; me.bin(K::And, w, &x, &V::I(1), nf) };
                    let mut r = V::I(if mm("ctpop") || mm("bitreverse") { 0 } else { w as u128 });
                    for j in 0..w as u32 {
                        if mm("ctpop") { let b = bit(self, j)?; r = self.bin(K::Add, w, &r, &b, nf)?; }
                        else if mm("bitreverse") { let b = bit(self, j)?; let b = self.bin(K::Shl, w, &b, &V::I((w as u32 - 1 - j) as u128), nf)?; r = self.bin(K::Or, w, &r, &b, nf)?; }
                        else {
                            // from the far end to the near one, so that the nearest set bit decides
                            let (k, n) = if mm("ctlz") { (j, w as u32 - 1 - j) } else { (w as u32 - 1 - j, w as u32 - 1 - j) };
                            let b = bit(self, k)?;
                            let c = self.icmp(Pred::Ne, w, &b, &V::I(0))?;
                            r = self.select(s, tys[0], &c, &V::I(n as u128), &r)?;
                        }
                    }
                    return Ok(Some(r));
                }
                let x = self.conc(s, &a[0], w)?;
                let v = if mm("ctpop") { x.count_ones() as u128 } else if mm("ctlz") { (x << (128 - w)).leading_zeros().min(w) as u128 } else if mm("cttz") { x.trailing_zeros().min(w) as u128 } else { x.reverse_bits() >> (128 - w) };
                return Ok(Some(V::I(v)));
            }
        }
        unsup(format!("external function {}", name))
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let b = self.to_bytes(v, 1, 8)[0];
        match s.mem.find_mut(d, n) { Ok((o, off)) => { for i in 0..n as usize { o.put(off + i, b); } Ok(()) } Err(e) => fault("memory", e) }
    }
}

fn insert(ty: &Ty, a: V, v: V, idx: &[u32]) -> V {
    if idx.is_empty() { return v; }
    let mut x = match a { V::A(x) => (*x).clone(), _ => vec![V::U; ty.count()] };
    let i = idx[0] as usize;
    if i >= x.len() { return V::A(Rc::new(x)); }
    let e = ty.elem(i);
    x[i] = insert(&e, std::mem::replace(&mut x[i], V::U), v, &idx[1..]);
    V::A(Rc::new(x))
}
