//! Minimal FFI to libz3 and an incremental solver wrapper.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}

extern "C" fn on_err(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(2);
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Solver {
    c: P,
    s: P,
    asts: Vec<P>, // bit-vector form, null = not built
    vars: Vec<(T, u32)>,
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, asts: vec![], vars: vec![], stack: vec![], queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0 }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    fn bv(&mut self, tm: &Terms, t: T) -> P {
        if (t as usize) < self.asts.len() && !self.asts[t as usize].is_null() { return self.asts[t as usize]; }
        let n = tm.nodes[t as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Var => {
                    let r = Z3_mk_const(c, Z3_mk_int_symbol(c, (n.a * 256 + n.w) as c_int), Z3_mk_bv_sort(c, n.w));
                    self.vars.push((t, n.a));
                    r
                }
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, n.w);
                    if n.k <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, n.k as u64, s) } else {
                        let st = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, st.as_ptr(), s)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(tm, t);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Ite => {
                    let b = self.boolean(tm, n.a);
                    let x = self.bv(tm, n.b);
                    let y = self.bv(tm, n.c);
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Concat => { let x = self.bv(tm, n.a); let y = self.bv(tm, n.b); Z3_mk_concat(c, x, y) }
                Op::Extract => { let x = self.bv(tm, n.a); Z3_mk_extract(c, n.b + n.w - 1, n.b, x) }
                Op::ZExt => { let x = self.bv(tm, n.a); Z3_mk_zero_ext(c, n.w - tm.w(n.a), x) }
                Op::SExt => { let x = self.bv(tm, n.a); Z3_mk_sign_ext(c, n.w - tm.w(n.a), x) }
                _ => {
                    let x = self.bv(tm, n.a);
                    let y = self.bv(tm, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        if self.asts.len() <= t as usize { self.asts.resize(tm.nodes.len().max(t as usize + 1), std::ptr::null_mut()); }
        self.asts[t as usize] = r;
        r
    }
    fn boolean(&mut self, tm: &Terms, t: T) -> P {
        let n = tm.nodes[t as usize];
        let c = self.c;
        unsafe {
            match n.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let x = self.bv(tm, n.a);
                    let y = self.bv(tm, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Xor if tm.as_const(n.b) == Some(1) && n.w == 1 => { let x = self.boolean(tm, n.a); Z3_mk_not(c, x) }
                _ => {
                    let x = self.bv(tm, t);
                    Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                }
            }
        }
    }
    fn sync(&mut self, tm: &Terms, pc: &[T]) {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] { k += 1; }
        let n = self.stack.len() - k;
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n as c_uint) };
            self.stack.truncate(k);
        }
        for &t in &pc[k..] {
            let a = self.boolean(tm, t);
            unsafe {
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            self.stack.push(t);
        }
    }
    /// pc /\ (or of goals). Terms in `neq` are asserted as a disequality disjunct without prior simplification.
    pub fn check(&mut self, tm: &Terms, pc: &[T], goals: &[T], neq: &[(T, T)], nvars: usize, dump: Option<&mut Option<String>>) -> (Res, Option<Vec<u64>>) {
        let t0 = Instant::now();
        self.sync(tm, pc);
        let mut ds: Vec<P> = vec![];
        for &g in goals { let b = self.boolean(tm, g); ds.push(b); }
        for &(a, b) in neq {
            let x = self.bv(tm, a);
            let y = self.bv(tm, b);
            ds.push(unsafe { Z3_mk_not(self.c, Z3_mk_eq(self.c, x, y)) });
        }
        let r;
        let mut model = None;
        unsafe {
            Z3_solver_push(self.c, self.s);
            if !goals.is_empty() || !neq.is_empty() {
                let d = Z3_mk_or(self.c, ds.len() as c_uint, ds.as_ptr());
                Z3_solver_assert(self.c, self.s, d);
            }
            if let Some(d) = dump {
                *d = Some(CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned());
            }
            r = match Z3_solver_check(self.c, self.s) { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            if r == Res::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![0u64; nvars];
                for &(t, i) in &self.vars {
                    if (i as usize) < nvars {
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, self.asts[t as usize], true, &mut v) && Z3_get_numeral_uint64(self.c, v, &mut u) && u != 0 {
                            out[i as usize] = u;
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                model = Some(out);
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match r { Res::Sat => self.sat += 1, Res::Unsat => self.unsat += 1, _ => {} }
        (r, model)
    }
}
