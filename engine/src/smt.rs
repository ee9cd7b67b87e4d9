//! Z3 back end through its C API (declared by hand; libz3 is a system library).
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}
use std::sync::atomic::{AtomicU32, Ordering};
static ERR: AtomicU32 = AtomicU32::new(0);
extern "C" fn on_err(c: P, e: c_int) {
    ERR.fetch_add(1, Ordering::SeqCst);
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("z3 error {}: {:?}", e, CStr::from_ptr(m));
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Model {
    pub vals: Vec<u64>,
    pub memo: std::cell::RefCell<HashMap<T, u128, Bh>>,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    /// boolean (Bool sort) version for width-1 terms
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub max_q: f64,
    pub dump: Option<String>,
    pub dumped: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let logic = std::env::var("SYMIR_LOGIC").unwrap_or("QF_FD".into());
            let lg = CString::new(logic).unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, lg.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                ast: vec![],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                max_q: 0.0,
                dump: std::env::var("SYMIR_DUMP").ok(),
                dumped: 0,
            }
        }
    }
    /// width-1 terms become Bool, others bit-vectors
    fn tr(&mut self, ts: &Terms, root: T) -> P {
        if (root as usize) < self.ast.len() && !self.ast[root as usize].is_null() {
            return self.ast[root as usize];
        }
        if self.ast.len() < ts.nodes.len() {
            self.ast.resize(ts.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![root];
        while let Some(&t) = st.last() {
            if !self.ast[t as usize].is_null() {
                st.pop();
                continue;
            }
            let n = ts.n(t);
            let kids: &[T] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ok = true;
            for &k in kids {
                if self.ast[k as usize].is_null() {
                    st.push(k);
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            let a = unsafe { self.mk(ts, t, n) };
            unsafe { Z3_inc_ref(self.c, a) };
            self.ast[t as usize] = a;
            st.pop();
        }
        self.ast[root as usize]
    }
    unsafe fn bv(&self, ts: &Terms, t: T) -> P {
        let a = self.ast[t as usize];
        if ts.w(t) == 1 {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s);
            Z3_mk_ite(self.c, a, one, zero)
        } else {
            a
        }
    }
    unsafe fn tobool(&self, w: u32, a: P) -> P {
        if w == 1 {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            Z3_mk_eq(self.c, a, one)
        } else {
            a
        }
    }
    unsafe fn mk(&mut self, ts: &Terms, _t: T, n: Node) -> P {
        let c = self.c;
        let w1 = n.w == 1;
        let a = |x: T| self.ast[x as usize];
        match n.op {
            Op::Const => {
                if w1 {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else if n.w <= 64 {
                    Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, n.w))
                } else {
                    let s = CString::new(n.k.to_string()).unwrap();
                    Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, n.w))
                }
            }
            Op::Var => {
                let s = CString::new(format!("x{}", n.k)).unwrap();
                let v = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w));
                self.tobool(n.w, v)
            }
            Op::Not => {
                if w1 {
                    Z3_mk_not(c, a(n.a))
                } else {
                    Z3_mk_bvnot(c, a(n.a))
                }
            }
            Op::And | Op::Or | Op::Xor if w1 => {
                let v = [a(n.a), a(n.b)];
                match n.op {
                    Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                    _ => Z3_mk_xor(c, v[0], v[1]),
                }
            }
            Op::Eq => Z3_mk_eq(c, a(n.a), a(n.b)),
            Op::Ite => Z3_mk_ite(c, a(n.a), a(n.b), a(n.c)),
            Op::Ult => Z3_mk_bvult(c, self.bv(ts, n.a), self.bv(ts, n.b)),
            Op::Slt => Z3_mk_bvslt(c, self.bv(ts, n.a), self.bv(ts, n.b)),
            Op::Concat => Z3_mk_concat(c, self.bv(ts, n.a), self.bv(ts, n.b)),
            Op::Extract => {
                let e = Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, self.bv(ts, n.a));
                self.tobool(n.w, e)
            }
            Op::ZExt => Z3_mk_zero_ext(c, n.w - ts.w(n.a), self.bv(ts, n.a)),
            Op::SExt => Z3_mk_sign_ext(c, n.w - ts.w(n.a), self.bv(ts, n.a)),
            op => {
                let (x, y) = (self.bv(ts, n.a), self.bv(ts, n.b));
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, x, y),
                    Op::Sub => Z3_mk_bvsub(c, x, y),
                    Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y),
                    Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                    Op::URem => Z3_mk_bvurem(c, x, y),
                    Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y),
                    Op::LShr => Z3_mk_bvlshr(c, x, y),
                    Op::AShr => Z3_mk_bvashr(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y),
                    Op::Or => Z3_mk_bvor(c, x, y),
                    Op::Xor => Z3_mk_bvxor(c, x, y),
                    _ => unreachable!(),
                };
                self.tobool(n.w, r)
            }
        }
    }
    /// check satisfiability of pc /\ extra; returns a model if sat
    pub fn check(&mut self, ts: &Terms, pc: &[T], extra: T) -> (Sat, Option<Model>) {
        let t0 = Instant::now();
        // sync the assertion stack with pc
        let mut k = 0;
        while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] {
            k += 1;
        }
        unsafe {
            if k < self.stack.len() {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for &t in &pc[k..] {
                let a = self.tr(ts, t);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(t);
            }
            let a = self.tr(ts, extra);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, a);
            if let Some(d) = &self.dump {
                let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.dumped), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                self.dumped += 1;
            }
            let e0 = ERR.load(Ordering::SeqCst);
            let r = Z3_solver_check(self.c, self.s);
            let mut model = None;
            if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut vals = vec![];
                for i in 0..ts.vars.len() {
                    let (t, w) = ts.vars[i];
                    let mut u = 0u64;
                    if t != u32::MAX {
                        let a = self.tr(ts, t);
                        let mut out: P = std::ptr::null_mut();
                        let a2 = if w == 1 { self.bv(ts, t) } else { a };
                        if Z3_model_eval(self.c, m, a2, true, &mut out) {
                            Z3_inc_ref(self.c, out);
                            Z3_get_numeral_uint64(self.c, out, &mut u);
                        }
                    }
                    vals.push(u);
                }
                Z3_model_dec_ref(self.c, m);
                model = Some(Model { vals, memo: Default::default() });
            }
            Z3_solver_pop(self.c, self.s, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.queries += 1;
            self.time += dt;
            if dt > self.max_q {
                self.max_q = dt;
            }
            if ERR.load(Ordering::SeqCst) != e0 {
                return (Sat::Unknown, None);
            }
            match r {
                1 => {
                    self.sat += 1;
                    (Sat::Sat, model)
                }
                -1 => {
                    self.unsat += 1;
                    (Sat::Unsat, None)
                }
                _ => (Sat::Unknown, None),
            }
        }
    }
}
