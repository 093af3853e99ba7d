//! Minimal FFI to libz3 and translation of the expression DAG.
use crate::expr::{Ctx, B, E, N};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
}

pub struct Z3 {
    c: P,
    s: P,
    memo: HashMap<E, P>,
    bmemo: HashMap<E, P>,
    syms: HashMap<u32, P>,
    pub queries: u64,
    pub time: f64,
    pub sat: u64,
    pub unsat: u64,
    pub dump: Option<std::path::PathBuf>,
    pub dumped: u64,
}

pub enum R {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, memo: HashMap::new(), bmemo: HashMap::new(), syms: HashMap::new(), queries: 0, time: 0.0, sat: 0, unsat: 0, dump: None, dumped: 0 }
        }
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w))
    }
    unsafe fn symbol(&mut self, i: u32) -> P {
        if let Some(p) = self.syms.get(&i) {
            return *p;
        }
        let p = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), Z3_mk_bv_sort(self.c, 8));
        self.syms.insert(i, p);
        p
    }
    unsafe fn mux(&mut self, vals: &[u128], idx: P, bit: i32, w: u32) -> P {
        if vals.iter().all(|x| *x == vals[0]) {
            return self.num(vals[0], w);
        }
        let h = vals.len() / 2;
        let lo = self.mux(&vals[..h], idx, bit - 1, w);
        let hi = self.mux(&vals[h..], idx, bit - 1, w);
        let b = Z3_mk_extract(self.c, bit as u32, bit as u32, idx);
        let one = self.num(1, 1);
        Z3_mk_ite(self.c, Z3_mk_eq(self.c, b, one), hi, lo)
    }
    unsafe fn bo(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.bmemo.get(&e) {
            return *p;
        }
        let c = self.c;
        let r = match x.n(e) {
            N::C(v) => {
                if v == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            N::Eq(a, b) => {
                let (p, q) = (self.bv(x, a), self.bv(x, b));
                Z3_mk_eq(c, p, q)
            }
            N::Ult(a, b) => {
                let (p, q) = (self.bv(x, a), self.bv(x, b));
                Z3_mk_bvult(c, p, q)
            }
            N::Ule(a, b) => {
                let (p, q) = (self.bv(x, a), self.bv(x, b));
                Z3_mk_bvule(c, p, q)
            }
            N::Slt(a, b) => {
                let (p, q) = (self.bv(x, a), self.bv(x, b));
                Z3_mk_bvslt(c, p, q)
            }
            N::Sle(a, b) => {
                let (p, q) = (self.bv(x, a), self.bv(x, b));
                Z3_mk_bvsle(c, p, q)
            }
            N::Bin(B::And, a, b) => {
                let v = [self.bo(x, a), self.bo(x, b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            N::Bin(B::Or, a, b) => {
                let v = [self.bo(x, a), self.bo(x, b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            N::Bin(B::Xor, a, b) => {
                if x.cst(b) == Some(1) {
                    let p = self.bo(x, a);
                    Z3_mk_not(c, p)
                } else {
                    let (p, q) = (self.bo(x, a), self.bo(x, b));
                    Z3_mk_xor(c, p, q)
                }
            }
            N::Ite(k, a, b) => {
                let k = self.bo(x, k);
                let (p, q) = (self.bo(x, a), self.bo(x, b));
                Z3_mk_ite(c, k, p, q)
            }
            _ => {
                let p = self.bv(x, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, p, one)
            }
        };
        self.bmemo.insert(e, r);
        r
    }
    unsafe fn bv(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let c = self.c;
        let w = x.w(e);
        let is_bool = w == 1 && matches!(x.n(e), N::Eq(..) | N::Ult(..) | N::Ule(..) | N::Slt(..) | N::Sle(..) | N::Bin(B::And | B::Or | B::Xor, ..));
        let r = if is_bool {
            let b = self.bo(x, e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            Z3_mk_ite(c, b, o, z)
        } else {
            match x.n(e) {
                N::C(v) => self.num(v, w),
                N::Sym(i) => self.symbol(i),
                N::Bin(op, a, b) => {
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    match op {
                        B::Add => Z3_mk_bvadd(c, p, q),
                        B::Sub => Z3_mk_bvsub(c, p, q),
                        B::Mul => Z3_mk_bvmul(c, p, q),
                        B::UDiv => Z3_mk_bvudiv(c, p, q),
                        B::SDiv => Z3_mk_bvsdiv(c, p, q),
                        B::URem => Z3_mk_bvurem(c, p, q),
                        B::SRem => Z3_mk_bvsrem(c, p, q),
                        B::Shl => Z3_mk_bvshl(c, p, q),
                        B::LShr => Z3_mk_bvlshr(c, p, q),
                        B::AShr => Z3_mk_bvashr(c, p, q),
                        B::And => Z3_mk_bvand(c, p, q),
                        B::Or => Z3_mk_bvor(c, p, q),
                        B::Xor => Z3_mk_bvxor(c, p, q),
                    }
                }
                N::Ite(k, a, b) => {
                    let k = self.bo(x, k);
                    let (p, q) = (self.bv(x, a), self.bv(x, b));
                    Z3_mk_ite(c, k, p, q)
                }
                N::Concat(h, l) => {
                    let (p, q) = (self.bv(x, h), self.bv(x, l));
                    Z3_mk_concat(c, p, q)
                }
                N::Extract(a, lo) => {
                    let p = self.bv(x, a);
                    Z3_mk_extract(c, lo + w - 1, lo, p)
                }
                N::ZExt(a) => {
                    let p = self.bv(x, a);
                    Z3_mk_zero_ext(c, w - x.w(a), p)
                }
                N::SExt(a) => {
                    let p = self.bv(x, a);
                    Z3_mk_sign_ext(c, w - x.w(a), p)
                }
                N::Table(t, i) => {
                    let p = self.bv(x, i);
                    let v = x.tables[t as usize].clone();
                    self.mux(&v, p, 7, w)
                }
                _ => unreachable!(),
            }
        };
        self.memo.insert(e, r);
        r
    }
    pub fn check(&mut self, x: &Ctx, cs: &[E], sup: u128, keep: bool) -> R {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_reset(self.c, self.s);
            for e in cs {
                let p = self.bo(x, *e);
                Z3_solver_assert(self.c, self.s, p);
            }
            let r = Z3_solver_check(self.c, self.s);
            let err = Z3_get_error_code(self.c);
            let out = if err != 0 || r == 0 {
                R::Unknown
            } else if r < 0 {
                self.unsat += 1;
                R::Unsat
            } else {
                self.sat += 1;
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut v = vec![];
                for i in 0..128u32 {
                    if (sup >> i) & 1 == 1 {
                        let p = self.symbol(i);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, p, true, &mut o) {
                            let mut n = 0u64;
                            if Z3_get_numeral_uint64(self.c, o, &mut n) {
                                v.push((i, n as u8));
                            }
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                R::Sat(v)
            };
            if keep {
                if let (Some(d), false) = (&self.dump, matches!(out, R::Unknown)) {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().to_string();
                    let ans = if matches!(out, R::Unsat) { "unsat" } else { "sat" };
                    let f = d.join(format!("q{:05}_{}.smt2", self.dumped, ans));
                    let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                    self.dumped += 1;
                }
            }
            self.time += t0.elapsed().as_secs_f64();
            out
        }
    }
}
