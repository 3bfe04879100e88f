//! Thin binding to libz3 and translation of terms.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P; fn Z3_mk_context(c: P) -> P; fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P); 
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P; fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P; fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_not(c: P, a: P) -> P; fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P; fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P; fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P; fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P; fn Z3_mk_solver(c: P) -> P; fn Z3_mk_simple_solver(c: P) -> P; fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_reset(c: P, s: P); fn Z3_solver_assert(c: P, s: P, a: P); fn Z3_solver_check(c: P, s: P) -> c_int; fn Z3_solver_get_model(c: P, s: P) -> P; fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_get_bool_value(c: P, a: P) -> c_int; fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool; fn Z3_get_numeral_decimal_string(c: P, a: P, n: c_uint) -> *const std::os::raw::c_char; fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int; fn Z3_mk_bool_sort(c: P) -> P; fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint); fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_int_sort(c: P) -> P; fn Z3_mk_real_sort(c: P) -> P; fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P; fn Z3_mk_ge(c: P, a: P, b: P) -> P; fn Z3_mk_gt(c: P, a: P, b: P) -> P; fn Z3_mk_int2real(c: P, a: P) -> P; fn Z3_mk_fresh_const(c: P, p: *const c_char, s: P) -> P; fn Z3_mk_true(c: P) -> P; fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P; fn Z3_mk_fpa_rtz(c: P) -> P; fn Z3_mk_fpa_rtp(c: P) -> P; fn Z3_mk_fpa_rtn(c: P) -> P; fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P; fn Z3_mk_fpa_sort_32(c: P) -> P; fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P; fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P; fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P; fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("ENGINE-ERROR: z3 error code {}", e); std::process::exit(3); }

pub struct Z3 { c: P, s_ar: P, pub mid: u64, pub ar_unsat: u64, pub ar_sat: u64, pub ar_spurious: u64, s_inc: P, lits: std::collections::HashMap<(u32, Dom), P>, nlit: u32, s_bv: P, s_fp: P, bv: Vec<P>, bo: Vec<P>, fp: Vec<P>, has_fp: Vec<u8>, has_mul: Vec<u8>, pub queries: u64, pub time: f64, pub unknown: u64, pub sat: u64, pub unsat: u64, pub rlimit: u32, vars: Vec<P> }
#[derive(Debug, Clone, PartialEq)]
pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown(String) }

impl Z3 {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    pub fn new(rlimit: u32) -> Z3 { unsafe {
        let cfg = Z3_mk_config(); let c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, Some(on_err));
        let l = CString::new("QF_BV").unwrap(); let s_bv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())); Z3_solver_inc_ref(c, s_bv);
        let l = CString::new("QF_FPBV").unwrap(); let s_fp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())); Z3_solver_inc_ref(c, s_fp);
        let _ = Z3_mk_solver; let s_inc = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s_inc); { let p = Z3_mk_params(c); Z3_params_inc_ref(c, p); let k = CString::new("rlimit").unwrap(); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 3_000_000); Z3_solver_set_params(c, s_inc, p); }
        for s in [s_bv, s_fp] { let p = Z3_mk_params(c); Z3_params_inc_ref(c, p); let k = CString::new("rlimit").unwrap(); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit); Z3_solver_set_params(c, s, p); }
        let l = CString::new("QF_LIRA").unwrap(); let s_ar = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())); Z3_solver_inc_ref(c, s_ar);
        for (s, rl) in [(s_ar, 20_000_000u32)] { let p = Z3_mk_params(c); Z3_params_inc_ref(c, p); let k = CString::new("rlimit").unwrap(); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rl); Z3_solver_set_params(c, s, p); }
        Z3 { c, s_ar, mid: 0, ar_unsat: 0, ar_sat: 0, ar_spurious: 0, s_inc, lits: Default::default(), nlit: 0, s_bv, s_fp, bv: vec![], bo: vec![], fp: vec![], has_fp: vec![], has_mul: vec![], queries: 0, time: 0.0, unknown: 0, sat: 0, unsat: 0, rlimit, vars: vec![] }
    } }
    fn hold(&self, a: P) -> P { a }
    fn grow(&mut self, n: usize) { while self.bv.len() < n { self.bv.push(std::ptr::null_mut()); self.bo.push(std::ptr::null_mut()); self.fp.push(std::ptr::null_mut()); self.has_fp.push(0); self.has_mul.push(0); } }
    fn sort(&self, w: u32) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) } } }
    fn num(&self, v: u128, w: u32) -> P { unsafe { let s = Z3_mk_bv_sort(self.c, w); if v >> 64 == 0 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) } } }
    fn isfp(&mut self, x: &Exprs, e: E) -> bool { let i = e as usize; if self.has_fp[i] != 0 { return self.has_fp[i] == 2; } let n = x.n[i]; let r = match n.op { Op::Const | Op::Var => false, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint => true, Op::Ite => self.isfp(x, n.a) || self.isfp(x, n.b) || self.isfp(x, n.c), Op::Extract | Op::ZExt | Op::SExt => self.isfp(x, n.a), _ => self.isfp(x, n.a) || self.isfp(x, n.b) }; self.has_fp[i] = if r { 2 } else { 1 }; r }
    /// nested multiplications or divisions: digit runs, hard for bit blasting, easy for linear arithmetic
    fn muls(&mut self, x: &Exprs, e: E) -> u8 { let i = e as usize; if self.has_mul[i] != 0 { return self.has_mul[i] - 1; } let n = x.n[i]; let own = matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) as u8; let r = match n.op { Op::Const | Op::Var => 0, Op::Ite => self.muls(x, n.a).max(self.muls(x, n.b)).max(self.muls(x, n.c)), Op::Extract | Op::ZExt | Op::SExt => self.muls(x, n.a), _ => { let a = self.muls(x, n.a); a.max(if n.b as usize == i { 0 } else { self.muls(x, n.b) }) } }; let r = (r + own).min(200); self.has_mul[i] = r + 1; r }
    fn var(&mut self, i: u32) -> P { while self.vars.len() <= i as usize { let n = self.vars.len(); let s = CString::new(format!("b{}", n)).unwrap(); let v = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_bv_sort(self.c, 8)) }; let v = self.hold(v); self.vars.push(v); } self.vars[i as usize] }
    fn to_bool(&mut self, x: &Exprs, e: E) -> P { unsafe {
        let i = e as usize; if !self.bo[i].is_null() { return self.bo[i]; }
        let n = x.n[i]; let c = self.c;
        let r = match n.op {
            Op::Const => { let one = self.num(1, 1); let v = self.num((n.k & 1) as u128, 1); Z3_mk_eq(c, v, one) }
            Op::Eq => if x.w(n.a) == 1 { let (a, b) = (self.to_bool(x, n.a), self.to_bool(x, n.b)); Z3_mk_eq(c, a, b) } else { let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b)); Z3_mk_eq(c, a, b) },
            Op::Ult => { let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b)); Z3_mk_bvult(c, a, b) }
            Op::Ule => { let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b)); Z3_mk_bvule(c, a, b) }
            Op::Slt => { let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b)); Z3_mk_bvslt(c, a, b) }
            Op::Sle => { let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b)); Z3_mk_bvsle(c, a, b) }
            Op::FEq => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_eq(c, a, b) }
            Op::FLt => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_lt(c, a, b) }
            Op::FLe => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_leq(c, a, b) }
            Op::And => { let v = [self.to_bool(x, n.a), self.to_bool(x, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.to_bool(x, n.a), self.to_bool(x, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Xor => { if x.is_const(n.b) == Some(1) { let a = self.to_bool(x, n.a); Z3_mk_not(c, a) } else { let (a, b) = (self.to_bool(x, n.a), self.to_bool(x, n.b)); Z3_mk_xor(c, a, b) } }
            Op::Ite => { let (a, b, d) = (self.to_bool(x, n.a), self.to_bool(x, n.b), self.to_bool(x, n.c)); Z3_mk_ite(c, a, b, d) }
            _ => { let b = self.to_bv(x, e); let one = self.num(1, 1); Z3_mk_eq(c, b, one) }
        };
        let r = self.hold(r); self.bo[i] = r; r
    } }
    fn to_fp(&mut self, x: &Exprs, e: E) -> P { unsafe {
        let i = e as usize; if !self.fp[i].is_null() { return self.fp[i]; }
        let n = x.n[i]; let c = self.c; let w = n.w as u32; let rne = Z3_mk_fpa_rne(c); let s = self.sort(w);
        let r = match n.op {
            Op::FAdd => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_add(c, rne, a, b) }
            Op::FSub => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_sub(c, rne, a, b) }
            Op::FMul => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_mul(c, rne, a, b) }
            Op::FDiv => { let (a, b) = (self.to_fp(x, n.a), self.to_fp(x, n.b)); Z3_mk_fpa_div(c, rne, a, b) }
            Op::FSqrt => { let a = self.to_fp(x, n.a); Z3_mk_fpa_sqrt(c, rne, a) }
            Op::FFloor => { let a = self.to_fp(x, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), a) }
            Op::FCeil => { let a = self.to_fp(x, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), a) }
            Op::FTrunc => { let a = self.to_fp(x, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a) }
            Op::FRound => { let a = self.to_fp(x, n.a); Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), a) }
            Op::FRint => { let a = self.to_fp(x, n.a); Z3_mk_fpa_round_to_integral(c, rne, a) }
            Op::SiToFp => { let a = self.to_bv(x, n.a); Z3_mk_fpa_to_fp_signed(c, rne, a, s) }
            Op::UiToFp => { let a = self.to_bv(x, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, a, s) }
            Op::FpExt | Op::FpTrunc => { let a = self.to_fp(x, n.a); Z3_mk_fpa_to_fp_float(c, rne, a, s) }
            Op::Ite => { let (a, b, d) = (self.to_bool(x, n.a), self.to_fp(x, n.b), self.to_fp(x, n.c)); Z3_mk_ite(c, a, b, d) }
            _ => { let b = self.to_bv(x, e); Z3_mk_fpa_to_fp_bv(c, b, s) }
        };
        let r = self.hold(r); self.fp[i] = r; r
    } }
    fn to_bv(&mut self, x: &Exprs, e: E) -> P { unsafe {
        let i = e as usize; if !self.bv[i].is_null() { return self.bv[i]; }
        let n = x.n[i]; let c = self.c; let w = n.w as u32;
        macro_rules! b2 { ($f:ident) => {{ let (a, b) = (self.to_bv(x, n.a), self.to_bv(x, n.b)); $f(c, a, b) }} }
        let r = match n.op {
            Op::Const => self.num(x.is_const(e).unwrap(), w), Op::Var => self.var(n.k as u32),
            _ if w == 1 && !matches!(n.op, Op::Extract) => { let b = self.to_bool_noloop(x, e, n); match b { Some(b) => { let (o, z) = (self.num(1, 1), self.num(0, 1)); Z3_mk_ite(c, b, o, z) } None => b2!(Z3_mk_bvadd) } }
            Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul), Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
            Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor), Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
            Op::Concat => b2!(Z3_mk_concat), Op::Extract => { let a = self.to_bv(x, n.a); Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a) }
            Op::ZExt => { let a = self.to_bv(x, n.a); Z3_mk_zero_ext(c, w - x.w(n.a), a) } Op::SExt => { let a = self.to_bv(x, n.a); Z3_mk_sign_ext(c, w - x.w(n.a), a) }
            Op::Ite => { let (a, b, d) = (self.to_bool(x, n.a), self.to_bv(x, n.b), self.to_bv(x, n.c)); Z3_mk_ite(c, a, b, d) }
            Op::FpToSi => { let a = self.to_fp(x, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w) } Op::FpToUi => { let a = self.to_fp(x, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w) }
            _ => { let a = self.to_fp(x, e); Z3_mk_fpa_to_ieee_bv(c, a) }
        };
        let r = self.hold(r); self.bv[i] = r; r
    } }
    fn to_bool_noloop(&mut self, x: &Exprs, e: E, n: Node) -> Option<P> { match n.op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::And | Op::Or | Op::Xor | Op::Ite => Some(self.to_bool(x, e)), Op::Add | Op::Sub => None, o => { eprintln!("ENGINE-ERROR: 1-bit {:?}", o); std::process::exit(3) } } }
    fn dom_term(&mut self, v: u32, d: &Dom) -> P { unsafe { let c = self.c; let vv = self.var(v); let mut ors = vec![]; let mut i = 0i32; while i < 256 { if dom_has(d, i as u8) { let st = i; while i < 256 && dom_has(d, i as u8) { i += 1; } let (lo, hi) = (self.num(st as u128, 8), self.num((i - 1) as u128, 8)); ors.push(if st == i - 1 { Z3_mk_eq(c, vv, lo) } else if st == 0 { Z3_mk_bvule(c, vv, hi) } else if i == 256 { Z3_mk_bvule(c, lo, vv) } else { let q = [Z3_mk_bvule(c, lo, vv), Z3_mk_bvule(c, vv, hi)]; Z3_mk_and(c, 2, q.as_ptr()) }); } else { i += 1; } }
        if ors.len() == 1 { ors[0] } else { Z3_mk_or(c, ors.len() as u32, ors.as_ptr()) } } }
    fn lit(&mut self, t: P, key: (u32, Dom)) -> P { unsafe { if let Some(&l) = self.lits.get(&key) { return l; } let c = self.c; let n = CString::new(format!("p{}", self.nlit)).unwrap(); self.nlit += 1; let l = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bool_sort(c)); let im = Z3_mk_implies(c, l, t); Z3_solver_assert(c, self.s_inc, im); self.lits.insert(key, l); l } }
    fn take(&mut self, s: P, r: c_int, vars: &[u32]) -> Res { unsafe { let c = self.c; match r { 1 => { self.sat += 1; let m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m); let mut out = vec![]; for &v in vars { let vv = self.var(v); let mut o: P = std::ptr::null_mut(); let mut u = 0u64; if Z3_model_eval(c, m, vv, true, &mut o) { Z3_inc_ref(c, o); Z3_get_numeral_uint64(c, o, &mut u); } out.push((v, u as u8)); } Z3_model_dec_ref(c, m); Res::Sat(out) }
            -1 => { self.unsat += 1; Res::Unsat } _ => { self.unknown += 1; Res::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().into_owned()) } } } }
    /// conj of 1-bit terms plus byte domains for the variables in `vars`
    pub fn check(&mut self, x: &mut Exprs, conj: &[E], doms: &[(u32, Dom)], vars: &[u32], base: &[u8]) -> Res { unsafe {
        self.grow(x.n.len()); let t0 = Instant::now(); let c = self.c; self.queries += 1;
        let mut fp = false; for &e in conj { if self.isfp(x, e) { fp = true; } }
        let heavy = fp || conj.iter().any(|&e| self.muls(x, e) >= 3);
        for round in 0..2 { if (round == 0) != heavy {
        if !fp {
            // incremental solver: every term gets a guard literal, the query is a set of assumptions
            if self.lits.len() > 400 { self.lits.clear(); Z3_solver_reset(c, self.s_inc); }
            let mut asm = vec![];
            for &(v, d) in doms { if d == FULL { continue; } let t = self.dom_term(v, &d); asm.push(self.lit(t, (v, d))); }
            for &e in conj { let b = self.to_bool(x, e); asm.push(self.lit(b, (e | 0x8000_0000, FULL))); }
            let r = Z3_solver_check_assumptions(c, self.s_inc, asm.len() as u32, asm.as_ptr());
            let s = self.s_inc; let res = self.take(s, r, vars);
            if !matches!(res, Res::Unknown(_)) { self.time += t0.elapsed().as_secs_f64(); return res; }
            self.unknown -= 1; self.lits.clear(); Z3_solver_reset(c, self.s_inc);
        }
        } else {
        // linear-arithmetic over-approximation: unsat is final, a model counts if the exact terms evaluate to true under it
        let mut dbg_model: Vec<(E, f64)> = vec![];
        let ar = { let mut a = crate::arith::Ar::new(self, x, doms); let r = a.decide(conj, vars); if std::env::var("VPDBG").is_ok() { eprintln!("  opaque atoms: {:?}", a.fresh_log); dbg_model = std::mem::take(&mut a.model_log); } r };
        if std::env::var("VPDBG").is_ok() { eprintln!("AR {} {:.3}s conj={} last={}", match &ar { crate::arith::ArRes::Unsat => "unsat", crate::arith::ArRes::Model(_) => "sat", _ => "unknown" }, t0.elapsed().as_secs_f64(), conj.len(), x.show(*conj.last().unwrap(), std::env::var("VPDBG").unwrap().parse().unwrap_or(8))); }
        match ar {
            crate::arith::ArRes::Unsat => { self.ar_unsat += 1; self.unsat += 1; self.time += t0.elapsed().as_secs_f64(); return Res::Unsat; }
            crate::arith::ArRes::Model(m) => { let mut mm = base.to_vec(); for &(v, k) in &m { mm[v as usize] = k; } self.mid += 1; let id = u64::MAX / 2 + self.mid; if conj.iter().all(|&e| x.eval(e, &mm, id) == 1) && doms.iter().all(|(v, d)| dom_has(d, mm[*v as usize])) { self.ar_sat += 1; self.sat += 1; self.time += t0.elapsed().as_secs_f64(); return Res::Sat(doms.iter().map(|(v, _)| (*v, mm[*v as usize])).collect()); } self.ar_spurious += 1; if std::env::var("VPDBG").is_ok() { for &e in conj { if x.eval(e, &mm, id) != 1 { eprintln!("   FALSE {}", x.show(e, 12)); let mut st = vec![e]; while let Some(t) = st.pop() { let n = x.n[t as usize]; match n.op { Op::And | Op::Or | Op::Xor if n.w == 1 => { st.push(n.a); st.push(n.b); } Op::Eq | Op::FLt | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let (a, b) = (x.eval(n.a, &mm, id), x.eval(n.b, &mm, id)); let f = |q: E| dbg_model.iter().find(|z| z.0 == q).map(|z| z.1); eprint!("  TERM {:?} ", f(t)); eprintln!("     LEAF {:?} exact {a} {b} model {:?} {:?} {}", n.op, f(n.a), f(n.b), x.show(t, 4)); } _ => {} } } } } } if !dbg_model.is_empty() { let vars: Vec<u32> = vars.to_vec(); dbg_model.sort_by_key(|x| x.0); let mut k = 0; for (e, v) in dbg_model { if matches!(x.n[e as usize].op, Op::Const) || v > 1e15 { continue; } if std::env::var("VPALL").is_ok() && matches!(x.n[e as usize].op, Op::FAdd|Op::FSub|Op::FMul|Op::FDiv|Op::UiToFp|Op::SiToFp|Op::FRound|Op::ZExt) { let ex = x.eval(e, &mm, id); eprintln!("   VAL model {v} exact {} / {} {}", f64::from_bits(ex as u64), ex, x.show(e, 3)); } let n = x.n[e as usize]; let ex = x.eval(e, &mm, id); let exf = if matches!(n.op, Op::FAdd|Op::FSub|Op::FMul|Op::FDiv|Op::UiToFp|Op::SiToFp|Op::FRound) || (n.w == 64 && x.show(e,6).contains("FAdd") && ex >> 62 != 0) { f64::from_bits(ex as u64) } else { ex as f64 }; if (exf - v).abs() > 1e-6 * (1.0 + v.abs()) { eprintln!("   MISMATCH model {v} exact {exf} {}", x.show(e, 7)); k += 1; if k > 5 { break; } } } let _ = vars; } }
            _ => {}
        }
        } }
        let s = if fp { self.s_fp } else { self.s_bv };
        Z3_solver_reset(c, s);
        for &(v, d) in doms { if d == FULL { continue; } let o = self.dom_term(v, &d); Z3_solver_assert(c, s, o); }
        for &e in conj { let b = self.to_bool(x, e); Z3_solver_assert(c, s, b); }
        let r = Z3_solver_check(c, s);
        let res = self.take(s, r, vars);
        self.time += t0.elapsed().as_secs_f64(); res
    } }
}

/// linear arithmetic terms (used by arith.rs)
#[derive(Clone, Copy)]
pub struct Ops { c: P, s: P, m: P }
impl Z3 { pub fn ops(&self) -> Ops { unsafe { Z3_solver_reset(self.c, self.s_ar); } Ops { c: self.c, s: self.s_ar, m: std::ptr::null_mut() } } }
impl Ops {
    pub fn fresh(&self, int: bool) -> P { unsafe { Z3_mk_fresh_const(self.c, c"v".as_ptr(), if int { Z3_mk_int_sort(self.c) } else { Z3_mk_real_sort(self.c) }) } }
    pub fn fresh_bool(&self) -> P { unsafe { Z3_mk_fresh_const(self.c, c"p".as_ptr(), Z3_mk_bool_sort(self.c)) } }
    pub fn rat(&self, n: i128, d: i128, int: bool) -> P { unsafe { let t = CString::new(if d == 1 { n.to_string() } else { format!("{}/{}", n, d) }).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), if int { Z3_mk_int_sort(self.c) } else { Z3_mk_real_sort(self.c) }) } }
    pub fn add(&self, v: &[P]) -> P { unsafe { Z3_mk_add(self.c, v.len() as u32, v.as_ptr()) } }
    pub fn mul(&self, a: P, b: P) -> P { let v = [a, b]; unsafe { Z3_mk_mul(self.c, 2, v.as_ptr()) } }
    pub fn ge(&self, a: P, b: P) -> P { unsafe { Z3_mk_ge(self.c, a, b) } } pub fn gt(&self, a: P, b: P) -> P { unsafe { Z3_mk_gt(self.c, a, b) } } pub fn eq(&self, a: P, b: P) -> P { unsafe { Z3_mk_eq(self.c, a, b) } }
    pub fn to_real(&self, a: P) -> P { unsafe { Z3_mk_int2real(self.c, a) } }
    pub fn not(&self, a: P) -> P { unsafe { Z3_mk_not(self.c, a) } } pub fn implies(&self, a: P, b: P) -> P { unsafe { Z3_mk_implies(self.c, a, b) } }
    pub fn and(&self, v: &[P]) -> P { unsafe { Z3_mk_and(self.c, v.len() as u32, v.as_ptr()) } } pub fn or(&self, v: &[P]) -> P { unsafe { Z3_mk_or(self.c, v.len() as u32, v.as_ptr()) } }
    pub fn boolean(&self, b: bool) -> P { unsafe { if b { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) } } }
    pub fn solve(&mut self, cs: &[P]) -> i32 { unsafe { for &p in cs { Z3_solver_assert(self.c, self.s, p); } let r = Z3_solver_check(self.c, self.s); if r == 1 { self.m = Z3_solver_get_model(self.c, self.s); Z3_model_inc_ref(self.c, self.m); } r } }
    pub fn value_f(&self, a: P) -> f64 { unsafe { let mut v = std::ptr::null_mut(); if !Z3_model_eval(self.c, self.m, a, true, &mut v) { return f64::NAN; } let t = CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, v, 30)).to_string_lossy().into_owned(); t.trim_end_matches('?').parse().unwrap_or(f64::NAN) } }
    pub fn truth(&self, a: P) -> bool { unsafe { let mut v = std::ptr::null_mut(); Z3_model_eval(self.c, self.m, a, true, &mut v) && Z3_get_bool_value(self.c, v) == 1 } }
    pub fn value(&self, a: P) -> Option<u64> { unsafe { let mut v = std::ptr::null_mut(); if !Z3_model_eval(self.c, self.m, a, true, &mut v) { return None; } let mut u = 0; if Z3_get_numeral_uint64(self.c, v, &mut u) { Some(u) } else { None } } }
    pub fn done(&mut self) { unsafe { Z3_model_dec_ref(self.c, self.m); } }
}
