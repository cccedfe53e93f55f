// Minimal Z3 C API binding and translation of expression nodes.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_bvadd_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub_no_overflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub_no_underflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error code {}", e); }

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Z3 {
    c: P,
    bv: Vec<P>,
    bo: Vec<P>,
    fp: Vec<P>,
    dsort: P,
    fsort: P,
    rm: [P; 5], // rtn rtp rtz rne rna
    frem: P,
    fast: P,
    pub queries: u64,
    pub time: f64,
    pub unknowns: u64,
    pub max_q: f64,
    pub timeout_ms: u32,
    pub slow_log: Vec<String>,
}

impl Z3 {
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let fast = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, fast);
            let ds = Z3_mk_fpa_sort_double(c);
            let fs = Z3_mk_fpa_sort_single(c);
            let b64 = Z3_mk_bv_sort(c, 64);
            let n = CString::new("fmod").unwrap();
            let dom = [b64, b64];
            let frem = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, n.as_ptr()), 2, dom.as_ptr(), b64);
            let rm = [Z3_mk_fpa_rtn(c), Z3_mk_fpa_rtp(c), Z3_mk_fpa_rtz(c), Z3_mk_fpa_rne(c), Z3_mk_fpa_rna(c)];
            let z = Z3 { c, bv: vec![], bo: vec![], fp: vec![], dsort: ds, fsort: fs, rm, frem, fast, queries: 0, time: 0.0, unknowns: 0, max_q: 0.0, timeout_ms, slow_log: vec![] };
            z.set_timeout(fast, timeout_ms);
            z
        }
    }
    unsafe fn set_timeout(&self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
        Z3_solver_set_params(self.c, s, p);
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            let n = n + n / 2;
            self.bv.resize(n, std::ptr::null_mut());
            self.bo.resize(n, std::ptr::null_mut());
            self.fp.resize(n, std::ptr::null_mut());
        }
    }
    pub fn bv(&mut self, x: &Ctx, e: E) -> P {
        self.grow(x.nodes.len());
        let p = self.bv[e as usize];
        if !p.is_null() { return p; }
        let n = x.nodes[e as usize];
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = x.cval(e).unwrap();
                    let s = Z3_mk_bv_sort(c, w);
                    if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, v as u64, s) } else { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
                }
                Op::Sym => { let nm = CString::new(format!("s{}", n.a)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w)) }
                Op::Lut => {
                    let sw = x.syms[n.a as usize].w;
                    let nm = CString::new(format!("s{}", n.a)).unwrap();
                    let ss = Z3_mk_bv_sort(c, sw);
                    let s = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), ss);
                    let t = x.luts[n.b as usize].clone();
                    let rs = Z3_mk_bv_sort(c, w);
                    // runs of equal values, from the top down
                    let top = (mask(sw) as usize).min(255);
                    let mut acc = Z3_mk_unsigned_int64(c, t[top], rs);
                    let mut i = top;
                    let mut cur = t[top];
                    while i > 0 {
                        if t[i - 1] != cur {
                            let lim = Z3_mk_unsigned_int64(c, i as u64, ss);
                            cur = t[i - 1];
                            acc = Z3_mk_ite(c, Z3_mk_bvult(c, s, lim), Z3_mk_unsigned_int64(c, cur, rs), acc);
                            // nested: lower runs wrap further
                        }
                        i -= 1;
                    }
                    acc
                }
                Op::Add => Z3_mk_bvadd(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Sub => Z3_mk_bvsub(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Mul => Z3_mk_bvmul(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::UDiv => Z3_mk_bvudiv(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::SDiv => Z3_mk_bvsdiv(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::URem => Z3_mk_bvurem(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::SRem => Z3_mk_bvsrem(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::And if w > 1 => Z3_mk_bvand(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Or if w > 1 => Z3_mk_bvor(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Xor if w > 1 => Z3_mk_bvxor(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Shl => Z3_mk_bvshl(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::LShr => Z3_mk_bvlshr(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::AShr => Z3_mk_bvashr(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Ite if w > 1 => Z3_mk_ite(c, self.boolean(x, n.a), self.bv(x, n.b), self.bv(x, n.c)),
                Op::Concat => Z3_mk_concat(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Extract => Z3_mk_extract(c, n.c + w - 1, n.c, self.bv(x, n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, w - x.w(n.a), self.bv(x, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, w - x.w(n.a), self.bv(x, n.a)),
                Op::FRem => { let a = [self.bv(x, n.a), self.bv(x, n.b)]; Z3_mk_app(c, self.frem, 2, a.as_ptr()) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRnd | Op::SiToF | Op::UiToF | Op::F32To64 | Op::F64To32 | Op::FSqrt => {
                    let f = self.fp(x, e);
                    let b = Z3_mk_fpa_to_ieee_bv(c, f);
                    let nan = if w == 64 { 0x7ff8000000000000u64 } else { 0x7fc00000 };
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), Z3_mk_unsigned_int64(c, nan, Z3_mk_bv_sort(c, w)), b)
                }
                Op::FToSiSat | Op::FToUiSat => {
                    let f = self.fp(x, n.a);
                    let s = Z3_mk_bv_sort(c, w);
                    let signed = n.op == Op::FToSiSat;
                    let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                    let fl = Z3_mk_fpa_to_fp_bv(c, Z3_mk_unsigned_int64(c, lo.to_bits(), Z3_mk_bv_sort(c, 64)), self.dsort);
                    let fh = Z3_mk_fpa_to_fp_bv(c, Z3_mk_unsigned_int64(c, hi.to_bits(), Z3_mk_bv_sort(c, 64)), self.dsort);
                    let vlo = if signed { Z3_mk_unsigned_int64(c, 1u64 << (w - 1), s) } else { Z3_mk_unsigned_int64(c, 0, s) };
                    let vhi = if signed { Z3_mk_unsigned_int64(c, (1u64 << (w - 1)) - 1, s) } else { Z3_mk_unsigned_int64(c, mask(w), s) };
                    let mid = if signed { Z3_mk_fpa_to_sbv(c, self.rm[2], f, w) } else { Z3_mk_fpa_to_ubv(c, self.rm[2], f, w) };
                    let z = Z3_mk_unsigned_int64(c, 0, s);
                    let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, fl), vlo, mid);
                    let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fh, f), vhi, t);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), z, t)
                }
                Op::Ctlz | Op::Cttz | Op::Popcnt => {
                    let a = self.bv(x, n.a);
                    let s = Z3_mk_bv_sort(c, w);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    if n.op == Op::Popcnt {
                        let mut acc = Z3_mk_unsigned_int64(c, 0, s);
                        for i in 0..w { let b = Z3_mk_extract(c, i, i, a); let b = if w > 1 { Z3_mk_zero_ext(c, w - 1, b) } else { b }; acc = Z3_mk_bvadd(c, acc, b); }
                        acc
                    } else {
                        let mut acc = Z3_mk_unsigned_int64(c, w as u64, s);
                        for i in 0..w {
                            // ctlz: highest set bit wins, so iterate from low to high; cttz from high to low
                            let bit = if n.op == Op::Ctlz { i } else { w - 1 - i };
                            let val = if n.op == Op::Ctlz { w - 1 - bit } else { bit };
                            let b = Z3_mk_eq(c, Z3_mk_extract(c, bit, bit, a), one);
                            acc = Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, val as u64, s), acc);
                        }
                        acc
                    }
                }
                _ => {
                    let b = self.boolean(x, e);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
            }
        };
        self.grow(x.nodes.len());
        self.bv[e as usize] = r;
        r
    }
    pub fn fp(&mut self, x: &Ctx, e: E) -> P {
        self.grow(x.nodes.len());
        let p = self.fp[e as usize];
        if !p.is_null() { return p; }
        let n = x.nodes[e as usize];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::FAdd => Z3_mk_fpa_add(c, self.rm[3], self.fp(x, n.a), self.fp(x, n.b)),
                Op::FSub => Z3_mk_fpa_sub(c, self.rm[3], self.fp(x, n.a), self.fp(x, n.b)),
                Op::FMul => Z3_mk_fpa_mul(c, self.rm[3], self.fp(x, n.a), self.fp(x, n.b)),
                Op::FDiv => Z3_mk_fpa_div(c, self.rm[3], self.fp(x, n.a), self.fp(x, n.b)),
                Op::FSqrt => Z3_mk_fpa_sqrt(c, self.rm[3], self.fp(x, n.a)),
                Op::FRnd => Z3_mk_fpa_round_to_integral(c, self.rm[n.c as usize], self.fp(x, n.a)),
                Op::SiToF => Z3_mk_fpa_to_fp_signed(c, self.rm[3], self.bv(x, n.a), if n.w == 64 { self.dsort } else { self.fsort }),
                Op::UiToF => Z3_mk_fpa_to_fp_unsigned(c, self.rm[3], self.bv(x, n.a), if n.w == 64 { self.dsort } else { self.fsort }),
                Op::F32To64 => Z3_mk_fpa_to_fp_float(c, self.rm[3], self.fp(x, n.a), self.dsort),
                Op::F64To32 => Z3_mk_fpa_to_fp_float(c, self.rm[3], self.fp(x, n.a), self.fsort),
                Op::Ite => Z3_mk_ite(c, self.boolean(x, n.a), self.fp(x, n.b), self.fp(x, n.c)),
                _ => { let b = self.bv(x, e); Z3_mk_fpa_to_fp_bv(c, b, if n.w == 64 { self.dsort } else { self.fsort }) }
            }
        };
        self.grow(x.nodes.len());
        self.fp[e as usize] = r;
        r
    }
    pub fn boolean(&mut self, x: &Ctx, e: E) -> P {
        self.grow(x.nodes.len());
        let p = self.bo[e as usize];
        if !p.is_null() { return p; }
        let n = x.nodes[e as usize];
        assert!(n.w == 1, "boolean of width {}", n.w);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if x.cval(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq => if x.w(n.a) == 1 { Z3_mk_eq(c, self.boolean(x, n.a), self.boolean(x, n.b)) } else { Z3_mk_eq(c, self.bv(x, n.a), self.bv(x, n.b)) },
                Op::Ult => Z3_mk_bvult(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Ule => Z3_mk_bvule(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Slt => Z3_mk_bvslt(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::Sle => Z3_mk_bvsle(c, self.bv(x, n.a), self.bv(x, n.b)),
                Op::And => { let a = [self.boolean(x, n.a), self.boolean(x, n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
                Op::Or => { let a = [self.boolean(x, n.a), self.boolean(x, n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
                Op::Xor => if x.cval(n.b) == Some(1) { Z3_mk_not(c, self.boolean(x, n.a)) } else { Z3_mk_xor(c, self.boolean(x, n.a), self.boolean(x, n.b)) },
                Op::Ite => Z3_mk_ite(c, self.boolean(x, n.a), self.boolean(x, n.b), self.boolean(x, n.c)),
                Op::SAddO => { let (a, b) = (self.bv(x, n.a), self.bv(x, n.b)); let v = [Z3_mk_bvadd_no_overflow(c, a, b, true), Z3_mk_bvadd_no_underflow(c, a, b)]; Z3_mk_not(c, Z3_mk_and(c, 2, v.as_ptr())) }
                Op::SSubO => { let (a, b) = (self.bv(x, n.a), self.bv(x, n.b)); let v = [Z3_mk_bvsub_no_overflow(c, a, b), Z3_mk_bvsub_no_underflow(c, a, b, true)]; Z3_mk_not(c, Z3_mk_and(c, 2, v.as_ptr())) }
                Op::SMulO => { let (a, b) = (self.bv(x, n.a), self.bv(x, n.b)); let v = [Z3_mk_bvmul_no_overflow(c, a, b, true), Z3_mk_bvmul_no_underflow(c, a, b)]; Z3_mk_not(c, Z3_mk_and(c, 2, v.as_ptr())) }
                Op::UMulO => { let (a, b) = (self.bv(x, n.a), self.bv(x, n.b)); Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, a, b, false)) }
                Op::FEq => Z3_mk_fpa_eq(c, self.fp(x, n.a), self.fp(x, n.b)),
                Op::FLt => Z3_mk_fpa_lt(c, self.fp(x, n.a), self.fp(x, n.b)),
                Op::FLe => Z3_mk_fpa_leq(c, self.fp(x, n.a), self.fp(x, n.b)),
                Op::FUno => { let a = [Z3_mk_fpa_is_nan(c, self.fp(x, n.a)), Z3_mk_fpa_is_nan(c, self.fp(x, n.b))]; Z3_mk_or(c, 2, a.as_ptr()) }
                _ => { let b = self.bv(x, e); Z3_mk_eq(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) }
            }
        };
        self.grow(x.nodes.len());
        self.bo[e as usize] = r;
        r
    }
    fn has_fp(&self, x: &Ctx, es: &[E]) -> (bool, bool) {
        let (mut fp, mut uf) = (false, false);
        let mut seen: std::collections::HashSet<E> = Default::default();
        let mut st: Vec<E> = es.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            let n = x.nodes[e as usize];
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::FRnd | Op::SiToF | Op::UiToF | Op::FToSiSat | Op::FToUiSat | Op::F32To64 | Op::F64To32 | Op::FSqrt => fp = true,
                Op::FRem => { fp = true; uf = true; }
                _ => {}
            }
            let k = Ctx::nkids(&n);
            if k > 0 { st.push(n.a); }
            if k > 1 { st.push(n.b); }
            if k > 2 { st.push(n.c); }
        }
        (fp, uf)
    }
    /// is every input on one of the given paths?  (negated disjunction of path conditions)
    pub fn covered(&mut self, x: &Ctx, leaves: &[Vec<E>], ms: u32) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.c;
        let all: Vec<E> = { let mut v: Vec<E> = leaves.iter().flatten().cloned().collect(); v.sort(); v.dedup(); v };
        let (fp, uf) = self.has_fp(x, &all);
        let r = unsafe {
            let l = CString::new(if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
            let s = if uf { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            self.set_timeout(s, ms);
            for leaf in leaves {
                let bs: Vec<P> = leaf.iter().map(|e| { let b = self.boolean(x, *e); Z3_mk_not(c, b) }).collect();
                let o = if bs.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, bs.len() as u32, bs.as_ptr()) };
                Z3_solver_assert(c, s, o);
            }
            let r = Z3_solver_check(c, s);
            Z3_solver_dec_ref(c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if r == 1 { Res::Sat(vec![]) } else if r == -1 { Res::Unsat } else { Res::Unknown }
    }
    pub fn check(&mut self, x: &Ctx, cons: &[E]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let bs: Vec<P> = cons.iter().map(|e| self.boolean(x, *e)).collect();
        let (fp, uf) = self.has_fp(x, cons);
        let c = self.c;
        let mut vars: Vec<u32> = vec![];
        for e in cons { vars.extend(x.varset(*e).iter()); }
        vars.sort();
        vars.dedup();
        let r = unsafe {
            let try_solver = |s: P| -> (c_int, P) {
                for b in &bs { Z3_solver_assert(c, s, *b); }
                let r = Z3_solver_check(c, s);
                (r, s)
            };
            // small queries: the plain solver; floating point or a timeout: logic-specific tactics
            let mut res;
            let mut s;
            let mut own = false;
            if !fp {
                Z3_solver_push(c, self.fast);
                let t1 = self.timeout_ms.min(2000);
                self.set_timeout(self.fast, t1);
                let (r, s0) = try_solver(self.fast);
                res = r;
                s = s0;
                if res == 0 { Z3_solver_pop(c, self.fast, 1); }
            } else { res = 0; s = self.fast; }
            if res == 0 {
                let l = CString::new(if fp { "QF_FPBV" } else { "QF_BV" }).unwrap();
                s = if uf { Z3_mk_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) };
                Z3_solver_inc_ref(c, s);
                self.set_timeout(s, self.timeout_ms);
                own = true;
                let (r, _) = try_solver(s);
                res = r;
            }
            let out = if res == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut v = vec![];
                for id in &vars {
                    let w = x.syms[*id as usize].w;
                    let nm = CString::new(format!("s{}", id)).unwrap();
                    let k = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w));
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(c, m, k, true, &mut o) {
                        let s = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_string_lossy().to_string();
                        v.push((*id, s.parse::<u128>().unwrap_or(0)));
                    }
                }
                Z3_model_dec_ref(c, m);
                // an uninterpreted function is involved: believe only models that hold by evaluation
                let mut full = vec![0u128; vars.iter().max().map(|m| *m as usize + 1).unwrap_or(0)];
                for (id, val) in &v { full[*id as usize] = *val; }
                if uf && cons.iter().any(|e| x.eval(*e, &full) & 1 == 0) { self.unknowns += 1; Res::Unknown } else { Res::Sat(v) }
            } else if res == -1 { Res::Unsat } else { self.unknowns += 1; Res::Unknown };
            if own { Z3_solver_dec_ref(c, s); } else { Z3_solver_pop(c, self.fast, 1); }
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_q { self.max_q = dt; }
        if dt > 5.0 && self.slow_log.len() < 20 {
            let s: Vec<String> = cons.iter().rev().take(2).map(|e| x.show(*e, 6)).collect();
            self.slow_log.push(format!("{:.1}s {}", dt, s.join(" & ")));
        }
        r
    }
}
