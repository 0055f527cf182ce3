//! Minimal FFI to libz3.
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
pub type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, t: P, s: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        if m.contains("cancel") || m.contains("timeout") { return; }
        panic!("z3 error: {}", m);
    }
}
pub struct Z3 {
    pub c: P,
    pub s: P,
    bool_s: P,
    pub fp: bool,
}
pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }
impl Drop for Z3 { fn drop(&mut self) { unsafe { Z3_del_context(self.c) } } }
impl Z3 {
    pub fn new(fp: bool, timeout_ms: u32, seed: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = if fp { Z3_mk_simple_solver(c) } else {
                let l = CString::new("QF_FD").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), seed);
            Z3_solver_set_params(c, s, p);
            let bool_s = Z3_mk_bool_sort(c);
            Z3 { c, s, bool_s, fp }
        }
    }
    pub fn var(&self, i: u32) -> P { unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), self.bool_s) } }
    pub fn not(&self, a: P) -> P { unsafe { Z3_mk_not(self.c, a) } }
    pub fn tru(&self) -> P { unsafe { Z3_mk_true(self.c) } }
    pub fn or(&self, a: &[P]) -> P { unsafe { Z3_mk_or(self.c, a.len() as c_uint, a.as_ptr()) } }
    pub fn xor(&self, a: P, b: P) -> P { unsafe { Z3_mk_xor(self.c, a, b) } }
    pub fn iff(&self, a: P, b: P) -> P { unsafe { Z3_mk_iff(self.c, a, b) } }
    pub fn add(&self, a: P) { unsafe { Z3_solver_assert(self.c, self.s, a) } }
    pub fn check(&self, a: &[P]) -> i32 { unsafe { Z3_solver_check_assumptions(self.c, self.s, a.len() as c_uint, a.as_ptr()) } }
    pub fn reason(&self) -> String { unsafe { CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s)).to_string_lossy().to_string() } }
    pub fn model(&self, vars: &[(u32, P)]) -> Vec<(u32, bool)> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let mut o = vec![];
            for (i, v) in vars {
                let mut r: P = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, *v, true, &mut r) { o.push((*i, Z3_get_bool_value(self.c, r) == 1)); }
            }
            Z3_model_dec_ref(self.c, m);
            o
        }
    }
    // floating point terms
    pub fn bv_of_bits(&self, bits: &[P]) -> P {
        unsafe {
            let s1 = Z3_mk_bv_sort(self.c, 1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s1);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s1);
            let mut acc: P = std::ptr::null_mut();
            for b in bits {
                let x = Z3_mk_ite(self.c, *b, one, zero);
                acc = if acc.is_null() { x } else { Z3_mk_concat(self.c, x, acc) };
            }
            acc
        }
    }
    pub fn bv_const(&self, v: u64, w: u32) -> P { unsafe { Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)) } }
    pub fn fsort(&self, w: u32) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) } } }
    pub fn fp_of_bv(&self, bv: P, w: u32) -> P { unsafe { Z3_mk_fpa_to_fp_bv(self.c, bv, self.fsort(w)) } }
    pub fn rne(&self) -> P { unsafe { Z3_mk_fpa_round_nearest_ties_to_even(self.c) } }
    pub fn fp_of_uint(&self, bv: P, w: u32) -> P { unsafe { Z3_mk_fpa_to_fp_unsigned(self.c, self.rne(), bv, self.fsort(w)) } }
    pub fn fp_conv(&self, f: P, w: u32) -> P { unsafe { Z3_mk_fpa_to_fp_float(self.c, self.rne(), f, self.fsort(w)) } }
    pub fn fbin(&self, op: u8, a: P, b: P) -> P {
        unsafe { let r = self.rne(); match op { 0 => Z3_mk_fpa_add(self.c, r, a, b), 1 => Z3_mk_fpa_sub(self.c, r, a, b), 2 => Z3_mk_fpa_mul(self.c, r, a, b), _ => Z3_mk_fpa_div(self.c, r, a, b) } }
    }
    pub fn fneg(&self, a: P) -> P { unsafe { Z3_mk_fpa_neg(self.c, a) } }
    pub fn flt(&self, a: P, b: P) -> P { unsafe { Z3_mk_fpa_lt(self.c, a, b) } }
    pub fn fle(&self, a: P, b: P) -> P { unsafe { Z3_mk_fpa_leq(self.c, a, b) } }
    pub fn feq(&self, a: P, b: P) -> P { unsafe { Z3_mk_fpa_eq(self.c, a, b) } }
    pub fn fnan(&self, a: P) -> P { unsafe { Z3_mk_fpa_is_nan(self.c, a) } }
    pub fn eq(&self, a: P, b: P) -> P { unsafe { Z3_mk_eq(self.c, a, b) } }
}
