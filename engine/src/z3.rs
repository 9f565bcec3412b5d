//! Minimal binding to the C API of the installed libz3.
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_uint};
pub type P = *mut std::ffi::c_void;
#[link(name = "z3")]
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_mk_context(c: P) -> P;
    pub fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    pub fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    pub fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    pub fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_mk_const(c: P, s: P, t: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_fpa_sort_64(c: P) -> P;
    pub fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    pub fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    pub fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    pub fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, sz: c_uint) -> P;
    pub fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, sz: c_uint) -> P;
    pub fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    pub fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    pub fn Z3_get_full_version() -> *const c_char;
    pub fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
}
