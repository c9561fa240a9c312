//! Hand-written bindings for the handful of libz3 entry points we use.
use std::os::raw::{c_char, c_int, c_uint, c_void};

pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Cfg = *mut c_void;
pub type Sym = *mut c_void;
pub type Params = *mut c_void;

#[allow(dead_code)]
extern "C" {
    pub fn Z3_mk_config() -> Cfg;
    pub fn Z3_del_config(c: Cfg);
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    pub fn Z3_params_dec_ref(c: Ctx, p: Params);
    pub fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: Cfg) -> Ctx;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    pub fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    pub fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_get_full_version() -> *const c_char;
}
