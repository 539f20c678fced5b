//! Z3 through its C API: one incremental solver per worker.

use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_code(c: P) -> c_uint;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_num_consts(c: P, m: P) -> c_uint;
    fn Z3_model_get_const_decl(c: P, m: P, i: c_uint) -> P;
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_decl_name(c: P, d: P) -> P;
    fn Z3_get_symbol_int(c: P, s: P) -> c_int;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_ast_kind(c: P, a: P) -> c_uint;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub ns: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    cache: Vec<P>,
    /// variable index -> key
    var_keys: Vec<u64>,
    var_ids: HashMap<u64, i32>,
    pub stats: SolverStats,
    pub level: u32,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}

impl Solver {
    pub fn new(timeout_ms: u32, logic: bool) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, None);
            let s = if logic {
                let l = CString::new("QF_BV").unwrap();
                let sy = Z3_mk_string_symbol(ctx, l.as_ptr());
                Z3_mk_solver_for_logic(ctx, sy)
            } else {
                Z3_mk_simple_solver(ctx)
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            let sy = Z3_mk_string_symbol(ctx, t.as_ptr());
            Z3_params_set_uint(ctx, p, sy, timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                cache: vec![],
                var_keys: vec![],
                var_ids: HashMap::new(),
                stats: SolverStats::default(),
                level: 0,
            }
        }
    }

    fn keep(&self, a: P) -> P {
        unsafe {
            if a.is_null() {
                panic!("z3 error {}", Z3_get_error_code(self.ctx));
            }
            Z3_inc_ref(self.ctx, a)
        };
        a
    }

    fn tr(&mut self, ar: &Arena, e: EId) -> P {
        let i = e as usize;
        if i < self.cache.len() && !self.cache[i].is_null() {
            return self.cache[i];
        }
        let n = ar.n(e);
        let c = self.ctx;
        let w = n.w;
        let r = unsafe {
            match n.op {
                Op::Const(v) => {
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = Z3_mk_bv_sort(c, w);
                        self.keep(s);
                        if w <= 64 {
                            Z3_mk_unsigned_int64(c, v as u64, s)
                        } else {
                            let t = CString::new(v.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                }
                Op::Var(key) => {
                    // one Z3 constant per key; a key has a single width
                    let id = match self.var_ids.get(&key) {
                        Some(i) => *i,
                        None => {
                            let i = self.var_keys.len() as i32;
                            self.var_keys.push(key);
                            self.var_ids.insert(key, i);
                            i
                        }
                    };
                    let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                    self.keep(s);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, id), s)
                }
                Op::Bin(op, a, b) => {
                    let x = self.tr(ar, a);
                    let y = self.tr(ar, b);
                    if w == 1 {
                        let v = [x, y];
                        match op {
                            BinOp::And | BinOp::Mul => Z3_mk_and(c, 2, v.as_ptr()),
                            BinOp::Or => Z3_mk_or(c, 2, v.as_ptr()),
                            BinOp::Xor | BinOp::Add | BinOp::Sub => Z3_mk_xor(c, x, y),
                            _ => panic!("bool op {:?}", op),
                        }
                    } else {
                        match op {
                            BinOp::Add => Z3_mk_bvadd(c, x, y),
                            BinOp::Sub => Z3_mk_bvsub(c, x, y),
                            BinOp::Mul => Z3_mk_bvmul(c, x, y),
                            BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                            BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                            BinOp::URem => Z3_mk_bvurem(c, x, y),
                            BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                            BinOp::Shl => Z3_mk_bvshl(c, x, y),
                            BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                            BinOp::AShr => Z3_mk_bvashr(c, x, y),
                            BinOp::And => Z3_mk_bvand(c, x, y),
                            BinOp::Or => Z3_mk_bvor(c, x, y),
                            BinOp::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                Op::Cmp(p, a, b) => {
                    let x = self.tr(ar, a);
                    let y = self.tr(ar, b);
                    let bw = ar.w(a);
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        _ if bw == 1 => {
                            // unsigned: x < y == !x & y ; signed (1 is -1): x < y == x & !y
                            let nx = self.keep(Z3_mk_not(c, x));
                            let ny = self.keep(Z3_mk_not(c, y));
                            let v = match p {
                                Pred::Ult => [nx, y],
                                Pred::Slt => [x, ny],
                                _ => panic!("bool cmp"),
                            };
                            Z3_mk_and(c, 2, v.as_ptr())
                        }
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        _ => panic!("cmp"),
                    }
                }
                Op::Not(a) => {
                    let x = self.tr(ar, a);
                    if w == 1 {
                        Z3_mk_not(c, x)
                    } else {
                        Z3_mk_bvnot(c, x)
                    }
                }
                Op::Ite(a, b, d) => {
                    let x = self.tr(ar, a);
                    let y = self.tr(ar, b);
                    let z = self.tr(ar, d);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract(lo, a) => {
                    let x = self.tr(ar, a);
                    let t = Z3_mk_extract(c, lo + w - 1, lo, x);
                    if w == 1 {
                        self.keep(t);
                        let s = Z3_mk_bv_sort(c, 1);
                        self.keep(s);
                        let one = self.keep(Z3_mk_unsigned_int64(c, 1, s));
                        Z3_mk_eq(c, t, one)
                    } else {
                        t
                    }
                }
                Op::Concat(h, l) => {
                    let x = self.as_bv(ar, h);
                    let y = self.as_bv(ar, l);
                    Z3_mk_concat(c, x, y)
                }
                Op::ZExt(a) => {
                    let x = self.as_bv(ar, a);
                    Z3_mk_zero_ext(c, w - ar.w(a), x)
                }
                Op::SExt(a) => {
                    let x = self.as_bv(ar, a);
                    Z3_mk_sign_ext(c, w - ar.w(a), x)
                }
            }
        };
        self.keep(r);
        if self.cache.len() <= i {
            self.cache.resize(ar.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        self.cache[i] = r;
        r
    }

    fn as_bv(&mut self, ar: &Arena, e: EId) -> P {
        let x = self.tr(ar, e);
        if ar.w(e) == 1 {
            unsafe {
                let c = self.ctx;
                let s = Z3_mk_bv_sort(c, 1);
                self.keep(s);
                let one = self.keep(Z3_mk_unsigned_int64(c, 1, s));
                let zero = self.keep(Z3_mk_unsigned_int64(c, 0, s));
                self.keep(Z3_mk_ite(c, x, one, zero))
            }
        } else {
            x
        }
    }

    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.ctx, self.s) };
        self.level += 1;
    }
    pub fn pop(&mut self, n: u32) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.ctx, self.s, n) };
            self.level -= n;
        }
    }
    pub fn assert(&mut self, ar: &Arena, e: EId) {
        let a = self.tr(ar, e);
        unsafe { Z3_solver_assert(self.ctx, self.s, a) };
    }
    pub fn check(&mut self) -> Sat {
        let t = Instant::now();
        let r = unsafe { Z3_solver_check(self.ctx, self.s) };
        self.stats.ns += t.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        match r {
            1 => {
                self.stats.sat += 1;
                Sat::Sat
            }
            -1 => {
                self.stats.unsat += 1;
                Sat::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Sat::Unknown
            }
        }
    }
    pub fn model(&mut self) -> Model {
        let mut out = Model::default();
        unsafe {
            let m = Z3_solver_get_model(self.ctx, self.s);
            if m.is_null() {
                panic!("no model");
            }
            Z3_model_inc_ref(self.ctx, m);
            let n = Z3_model_get_num_consts(self.ctx, m);
            for i in 0..n {
                let d = Z3_model_get_const_decl(self.ctx, m, i);
                let id = Z3_get_symbol_int(self.ctx, Z3_get_decl_name(self.ctx, d));
                let a = Z3_model_get_const_interp(self.ctx, m, d);
                if a.is_null() || id < 0 || id as usize >= self.var_keys.len() {
                    continue;
                }
                let v = if Z3_get_ast_kind(self.ctx, a) == 0 {
                    let mut x = 0u64;
                    if Z3_get_numeral_uint64(self.ctx, a, &mut x) {
                        x as u128
                    } else {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, a));
                        s.to_str().unwrap().parse::<u128>().unwrap()
                    }
                } else {
                    (Z3_get_bool_value(self.ctx, a) == 1) as u128
                };
                out.vals.insert(self.var_keys[id as usize], v);
            }
            Z3_model_dec_ref(self.ctx, m);
        }
        out
    }
    pub fn to_smt2(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned() }
    }
}
