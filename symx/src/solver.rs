//! z3 (C API) back end: bit-vector queries over the arena's expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e))); }
    std::process::abort();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Solver {
    ctx: P, s: P,
    bv: Vec<P>, bo: Vec<P>,
    vars: Vec<(u32, u32, P)>,
    cache: FxMap<Box<[u32]>, Option<Box<[(u32, u64)]>>>, // None = unsat, Some(model)
    pub queries: u64, pub sat: u64, pub unsat: u64, pub cached: u64, pub nanos: u64,
    pub dump: Option<std::fs::File>,
    pub dump_n: u64,
}

impl Solver {
    pub fn new() -> Self {
        let mut s = Solver { ctx: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: vec![], bo: vec![], vars: vec![], cache: Default::default(), queries: 0, sat: 0, unsat: 0, cached: 0, nanos: 0, dump: None, dump_n: 0 };
        s.reset();
        s
    }
    /// fresh z3 context (used at start and after a process fork)
    pub fn reset(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, on_err);
            let _ = Z3_mk_solver_for_logic;
            self.s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, c"QF_BV".as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            // a deterministic resource limit rather than a timer thread (fork-safe)
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, c"rlimit".as_ptr()), 400_000_000);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
        self.bv.clear(); self.bo.clear(); self.vars.clear();
    }
    fn var(&mut self, id: u32, w: u32) -> P {
        if let Some(v) = self.vars.iter().find(|v| v.0 == id && v.1 == w) { return v.2; }
        let n = CString::new(format!("v{}_{}", id, w)).unwrap();
        let p = unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), Z3_mk_bv_sort(self.ctx, w)) };
        self.vars.push((id, w, p));
        p
    }
    fn bv(&mut self, a: &Arena, e: E) -> P {
        let i = e as usize;
        if self.bv.len() < a.nodes.len() { self.bv.resize(a.nodes.len(), std::ptr::null_mut()); self.bo.resize(a.nodes.len(), std::ptr::null_mut()); }
        if !self.bv[i].is_null() { return self.bv[i]; }
        let n = *a.n(e); let c = self.ctx;
        let r = unsafe { match n.op {
            Op::Const => { let s = Z3_mk_bv_sort(c, n.w as u32); if n.k <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, n.k as u64, s) } else { let t = CString::new(n.k.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) } }
            Op::Var => self.var(n.a, n.w as u32),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let b = self.bo(a, e); let s = Z3_mk_bv_sort(c, 1); let o = Z3_mk_unsigned_int64(c, 1, s); let z = Z3_mk_unsigned_int64(c, 0, s); Z3_mk_ite(c, b, o, z) }
            Op::Ite => { let x = self.bo(a, n.a); let y = self.bv(a, n.b); let z = self.bv(a, n.c); Z3_mk_ite(c, x, y, z) }
            Op::Extract => { let x = self.bv(a, n.a); Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x) }
            Op::ZExt => { let x = self.bv(a, n.a); Z3_mk_zero_ext(c, n.w as u32 - a.w(n.a), x) }
            Op::SExt => { let x = self.bv(a, n.a); Z3_mk_sign_ext(c, n.w as u32 - a.w(n.a), x) }
            _ => {
                let x = self.bv(a, n.a); let y = self.bv(a, n.b);
                (match n.op { Op::Add => Z3_mk_bvadd, Op::Sub => Z3_mk_bvsub, Op::Mul => Z3_mk_bvmul, Op::UDiv => Z3_mk_bvudiv, Op::SDiv => Z3_mk_bvsdiv, Op::URem => Z3_mk_bvurem, Op::SRem => Z3_mk_bvsrem,
                    Op::And => Z3_mk_bvand, Op::Or => Z3_mk_bvor, Op::Xor => Z3_mk_bvxor, Op::Shl => Z3_mk_bvshl, Op::LShr => Z3_mk_bvlshr, Op::AShr => Z3_mk_bvashr, Op::Concat => Z3_mk_concat, _ => unreachable!() })(c, x, y)
            }
        } };
        self.bv[i] = r;
        r
    }
    fn bo(&mut self, a: &Arena, e: E) -> P {
        let i = e as usize;
        if self.bv.len() < a.nodes.len() { self.bv.resize(a.nodes.len(), std::ptr::null_mut()); self.bo.resize(a.nodes.len(), std::ptr::null_mut()); }
        if !self.bo[i].is_null() { return self.bo[i]; }
        let n = *a.n(e); let c = self.ctx;
        let r = unsafe { match n.op {
            Op::Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let x = self.bv(a, n.a); let y = self.bv(a, n.b); (match n.op { Op::Eq => Z3_mk_eq, Op::Ult => Z3_mk_bvult, Op::Ule => Z3_mk_bvule, Op::Slt => Z3_mk_bvslt, _ => Z3_mk_bvsle })(c, x, y) }
            Op::And => { let v = [self.bo(a, n.a), self.bo(a, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.bo(a, n.a), self.bo(a, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Xor => if a.is_c(n.b) == Some(1) { let x = self.bo(a, n.a); Z3_mk_not(c, x) } else { let x = self.bo(a, n.a); let y = self.bo(a, n.b); Z3_mk_xor(c, x, y) },
            Op::Ite => { let x = self.bo(a, n.a); let y = self.bo(a, n.b); let z = self.bo(a, n.c); Z3_mk_ite(c, x, y, z) }
            _ => { let x = self.bv(a, e); let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)); Z3_mk_eq(c, x, one) }
        } };
        self.bo[i] = r;
        r
    }
    /// Is the conjunction of `cs` satisfiable?  On Sat, the assignment of the vars in its support.
    pub fn check(&mut self, a: &Arena, cs: &mut Vec<E>) -> (Res, Vec<(u32, u64)>) {
        cs.sort_unstable(); cs.dedup();
        if let Some(r) = self.cache.get(&cs[..]) {
            self.cached += 1;
            return match r { None => (Res::Unsat, vec![]), Some(m) => (Res::Sat, m.to_vec()) };
        }
        let t = std::time::Instant::now();
        let asts: Vec<P> = cs.iter().map(|&e| self.bo(a, e)).collect();
        let mut model = vec![];
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for x in &asts { Z3_solver_assert(self.ctx, self.s, *x); }
            let r = Z3_solver_check(self.ctx, self.s);
            if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                let sup = cs.iter().fold(0u128, |s, &e| s | a.sup[e as usize]);
                let vars = self.vars.clone();
                for (id, w, p) in vars {
                    if w <= 64 && sup >> id & 1 == 1 {
                        let mut v: P = std::ptr::null_mut(); let mut u = 0u64;
                        if Z3_model_eval(self.ctx, m, p, true, &mut v) && Z3_get_numeral_uint64(self.ctx, v, &mut u) { model.push((id, u)); }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            Z3_solver_pop(self.ctx, self.s, 1);
            r
        };
        self.queries += 1;
        self.nanos += t.elapsed().as_nanos() as u64;
        let res = match r { 1 => { self.sat += 1; Res::Sat } -1 => { self.unsat += 1; Res::Unsat } _ => Res::Unknown };
        if self.dump.is_some() && (self.queries < 50 || self.queries % 97 == 0) && self.dump_n < 400 { self.dump_query(&asts, cs, a, res); }
        match res {
            Res::Unsat => { self.cache.insert(cs.clone().into_boxed_slice(), None); }
            Res::Sat => { self.cache.insert(cs.clone().into_boxed_slice(), Some(model.clone().into_boxed_slice())); }
            _ => {}
        }
        (res, model)
    }
    /// write the query as SMT-LIB2 for a second solver
    fn dump_query(&mut self, asts: &[P], cs: &[E], a: &Arena, r: Res) {
        use std::io::Write;
        let mut s = String::from("(push 1)\n");
        let sup = cs.iter().fold(0u128, |s, &e| s | a.sup[e as usize]);
        for (id, w, _) in &self.vars { if sup >> id & 1 == 1 { s += &format!("(declare-const v{}_{} (_ BitVec {}))\n", id, w, w); } }
        for x in asts { unsafe { s += &format!("(assert {})\n", CStr::from_ptr(Z3_ast_to_string(self.ctx, *x)).to_str().unwrap()); } }
        s += &format!("(set-info :status {})\n(check-sat)\n(pop 1)\n", match r { Res::Sat => "sat", Res::Unsat => "unsat", _ => "unknown" });
        let _ = self.dump.as_mut().unwrap().write_all(s.as_bytes());
        self.dump_n += 1;
    }
}
