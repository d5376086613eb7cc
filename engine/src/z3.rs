// Minimal Z3 C API binding and the expression -> AST translation.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("z3 error: {}", m);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    slow: P,
    bv: Vec<P>,
    bl: Vec<P>,
    pub queries: u64,
    pub time: std::time::Duration,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    built: usize,
    timeout_ms: u32,
    trace: bool,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let mut z = Z3 {
                c,
                s: std::ptr::null_mut(),
                slow: std::ptr::null_mut(),
                bv: vec![],
                bl: vec![],
                queries: 0,
                time: Default::default(),
                sat: 0,
                unsat: 0,
                unknown: 0,
                built: 0,
                timeout_ms,
                trace: std::env::var("NDX_Z3").is_ok(),
            };
            z.mk_solvers();
            z
        }
    }
    unsafe fn mk_solvers(&mut self) {
        let c = self.c;
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms.min(2000));
        self.s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, self.s);
        Z3_solver_set_params(c, self.s, p);
        let l = CString::new("QF_BV").unwrap();
        self.slow = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
        Z3_solver_inc_ref(c, self.slow);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.timeout_ms);
        Z3_solver_set_params(c, self.slow, p);
    }
    // drop everything built so far (the memory of a context only grows)
    fn recycle(&mut self) {
        unsafe {
            Z3_del_context(self.c);
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, Some(on_error));
            self.bv.clear();
            self.bl.clear();
            self.built = 0;
            self.mk_solvers();
        }
    }
    fn is_bool_op(n: &Node) -> bool {
        n.w == 1 && matches!(n.op, Op::Eq | Op::Ult | Op::Slt | Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite)
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n + 1024, std::ptr::null_mut());
            self.bl.resize(n + 1024, std::ptr::null_mut());
        }
    }
    // build the AST of every node below e, bottom up
    fn build(&mut self, ar: &Arena, root: E, want_bool: bool) -> P {
        self.grow(ar.nodes.len());
        let mut st: Vec<(E, bool)> = vec![(root, want_bool)];
        while let Some(&(e, b)) = st.last() {
            let i = e as usize;
            if b && !self.bl[i].is_null() || !b && !self.bv[i].is_null() {
                st.pop();
                continue;
            }
            let n = ar.node(e);
            let w = n.w as u32;
            let c = self.c;
            let isb = Self::is_bool_op(&n);
            macro_rules! need {
                ($k:expr, $b:expr) => {{
                    let k = $k as usize;
                    let p = if $b { self.bl[k] } else { self.bv[k] };
                    if p.is_null() {
                        st.push(($k, $b));
                        continue;
                    }
                    p
                }};
            }
            unsafe {
                let r = if b {
                    if !isb {
                        let x = need!(e, false);
                        let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                        Z3_mk_eq(c, x, one)
                    } else {
                        match n.op {
                            Op::Eq => {
                                let x = need!(n.a, false);
                                let y = need!(n.b, false);
                                Z3_mk_eq(c, x, y)
                            }
                            Op::Ult => {
                                let x = need!(n.a, false);
                                let y = need!(n.b, false);
                                Z3_mk_bvult(c, x, y)
                            }
                            Op::Slt => {
                                let x = need!(n.a, false);
                                let y = need!(n.b, false);
                                Z3_mk_bvslt(c, x, y)
                            }
                            Op::Not => {
                                let x = need!(n.a, true);
                                Z3_mk_not(c, x)
                            }
                            Op::And | Op::Or | Op::Xor => {
                                let x = need!(n.a, true);
                                let y = need!(n.b, true);
                                let a = [x, y];
                                match n.op {
                                    Op::And => Z3_mk_and(c, 2, a.as_ptr()),
                                    Op::Or => Z3_mk_or(c, 2, a.as_ptr()),
                                    _ => Z3_mk_xor(c, x, y),
                                }
                            }
                            _ => {
                                let x = need!(n.a, true);
                                let y = need!(n.b, true);
                                let z = need!(n.c, true);
                                Z3_mk_ite(c, x, y, z)
                            }
                        }
                    }
                } else if isb {
                    let x = need!(e, true);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                } else {
                    match n.op {
                        Op::Const => {
                            let v = ar.is_const(e).unwrap();
                            if w <= 64 {
                                Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w))
                            } else {
                                let h = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, w - 64));
                                let l = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
                                Z3_mk_concat(c, h, l)
                            }
                        }
                        Op::Sym => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, w)),
                        Op::Not => {
                            let x = need!(n.a, false);
                            Z3_mk_bvnot(c, x)
                        }
                        Op::ZExt => {
                            let x = need!(n.a, false);
                            Z3_mk_zero_ext(c, w - ar.w(n.a), x)
                        }
                        Op::SExt => {
                            let x = need!(n.a, false);
                            Z3_mk_sign_ext(c, w - ar.w(n.a), x)
                        }
                        Op::Extract => {
                            let x = need!(n.a, false);
                            Z3_mk_extract(c, n.b + w - 1, n.b, x)
                        }
                        Op::Ite => {
                            let x = need!(n.a, true);
                            let y = need!(n.b, false);
                            let z = need!(n.c, false);
                            Z3_mk_ite(c, x, y, z)
                        }
                        _ => {
                            let x = need!(n.a, false);
                            let y = need!(n.b, false);
                            match n.op {
                                Op::Add => Z3_mk_bvadd(c, x, y),
                                Op::Mul => Z3_mk_bvmul(c, x, y),
                                Op::UDiv => Z3_mk_bvudiv(c, x, y),
                                Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                                Op::URem => Z3_mk_bvurem(c, x, y),
                                Op::SRem => Z3_mk_bvsrem(c, x, y),
                                Op::Shl => Z3_mk_bvshl(c, x, y),
                                Op::LShr => Z3_mk_bvlshr(c, x, y),
                                Op::AShr => Z3_mk_bvashr(c, x, y),
                                Op::And => Z3_mk_bvand(c, x, y),
                                Op::Or => Z3_mk_bvor(c, x, y),
                                Op::Xor => Z3_mk_bvxor(c, x, y),
                                Op::Concat => Z3_mk_concat(c, x, y),
                                _ => unreachable!("{:?}", n),
                            }
                        }
                    }
                };
                self.built += 1;
                if b {
                    self.bl[i] = r;
                } else {
                    self.bv[i] = r;
                }
            }
            st.pop();
        }
        if want_bool {
            self.bl[root as usize]
        } else {
            self.bv[root as usize]
        }
    }

    // satisfiability of the conjunction; on Sat returns values for `want`
    pub fn check(&mut self, ar: &mut Arena, cs: &[E], want: &[u32]) -> (Res, Vec<(u32, u64)>) {
        let t0 = std::time::Instant::now();
        if self.built > 3_000_000 {
            self.recycle();
        }
        self.queries += 1;
        let asts: Vec<P> = cs.iter().map(|&e| self.build(ar, e, true)).collect();
        let syms: Vec<(u32, E)> = want
            .iter()
            .map(|&s| {
                let (seq, w, k) = (ar.syms[s as usize].seq, ar.syms[s as usize].w, ar.syms[s as usize].kind);
                (s, ar.sym(seq, w, k))
            })
            .collect();
        let mut out = vec![];
        let mut res = Res::Unknown;
        unsafe {
            for s in [self.s, self.slow] {
                Z3_solver_push(self.c, s);
                for &a in &asts {
                    Z3_solver_assert(self.c, s, a);
                }
                let r = Z3_solver_check(self.c, s);
                res = match r {
                    1 => Res::Sat,
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                };
                if res == Res::Sat {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    for &(s, e) in &syms {
                        let a = self.build(ar, e, false);
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, a, true, &mut v) && Z3_get_numeral_uint64(self.c, v, &mut u) {
                            out.push((s, u));
                        } else {
                            out.push((s, 0));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                Z3_solver_pop(self.c, s, 1);
                if res != Res::Unknown {
                    break;
                }
            }
        }
        match res {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.time += t0.elapsed();
        if self.trace {
            let ms = t0.elapsed().as_secs_f64() * 1e3;
            if ms > 60.0 && std::env::var("NDX_AST").is_ok() {
                for &a in &asts {
                    unsafe { eprintln!("AST {}", std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy()) };
                }
            }
            eprintln!("Z3 {:?} {} constraints {} symbols {:.1} ms", res, cs.len(), want.len(), ms);
        }
        (res, out)
    }
}
