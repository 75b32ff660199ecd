//! Z3 back end: translation of arena terms, query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Z = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvnot(c: Z, a: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, compl: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, t: Z, out: *mut u64) -> bool;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    c: Z,
    s: Z,
    one: Z,
    bv8: Z,
    cache: HashMap<E, Z, Fx>,
    doms: HashMap<(u16, Bits), Option<Z>, Fx>,
    queries: HashMap<Vec<u64>, (Verdict, Vec<(u16, u8)>), Fx>,
    pub n_z3: u64,
    pub n_cached: u64,
    pub n_unknown: u64,
    pub n_unsat: u64,
    pub time: f64,
}

pub fn first_bit(b: &Bits) -> Option<u8> {
    for i in 0..4 {
        if b[i] != 0 {
            return Some((i * 64) as u8 + b[i].trailing_zeros() as u8);
        }
    }
    None
}
pub fn bit(b: &Bits, k: u8) -> bool {
    b[k as usize / 64] >> (k % 64) & 1 == 1
}
pub fn count(b: &Bits) -> u32 {
    b.iter().map(|x| x.count_ones()).sum()
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("rlimit").unwrap();
            let v = CString::new((timeout_ms as u64 * 1000).to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new("QF_FD").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let b1 = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, b1);
            let bv8 = Z3_mk_bv_sort(c, 8);
            Solver {
                c,
                s,
                one,
                bv8,
                cache: Default::default(),
                doms: Default::default(),
                queries: Default::default(),
                n_z3: 0,
                n_cached: 0,
                n_unknown: 0,
                n_unsat: 0,
                time: 0.0,
            }
        }
    }
    fn var(&mut self, v: u16) -> Z {
        unsafe {
            let s = Z3_mk_int_symbol(self.c, v as i32);
            Z3_mk_const(self.c, s, self.bv8)
        }
    }
    fn b(&mut self, x: Z) -> Z {
        // boolean -> bv1
        unsafe {
            let b1 = Z3_mk_bv_sort(self.c, 1);
            let z = Z3_mk_unsigned_int64(self.c, 0, b1);
            Z3_mk_ite(self.c, x, self.one, z)
        }
    }
    fn tr(&mut self, ar: &Arena, e: E) -> Z {
        if let Some(z) = self.cache.get(&e) {
            return *z;
        }
        let n = ar.n(e);
        let c = self.c;
        let w = n.w as u32;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    let t = Z3_mk_bv_sort(c, w);
                    Z3_mk_unsigned_int64(c, n.k, t)
                }
                Op::Var => self.var(n.k as u16),
                Op::Ite => {
                    let x = self.tr(ar, n.a);
                    let cond = Z3_mk_eq(c, x, self.one);
                    let a = self.tr(ar, n.b);
                    let b = self.tr(ar, n.c);
                    Z3_mk_ite(c, cond, a, b)
                }
                Op::ZExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::Not => {
                    let a = self.tr(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                op => {
                    let a = self.tr(ar, n.a);
                    let b = self.tr(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Eq => {
                            let x = Z3_mk_eq(c, a, b);
                            self.b(x)
                        }
                        Op::Ult => {
                            let x = Z3_mk_bvult(c, a, b);
                            self.b(x)
                        }
                        Op::Ule => {
                            let x = Z3_mk_bvule(c, a, b);
                            self.b(x)
                        }
                        Op::Slt => {
                            let x = Z3_mk_bvslt(c, a, b);
                            self.b(x)
                        }
                        Op::Sle => {
                            let x = Z3_mk_bvsle(c, a, b);
                            self.b(x)
                        }
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.cache.insert(e, z);
        z
    }
    /// Domain constraint as a disjunction of ranges (None = unconstrained).
    fn dom(&mut self, v: u16, d: &Bits) -> Option<Z> {
        if let Some(z) = self.doms.get(&(v, *d)) {
            return *z;
        }
        let r = if *d == [!0u64; 4] {
            None
        } else {
            let x = self.var(v);
            let mut parts = vec![];
            let mut k = 0usize;
            unsafe {
                while k < 256 {
                    if bit(d, k as u8) {
                        let lo = k;
                        while k + 1 < 256 && bit(d, (k + 1) as u8) {
                            k += 1;
                        }
                        let a = Z3_mk_unsigned_int64(self.c, lo as u64, self.bv8);
                        let b = Z3_mk_unsigned_int64(self.c, k as u64, self.bv8);
                        if lo == k {
                            parts.push(Z3_mk_eq(self.c, x, a));
                        } else {
                            let p = [Z3_mk_bvule(self.c, a, x), Z3_mk_bvule(self.c, x, b)];
                            parts.push(Z3_mk_and(self.c, 2, p.as_ptr()));
                        }
                    }
                    k += 1;
                }
                Some(Z3_mk_or(self.c, parts.len() as u32, parts.as_ptr()))
            }
        };
        self.doms.insert((v, *d), r);
        r
    }
    /// Satisfiability of domains /\ constraints; the model covers `doms`' variables.
    pub fn check(&mut self, ar: &Arena, doms: &[(u16, Bits)], cs: &[E], cacheable: bool) -> (Verdict, Vec<(u16, u8)>) {
        let mut key = Vec::new();
        if cacheable {
            key.reserve(doms.len() * 5 + cs.len() + 1);
            for (v, d) in doms {
                key.push(*v as u64);
                key.extend_from_slice(d);
            }
            key.push(!0);
            let mut s: Vec<u64> = cs.iter().map(|x| *x as u64).collect();
            s.sort_unstable();
            key.extend(s);
            if let Some(r) = self.queries.get(&key) {
                self.n_cached += 1;
                return r.clone();
            }
        }
        let t0 = std::time::Instant::now();
        self.n_z3 += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                if let Some(z) = self.dom(*v, d) {
                    Z3_solver_assert(self.c, self.s, z);
                }
            }
            for e in cs {
                let z = self.tr(ar, *e);
                let q = Z3_mk_eq(self.c, z, self.one);
                Z3_solver_assert(self.c, self.s, q);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut z = std::ptr::null_mut();
                        let mut k = 0u64;
                        if Z3_model_eval(self.c, m, x, true, &mut z) {
                            Z3_get_numeral_uint64(self.c, z, &mut k);
                        }
                        out.push((*v, k as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    (Verdict::Sat, out)
                }
                -1 => {
                    self.n_unsat += 1;
                    (Verdict::Unsat, vec![])
                }
                _ => {
                    self.n_unknown += 1;
                    (Verdict::Unknown, vec![])
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        if cacheable {
            self.queries.insert(key, r.clone());
        }
        r
    }
    #[allow(dead_code)]
    pub fn not_unused(&mut self, z: Z) -> Z {
        unsafe { Z3_mk_not(self.c, z) }
    }
}
