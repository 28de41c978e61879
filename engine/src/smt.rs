//! z3 (C API of the system libz3) as the decision procedure for multi-variable constraints.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Z = *mut c_void;
#[link(name = "libz3.so.4", kind = "dylib", modifiers = "+verbatim")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_del_config(c: Z);
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, l: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, compl: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, v: Z, u: *mut u64) -> bool;
    fn Z3_get_error_code(c: Z) -> c_int;
}
extern "C" fn on_err(_: Z, code: c_int) {
    eprintln!("z3 error code {}", code);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: Z,
    solver: Z,
    cache: FxMap<E, Z>,
    vars: FxMap<u32, Z>,
    bv: Vec<Z>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    n_since: u32,
}

impl Smt {
    pub fn new() -> Smt {
        let mut s = Smt {
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            cache: Default::default(),
            vars: Default::default(),
            bv: vec![],
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time: 0.0,
            n_since: 0,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, sy);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            let ts = Z3_mk_string_symbol(self.ctx, t.as_ptr());
            Z3_params_set_uint(self.ctx, p, ts, 60000);
            let t = CString::new("random_seed").unwrap();
            let ts = Z3_mk_string_symbol(self.ctx, t.as_ptr());
            let _ = ts;
            Z3_solver_set_params(self.ctx, self.solver, p);
            self.bv = (0..=128).map(|w| if w == 0 { Z3_mk_bool_sort(self.ctx) } else { Z3_mk_bv_sort(self.ctx, w) }).collect();
        }
        self.cache.clear();
        self.vars.clear();
        self.n_since = 0;
    }
    /// forget the translations (the expression arena was replaced)
    pub fn forget(&mut self) {
        self.restart();
    }
    fn restart(&mut self) {
        unsafe {
            Z3_del_context(self.ctx);
        }
        self.init();
    }
    fn num(&self, v: u128, w: u32) -> Z {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, self.bv[w as usize])
            } else {
                let hi = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, self.bv[w as usize - 64]);
                let lo = Z3_mk_unsigned_int64(self.ctx, v as u64, self.bv[64]);
                Z3_mk_concat(self.ctx, hi, lo)
            }
        }
    }
    fn var(&mut self, v: u32) -> Z {
        if let Some(&z) = self.vars.get(&v) {
            return z;
        }
        unsafe {
            let s = Z3_mk_int_symbol(self.ctx, v as c_int);
            let z = Z3_mk_const(self.ctx, s, self.bv[8]);
            self.vars.insert(v, z);
            z
        }
    }
    fn and(&self, v: &[Z]) -> Z {
        unsafe {
            match v.len() {
                0 => Z3_mk_true(self.ctx),
                1 => v[0],
                _ => Z3_mk_and(self.ctx, v.len() as c_uint, v.as_ptr()),
            }
        }
    }
    fn or(&self, v: &[Z]) -> Z {
        unsafe {
            match v.len() {
                0 => Z3_mk_false(self.ctx),
                1 => v[0],
                _ => Z3_mk_or(self.ctx, v.len() as c_uint, v.as_ptr()),
            }
        }
    }
    fn in_mask(&mut self, v: u32, m: &Mask) -> Z {
        let z = self.var(v);
        let mut alts = vec![];
        let mut i = 0usize;
        while i < 256 {
            if mask_get(m, i as u8) {
                let a = i;
                while i + 1 < 256 && mask_get(m, (i + 1) as u8) {
                    i += 1;
                }
                let b = i;
                unsafe {
                    if a == b {
                        alts.push(Z3_mk_eq(self.ctx, z, self.num(a as u128, 8)));
                    } else {
                        let mut c = vec![];
                        if a > 0 {
                            c.push(Z3_mk_bvule(self.ctx, self.num(a as u128, 8), z));
                        }
                        if b < 255 {
                            c.push(Z3_mk_bvule(self.ctx, z, self.num(b as u128, 8)));
                        }
                        alts.push(self.and(&c));
                    }
                }
            }
            i += 1;
        }
        self.or(&alts)
    }
    /// boolean (width 1) expressions become z3 Bool, everything else a bit-vector
    fn tr(&mut self, x: &mut Exprs, e: E) -> Z {
        if let Some(&z) = self.cache.get(&e) {
            return z;
        }
        let n = x.n(e);
        let w = n.w as u32;
        let c = self.ctx;
        let z = unsafe {
            match n.op {
                Op::Const => {
                    if w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.k, w)
                    }
                }
                Op::Tab => {
                    if w == 1 {
                        let m = x.mask(n.b);
                        self.in_mask(n.a, &m)
                    } else {
                        self.table(n.a, &x.tables[n.b as usize].clone(), w)
                    }
                }
                Op::Not => {
                    let a = self.tr(x, n.a);
                    Z3_mk_not(c, a)
                }
                Op::Ite => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    let d = self.tr(x, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::And if w == 1 => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    self.and(&[a, b])
                }
                Op::Or if w == 1 => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    self.or(&[a, b])
                }
                Op::Eq => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    Z3_mk_eq(c, a, b)
                }
                Op::Extract => {
                    let a = self.trbv(x, n.a);
                    let r = Z3_mk_extract(c, n.b + w - 1, n.b, a);
                    if w == 1 {
                        Z3_mk_eq(c, r, self.num(1, 1))
                    } else {
                        r
                    }
                }
                Op::ZExt => {
                    let a = self.trbv(x, n.a);
                    Z3_mk_zero_ext(c, w - x.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.trbv(x, n.a);
                    Z3_mk_sign_ext(c, w - x.w(n.a), a)
                }
                op => {
                    let a = self.trbv(x, n.a);
                    let b = self.trbv(x, n.b);
                    let r = match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        Op::Sle => Z3_mk_bvsle(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    };
                    if w == 1 && !matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                        Z3_mk_eq(c, r, self.num(1, 1))
                    } else {
                        r
                    }
                }
            }
        };
        self.cache.insert(e, z);
        z
    }
    fn trbv(&mut self, x: &mut Exprs, e: E) -> Z {
        let z = self.tr(x, e);
        if x.w(e) == 1 {
            unsafe { Z3_mk_ite(self.ctx, z, self.num(1, 1), self.num(0, 1)) }
        } else {
            z
        }
    }
    /// piecewise constant or (variable + constant) representation of a table
    fn table(&mut self, v: u32, t: &Table, w: u32) -> Z {
        let z = self.var(v);
        let m = mask_of(w) as u64;
        let mut pieces: Vec<(usize, usize, bool, u64)> = vec![];
        let mut i = 0;
        while i < 256 {
            let mut jc = i;
            while jc + 1 < 256 && t[jc + 1] == t[i] {
                jc += 1;
            }
            let d = t[i].wrapping_sub(i as u64) & m;
            let mut ja = i;
            while ja + 1 < 256 && t[ja + 1] == d.wrapping_add(ja as u64 + 1) & m {
                ja += 1;
            }
            if ja > jc {
                pieces.push((i, ja, true, d));
                i = ja + 1;
            } else {
                pieces.push((i, jc, false, t[i]));
                i = jc + 1;
            }
        }
        unsafe {
            let zx = if w > 8 {
                Z3_mk_zero_ext(self.ctx, w - 8, z)
            } else if w < 8 {
                Z3_mk_extract(self.ctx, w - 1, 0, z)
            } else {
                z
            };
            let mut r: Option<Z> = None;
            for &(_, b, aff, k) in pieces.iter().rev() {
                let val = if aff {
                    if k == 0 {
                        zx
                    } else {
                        Z3_mk_bvadd(self.ctx, zx, self.num(k as u128, w))
                    }
                } else {
                    self.num(k as u128, w)
                };
                r = Some(match r {
                    None => val,
                    Some(rest) => Z3_mk_ite(self.ctx, Z3_mk_bvule(self.ctx, z, self.num(b as u128, 8)), val, rest),
                });
            }
            r.unwrap()
        }
    }
    /// satisfiability of the conjunction, with the given domains for the variables
    pub fn check(&mut self, x: &mut Exprs, cons: &[E], doms: &[(u16, Mask)], want_model: bool) -> Res {
        self.n_since += 1;
        if self.n_since > 20000 {
            self.restart();
        }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for (v, m) in doms {
                if *m != FULL {
                    let z = self.in_mask(*v as u32, m);
                    Z3_solver_assert(self.ctx, self.solver, z);
                }
            }
            for &e in cons {
                let z = self.tr(x, e);
                Z3_solver_assert(self.ctx, self.solver, z);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            if r == 1 {
                self.sat += 1;
                let mut out = vec![];
                if want_model {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    for (v, _) in doms {
                        let z = self.var(*v as u32);
                        let mut o: Z = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.ctx, m, z, true, &mut o) && Z3_get_numeral_uint64(self.ctx, o, &mut u) {
                            out.push((*v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                Res::Sat(out)
            } else if r == -1 {
                self.unsat += 1;
                Res::Unsat
            } else {
                self.unknown += 1;
                Res::Unknown
            }
        };
        unsafe {
            if Z3_get_error_code(self.ctx) != 0 {
                eprintln!("z3 error state");
            }
        }
        self.time += t0.elapsed().as_secs_f64();
        r
    }
}
