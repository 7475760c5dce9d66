//! Minimal Z3 binding (C API of the installed libz3) and the query layer.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::abort();
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Z3 {
    c: P,
    s: P,
    bv: Vec<P>,
    vars: Vec<P>,
    cache: HashMap<*const Expr, (E, P)>,
    pub stats: Stats,
    made: usize,
    timeout_ms: u32,
    /// dump every n-th query as SMT-LIB for the cross-check solver
    pub dump_every: u64,
    pub dumps: Vec<(String, bool)>,
}
unsafe impl Send for Z3 {}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 {
            c: std::ptr::null_mut(),
            s: std::ptr::null_mut(),
            bv: vec![],
            vars: vec![],
            cache: HashMap::new(),
            stats: Default::default(),
            made: 0,
            timeout_ms,
            dump_every: 0,
            dumps: vec![],
        };
        z.reset();
        z
    }
    fn reset(&mut self) {
        unsafe {
            if !self.c.is_null() {
                Z3_del_context(self.c);
            }
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.c, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.c, sym);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
        self.bv = (0..=64)
            .map(|n| if n == 0 { std::ptr::null_mut() } else { unsafe { Z3_mk_bv_sort(self.c, n) } })
            .collect();
        self.vars.clear();
        self.cache.clear();
        self.made = 0;
    }
    fn var(&mut self, i: usize) -> P {
        while self.vars.len() <= i {
            let n = CString::new(format!("b{}", self.vars.len())).unwrap();
            unsafe {
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                self.vars.push(Z3_mk_const(self.c, s, self.bv[8]));
            }
        }
        self.vars[i]
    }
    fn num(&self, v: u64, w: u8) -> P {
        unsafe { Z3_mk_unsigned_int64(self.c, v, self.bv[w as usize]) }
    }
    /// boolean terms are 1-bit vectors inside terms
    fn b2v(&self, p: P) -> P {
        unsafe { Z3_mk_ite(self.c, p, self.num(1, 1), self.num(0, 1)) }
    }
    fn term(&mut self, e: &E) -> P {
        match e.op {
            Op::Var => return self.var(e.k as usize),
            Op::Const => return self.num(e.k, e.w),
            _ => {}
        }
        let key = &**e as *const Expr;
        if let Some((_, p)) = self.cache.get(&key) {
            return *p;
        }
        let a = e.a.as_ref().map(|x| self.term(x));
        let b = e.b.as_ref().map(|x| self.term(x));
        let c = e.c.as_ref().map(|x| self.term(x));
        let cx = self.c;
        let au = a.unwrap();
        let z = std::ptr::null_mut();
        let bu = b.unwrap_or(z);
        let aw = e.a.as_ref().unwrap().w;
        let r = unsafe {
            match e.op {
                Op::Add => Z3_mk_bvadd(cx, au, bu),
                Op::Sub => Z3_mk_bvsub(cx, au, bu),
                Op::Mul => Z3_mk_bvmul(cx, au, bu),
                Op::UDiv => Z3_mk_bvudiv(cx, au, bu),
                Op::URem => Z3_mk_bvurem(cx, au, bu),
                Op::SDiv => Z3_mk_bvsdiv(cx, au, bu),
                Op::SRem => Z3_mk_bvsrem(cx, au, bu),
                Op::Shl => Z3_mk_bvshl(cx, au, bu),
                Op::LShr => Z3_mk_bvlshr(cx, au, bu),
                Op::AShr => Z3_mk_bvashr(cx, au, bu),
                Op::And => Z3_mk_bvand(cx, au, bu),
                Op::Or => Z3_mk_bvor(cx, au, bu),
                Op::Xor => Z3_mk_bvxor(cx, au, bu),
                Op::Eq => self.b2v(Z3_mk_eq(cx, au, bu)),
                Op::Ult => self.b2v(Z3_mk_bvult(cx, au, bu)),
                Op::Ule => self.b2v(Z3_mk_bvule(cx, au, bu)),
                Op::Slt => self.b2v(Z3_mk_bvslt(cx, au, bu)),
                Op::Sle => self.b2v(Z3_mk_bvsle(cx, au, bu)),
                Op::Ite => Z3_mk_ite(cx, Z3_mk_eq(cx, au, self.num(1, 1)), bu, c.unwrap()),
                Op::Zext => Z3_mk_zero_ext(cx, (e.w - aw) as c_uint, au),
                Op::Sext => Z3_mk_sign_ext(cx, (e.w - aw) as c_uint, au),
                Op::Extract => Z3_mk_extract(cx, e.k as c_uint + e.w as c_uint - 1, e.k as c_uint, au),
                Op::Concat => Z3_mk_concat(cx, au, bu),
                Op::Not => Z3_mk_bvxor(cx, au, self.num(1, 1)),
                Op::Bswap => {
                    let mut acc = Z3_mk_extract(cx, 7, 0, au);
                    for i in 1..(e.w / 8) as c_uint {
                        acc = Z3_mk_concat(cx, acc, Z3_mk_extract(cx, i * 8 + 7, i * 8, au));
                    }
                    acc
                }
                Op::Lut => {
                    // runs of equal values
                    let t = e.lut.as_ref().unwrap().clone();
                    let mut acc = self.num(0, e.w);
                    let mut i = t.len();
                    // above the table: 0
                    let mut first = true;
                    while i > 0 {
                        let v = t[i - 1];
                        let mut j = i - 1;
                        while j > 0 && t[j - 1] == v {
                            j -= 1;
                        }
                        let val = self.num(v, e.w);
                        if first {
                            let top = self.num(e.k.wrapping_add(i as u64 - 1) & mask(aw), aw);
                            acc = Z3_mk_ite(cx, Z3_mk_bvule(cx, au, top), val, acc);
                            first = false;
                        } else {
                            let top = self.num(e.k.wrapping_add(i as u64 - 1) & mask(aw), aw);
                            acc = Z3_mk_ite(cx, Z3_mk_bvule(cx, au, top), val, acc);
                        }
                        i = j;
                    }
                    if e.k > 0 {
                        let low = self.num(e.k, aw);
                        acc = Z3_mk_ite(cx, Z3_mk_bvult(cx, au, low), self.num(0, e.w), acc);
                    }
                    acc
                }
                Op::Var | Op::Const => unreachable!(),
            }
        };
        self.made += 1;
        self.cache.insert(key, (e.clone(), r));
        r
    }
    fn dom_term(&mut self, v: usize, d: &Dom) -> P {
        let x = self.var(v);
        let mut parts = vec![];
        let mut i = 0usize;
        while i < 256 {
            if dom_has(d, i) {
                let s = i;
                while i + 1 < 256 && dom_has(d, i + 1) {
                    i += 1;
                }
                unsafe {
                    let p = if s == i {
                        Z3_mk_eq(self.c, x, self.num(s as u64, 8))
                    } else {
                        let a = [
                            Z3_mk_bvule(self.c, self.num(s as u64, 8), x),
                            Z3_mk_bvule(self.c, x, self.num(i as u64, 8)),
                        ];
                        Z3_mk_and(self.c, 2, a.as_ptr())
                    };
                    parts.push(p);
                }
            }
            i += 1;
        }
        unsafe {
            if parts.is_empty() {
                Z3_mk_false(self.c)
            } else {
                Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr())
            }
        }
    }
    /// Is (domains of `vars`) and all `cons` (true) and `extra` (with
    /// polarity) satisfiable?  Returns Some(Some(model)) / Some(None) / None
    /// for sat / unsat / unknown.  The model is a full assignment: variables
    /// outside `vars` keep the value of `base`.
    pub fn check(&mut self, d: &Doms, vars: u64, cons: &[E], extra: &[(E, bool)]) -> Option<Option<Vec<u8>>> {
        if self.made > 200_000 || self.cache.len() > 50_000 {
            self.reset();
        }
        let t0 = Instant::now();
        unsafe { Z3_solver_push(self.c, self.s) };
        let mut mask_vars = vars;
        for e in cons {
            mask_vars |= e.sup;
        }
        for (e, _) in extra {
            mask_vars |= e.sup;
        }
        for v in 0..64 {
            if mask_vars >> v & 1 != 0 {
                let t = self.dom_term(v, &d.d[v]);
                self.made += 8;
                unsafe { Z3_solver_assert(self.c, self.s, t) };
            }
        }
        let one = self.num(1, 1);
        for e in cons {
            let t = self.term(e);
            unsafe { Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, t, one)) };
        }
        for (e, p) in extra {
            let t = self.term(e);
            unsafe {
                let q = Z3_mk_eq(self.c, t, one);
                let q = if *p { q } else { Z3_mk_not(self.c, q) };
                Z3_solver_assert(self.c, self.s, q)
            };
        }
        self.finish(d, mask_vars, t0)
    }
    fn finish(&mut self, d: &Doms, vars: u64, t0: Instant) -> Option<Option<Vec<u8>>> {
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.stats.queries += 1;
        if self.dump_every > 0 && self.stats.queries % self.dump_every == 0 && r != 0 && self.dumps.len() < 400 {
            let s = unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)) };
            self.dumps.push((s.to_string_lossy().into_owned(), r == 1));
        }
        let out = match r {
            1 => {
                self.stats.sat += 1;
                let mut m = d.model.clone();
                unsafe {
                    let mo = Z3_solver_get_model(self.c, self.s);
                    for v in 0..64 {
                        if vars >> v & 1 != 0 {
                            let x = self.var(v);
                            let mut p: P = std::ptr::null_mut();
                            assert!(Z3_model_eval(self.c, mo, x, true, &mut p));
                            let mut u = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, p, &mut u));
                            m[v] = u as u8;
                        }
                    }
                }
                Some(Some(m))
            }
            -1 => {
                self.stats.unsat += 1;
                Some(None)
            }
            _ => {
                self.stats.unknown += 1;
                None
            }
        };
        unsafe { Z3_solver_pop(self.c, self.s, 1) };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        out
    }
    fn begin(&mut self) -> Instant {
        if self.made > 200_000 || self.cache.len() > 50_000 {
            self.reset();
        }
        unsafe { Z3_solver_push(self.c, self.s) };
        Instant::now()
    }
    fn value(&mut self, v: &V, w: u8) -> P {
        match v {
            V::I(k) => self.num(*k, w),
            V::S(e) => self.term(e),
            _ => panic!("value"),
        }
    }
    /// Can the whole path condition hold with one of the pairs of bytes different?
    pub fn differ(&mut self, d: &Doms, cons: &[E], pairs: &[(V, V)]) -> Option<Option<Vec<u8>>> {
        let t0 = self.begin();
        let vars = if d.d.len() >= 64 { !0 } else { (1u64 << d.d.len()) - 1 };
        for v in 0..d.d.len() {
            let t = self.dom_term(v, &d.d[v]);
            self.made += 8;
            unsafe { Z3_solver_assert(self.c, self.s, t) };
        }
        let one = self.num(1, 1);
        for e in cons {
            let t = self.term(e);
            unsafe { Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, t, one)) };
        }
        let mut ne = vec![];
        for (a, b) in pairs {
            let (a, b) = (self.value(a, 8), self.value(b, 8));
            self.made += 2;
            ne.push(unsafe { Z3_mk_not(self.c, Z3_mk_eq(self.c, a, b)) });
        }
        unsafe { Z3_solver_assert(self.c, self.s, Z3_mk_or(self.c, ne.len() as c_uint, ne.as_ptr())) };
        self.finish(d, vars, t0)
    }
    /// Over the initial domains: is there an input on which the branches logged
    /// and the value sets with the constraints kept do not say the same?
    pub fn audit(&mut self, d: &Doms, init: &[Dom], log: Option<&crate::exec::Log>, cons: &[E]) -> Option<bool> {
        use crate::exec::Lit;
        let t0 = self.begin();
        let vars = if d.d.len() >= 64 { !0 } else { (1u64 << d.d.len()) - 1 };
        for v in 0..d.d.len() {
            let t = self.dom_term(v, &init[v]);
            self.made += 8;
            unsafe { Z3_solver_assert(self.c, self.s, t) };
        }
        let one = self.num(1, 1);
        let mut lits = vec![];
        let mut l = log;
        while let Some(x) = l {
            let t = match &x.lit {
                Lit::Term(e, p) => {
                    let t = self.term(e);
                    unsafe {
                        let q = Z3_mk_eq(self.c, t, one);
                        if *p {
                            q
                        } else {
                            Z3_mk_not(self.c, q)
                        }
                    }
                }
                Lit::Dom(v, d) => self.dom_term(*v, d),
            };
            self.made += 2;
            lits.push(t);
            l = x.prev.as_deref();
        }
        let mut kept = vec![];
        for v in 0..d.d.len() {
            if d.d[v] != init[v] {
                let t = self.dom_term(v, &d.d[v]);
                kept.push(t);
                self.made += 8;
            }
        }
        for e in cons {
            let t = self.term(e);
            kept.push(unsafe { Z3_mk_eq(self.c, t, one) });
        }
        unsafe {
            let a = Z3_mk_and(self.c, lits.len() as c_uint, lits.as_ptr());
            let b = if kept.is_empty() { Z3_mk_true(self.c) } else { Z3_mk_and(self.c, kept.len() as c_uint, kept.as_ptr()) };
            Z3_solver_assert(self.c, self.s, Z3_mk_not(self.c, Z3_mk_eq(self.c, a, b)));
        }
        self.finish(d, vars, t0).map(|x| x.is_some())
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
