//! Symbolic bit-vector terms over byte variables.
//!
//! Every variable is one input byte.  A term that depends on a single
//! (not yet fixed) variable carries its truth table over the 256 values of
//! that byte, so branches on it are decided exactly by intersecting the
//! variable's domain; every other term is decided by Z3.
use std::sync::Arc;

pub type E = Arc<Expr>;
pub type Tab = Box<[u64; 256]>;
pub type Dom = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Var,    // k = index
    Const,  // k
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Zext,
    Sext,
    Extract, // k = low bit, width = w
    Concat,  // a = high, b = low
    Bswap,
    Not, // boolean
    Lut, // k = base index (subtracted), lut table
}

pub struct Expr {
    pub op: Op,
    pub w: u8,
    pub sup: u64,
    pub k: u64,
    pub a: Option<E>,
    pub b: Option<E>,
    pub c: Option<E>,
    pub lo: u64,
    pub hi: u64,
    pub size: u32,
    pub tabvar: u8,
    pub tab: Option<Tab>,
    pub lut: Option<Arc<Vec<u64>>>,
}

pub enum Ext {
    Agg(Vec<V>),
    Vec(Vec<V>),
    /// integers of 65..=128 bits as (low 64, high)
    Wide(V, V),
}

#[derive(Clone)]
pub enum V {
    I(u64),
    S(E),
    X(Arc<Ext>),
}

impl V {
    #[inline]
    pub fn zero() -> V {
        V::I(0)
    }
    pub fn agg(&self) -> &Vec<V> {
        match self {
            V::X(x) => match &**x {
                Ext::Agg(v) | Ext::Vec(v) => v,
                _ => panic!("agg of wide"),
            },
            _ => panic!("agg of scalar"),
        }
    }
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w as u32;
        ((v << s) as i64) >> s
    }
}

#[inline]
pub fn fold(op: Op, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sx(a, w) >= 0 {
                    m
                } else {
                    1
                }
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u64
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u64
            }
        }
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u64 { w as u32 - 1 } else { b as u32 };
            (sx(a, w) >> s) as u64
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        _ => panic!("fold {:?}", op),
    }) & m
}

#[inline]
pub fn fold_cmp(op: Op, w: u8, a: u64, b: u64) -> bool {
    match op {
        Op::Eq => a == b,
        Op::Ult => a < b,
        Op::Ule => a <= b,
        Op::Slt => sx(a, w) < sx(b, w),
        Op::Sle => sx(a, w) <= sx(b, w),
        _ => panic!(),
    }
}

pub fn bswap(v: u64, w: u8) -> u64 {
    v.swap_bytes() >> (64 - w as u32)
}

/// value of node `e` from values of its kids
fn apply(e: &Expr, a: u64, b: u64, c: u64) -> u64 {
    match e.op {
        Op::Var | Op::Const => unreachable!(),
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
            fold_cmp(e.op, e.a.as_ref().unwrap().w, a, b) as u64
        }
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Zext => a,
        Op::Sext => sx(a, e.a.as_ref().unwrap().w) as u64 & mask(e.w),
        Op::Extract => (a >> e.k) & mask(e.w),
        Op::Concat => ((a << e.b.as_ref().unwrap().w) | b) & mask(e.w),
        Op::Bswap => bswap(a, e.w),
        Op::Not => (a ^ 1) & 1,
        Op::Lut => {
            let t = e.lut.as_ref().unwrap();
            let i = a.wrapping_sub(e.k);
            if (i as usize) < t.len() {
                t[i as usize]
            } else {
                0
            }
        }
        op => fold(op, e.w, a, b),
    }
}

pub fn eval(e: &Expr, model: &[u8]) -> u64 {
    fn go(e: &Expr, m: &[u8], memo: &mut Option<std::collections::HashMap<*const Expr, u64>>) -> u64 {
        match e.op {
            Op::Var => return m[e.k as usize] as u64,
            Op::Const => return e.k,
            _ => {}
        }
        if let Some(t) = &e.tab {
            // the table is the value for the free variable with the others
            // already fixed on this path, hence it agrees with every model
            return t[m[e.tabvar as usize] as usize];
        }
        if let Some(mm) = memo {
            if let Some(v) = mm.get(&(e as *const _)) {
                return *v;
            }
        }
        let a = e.a.as_ref().map_or(0, |x| go(x, m, memo));
        let r = if e.op == Op::Ite {
            if a != 0 {
                go(e.b.as_ref().unwrap(), m, memo)
            } else {
                go(e.c.as_ref().unwrap(), m, memo)
            }
        } else {
            let b = e.b.as_ref().map_or(0, |x| go(x, m, memo));
            apply(e, a, b, 0)
        };
        if let Some(mm) = memo {
            mm.insert(e as *const _, r);
        }
        r
    }
    let mut memo = if e.size > 200 { Some(Default::default()) } else { None };
    go(e, model, &mut memo)
}

/// The path's view of its variables.
#[derive(Clone)]
pub struct Doms {
    pub d: Vec<Dom>,
    /// variables with more than one value left
    pub free: u64,
    /// a satisfying assignment of the path condition
    pub model: Vec<u8>,
}

#[inline]
pub fn dom_has(d: &Dom, v: usize) -> bool {
    d[v >> 6] >> (v & 63) & 1 != 0
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(d: &Dom) -> u8 {
    for i in 0..4 {
        if d[i] != 0 {
            return (i * 64) as u8 + d[i].trailing_zeros() as u8;
        }
    }
    panic!("empty domain")
}
pub fn dom_iter(d: &Dom) -> impl Iterator<Item = usize> + '_ {
    (0..256).filter(move |v| dom_has(d, *v))
}

fn node(op: Op, w: u8, a: Option<E>, b: Option<E>, c: Option<E>, k: u64) -> Expr {
    let sup = a.as_ref().map_or(0, |x| x.sup) | b.as_ref().map_or(0, |x| x.sup) | c.as_ref().map_or(0, |x| x.sup);
    let size = 1u32
        .saturating_add(a.as_ref().map_or(0, |x| x.size))
        .saturating_add(b.as_ref().map_or(0, |x| x.size))
        .saturating_add(c.as_ref().map_or(0, |x| x.size));
    Expr { op, w, sup, k, a, b, c, lo: 0, hi: mask(w), size, tabvar: 255, tab: None, lut: None }
}

pub fn konst(k: u64, w: u8) -> E {
    Arc::new(Expr {
        op: Op::Const,
        w,
        sup: 0,
        k: k & mask(w),
        a: None,
        b: None,
        c: None,
        lo: k & mask(w),
        hi: k & mask(w),
        size: 1,
        tabvar: 255,
        tab: None,
        lut: None,
    })
}

pub fn var(i: usize) -> E {
    let mut t: Tab = Box::new([0; 256]);
    for v in 0..256 {
        t[v] = v as u64;
    }
    Arc::new(Expr {
        op: Op::Var,
        w: 8,
        sup: 1 << i,
        k: i as u64,
        a: None,
        b: None,
        c: None,
        lo: 0,
        hi: 255,
        size: 1,
        tabvar: i as u8,
        tab: Some(t),
        lut: None,
    })
}

fn same(a: &E, b: &E, depth: u32) -> bool {
    if Arc::ptr_eq(a, b) {
        return true;
    }
    if a.op != b.op || a.w != b.w || a.k != b.k || a.sup != b.sup {
        return false;
    }
    if depth == 0 {
        return false;
    }
    if a.op == Op::Lut {
        return false;
    }
    let f = |x: &Option<E>, y: &Option<E>| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => same(x, y, depth - 1),
        _ => false,
    };
    f(&a.a, &b.a) && f(&a.b, &b.b) && f(&a.c, &b.c)
}

enum K<'a> {
    C(u64),
    T(std::borrow::Cow<'a, [u64; 256]>),
}

impl Doms {
    #[inline]
    pub fn eff(&self, e: &Expr) -> u64 {
        e.sup & self.free
    }

    /// table of `e` over variable `v`, all other variables being fixed
    fn table<'a>(&self, e: &'a Expr, v: u8) -> K<'a> {
        if e.op == Op::Const {
            return K::C(e.k);
        }
        if self.eff(e) == 0 {
            return K::C(eval(e, &self.model));
        }
        if let Some(t) = &e.tab {
            if e.tabvar == v {
                return K::T(std::borrow::Cow::Borrowed(t));
            }
        }
        if e.op == Op::Var {
            return K::C(self.model[e.k as usize] as u64);
        }
        let ka = e.a.as_ref().map(|x| self.table(x, v));
        let kb = e.b.as_ref().map(|x| self.table(x, v));
        let kc = e.c.as_ref().map(|x| self.table(x, v));
        let g = |k: &Option<K>, i: usize| match k {
            None => 0,
            Some(K::C(c)) => *c,
            Some(K::T(t)) => t[i],
        };
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = apply(e, g(&ka, i), g(&kb, i), g(&kc, i));
        }
        K::T(std::borrow::Cow::Owned(t))
    }

    pub fn table_of(&self, e: &Expr, v: u8) -> [u64; 256] {
        match self.table(e, v) {
            K::C(c) => [c; 256],
            K::T(t) => *t,
        }
    }

    /// Wrap a freshly built node: fold it when the path makes it constant,
    /// attach its truth table when it depends on one free variable, bound it
    /// otherwise.
    fn finish(&self, mut n: Expr) -> V {
        let eff = n.sup & self.free;
        if eff == 0 {
            return V::I(eval(&n, &self.model));
        }
        if eff & (eff - 1) == 0 {
            let v = eff.trailing_zeros() as u8;
            let ka = n.a.as_ref().map(|x| self.table(x, v));
            let kb = n.b.as_ref().map(|x| self.table(x, v));
            let kc = n.c.as_ref().map(|x| self.table(x, v));
            let mut t: Tab = Box::new([0u64; 256]);
            {
                let g = |k: &Option<K>, i: usize| match k {
                    None => 0,
                    Some(K::C(c)) => *c,
                    Some(K::T(t)) => t[i],
                };
                for i in 0..256 {
                    t[i] = apply(&n, g(&ka, i), g(&kb, i), g(&kc, i));
                }
            }
            drop((ka, kb, kc));
            let d = &self.d[v as usize];
            let mut lo = !0u64;
            let mut hi = 0u64;
            for q in 0..4 {
                let mut bits = d[q];
                while bits != 0 {
                    let i = q * 64 + bits.trailing_zeros() as usize;
                    bits &= bits - 1;
                    lo = lo.min(t[i]);
                    hi = hi.max(t[i]);
                }
            }
            if lo == hi {
                return V::I(lo);
            }
            n.lo = lo;
            n.hi = hi;
            n.tabvar = v;
            n.tab = Some(t);
            return V::S(Arc::new(n));
        }
        // several free variables: interval
        let m = mask(n.w);
        let r = |x: &Option<E>| x.as_ref().map_or((0, 0), |e| (e.lo, e.hi));
        let (al, ah) = r(&n.a);
        let (bl, bh) = r(&n.b);
        let (lo, hi) = match n.op {
            Op::Zext => (al, ah),
            Op::Extract => {
                if n.k == 0 && ah <= m {
                    (al, ah)
                } else if n.k > 0 && (ah >> n.k) <= m {
                    (al >> n.k, ah >> n.k)
                } else {
                    (0, m)
                }
            }
            Op::Add => match ah.checked_add(bh) {
                Some(h) if h <= m => (al + bl, h),
                _ => (0, m),
            },
            Op::Sub => {
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    (0, m)
                }
            }
            Op::Mul => match ah.checked_mul(bh) {
                Some(h) if h <= m => (al * bl, h),
                _ => (0, m),
            },
            Op::And => (0, ah.min(bh)),
            Op::Or | Op::Xor => {
                let x = ah | bh;
                let h = if x == 0 { 0 } else { !0u64 >> x.leading_zeros() };
                (if n.op == Op::Or { al.max(bl) } else { 0 }, h & m)
            }
            Op::Shl => {
                if bl == bh && bl < 64 && (ah << bl) >> bl == ah && (ah << bl) <= m {
                    (al << bl, ah << bl)
                } else {
                    (0, m)
                }
            }
            Op::LShr => {
                if bl == bh && bl < 64 {
                    (al >> bl, ah >> bl)
                } else {
                    (0, ah)
                }
            }
            Op::Concat => {
                let lw = n.b.as_ref().unwrap().w;
                ((al << lw) | bl, (ah << lw) | bh)
            }
            Op::Ite => {
                let (cl, ch) = r(&n.c);
                (bl.min(cl), bh.max(ch))
            }
            Op::Ult => {
                if ah < bl {
                    (1, 1)
                } else if al >= bh {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Ule => {
                if ah <= bl {
                    (1, 1)
                } else if al > bh {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt | Op::Sle => {
                let w = n.a.as_ref().unwrap().w;
                let s = 1u64 << (w - 1);
                // only when both ranges are non-negative
                if ah < s && bh < s {
                    let (t, f) = if n.op == Op::Slt { (ah < bl, al >= bh) } else { (ah <= bl, al > bh) };
                    if t {
                        (1, 1)
                    } else if f {
                        (0, 0)
                    } else {
                        (0, 1)
                    }
                } else {
                    (0, 1)
                }
            }
            Op::Eq => {
                if ah < bl || bh < al {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Not => (1 - ah.min(1), 1 - al.min(1)),
            Op::Lut => {
                let t = n.lut.as_ref().unwrap();
                let mut l = !0;
                let mut h = 0;
                for i in al..=ah {
                    let j = i.wrapping_sub(n.k) as usize;
                    let v = if j < t.len() { t[j] } else { 0 };
                    l = l.min(v);
                    h = h.max(v);
                }
                (l, h)
            }
            _ => (0, m),
        };
        if lo == hi {
            return V::I(lo);
        }
        n.lo = lo;
        n.hi = hi;
        V::S(Arc::new(n))
    }

    /// Re-examine a value under the current domains.
    pub fn resolve(&self, v: &V) -> V {
        match v {
            V::S(e) => {
                let eff = self.eff(e);
                if eff == 0 {
                    return V::I(eval(e, &self.model));
                }
                if eff & (eff - 1) == 0 {
                    let v = eff.trailing_zeros() as usize;
                    let owned;
                    let t: &[u64; 256] = match (&e.tab, e.tabvar as usize == v) {
                        (Some(t), true) => t,
                        _ => {
                            owned = self.table_of(e, v as u8);
                            &owned
                        }
                    };
                    let mut it = dom_iter(&self.d[v]);
                    let f = t[it.next().unwrap()];
                    if it.all(|i| t[i] == f) {
                        return V::I(f);
                    }
                }
                V::S(e.clone())
            }
            _ => v.clone(),
        }
    }

    fn ex(&self, v: &V, w: u8) -> E {
        match v {
            V::I(k) => konst(*k, w),
            V::S(e) => e.clone(),
            _ => panic!("ex of wide"),
        }
    }
    #[inline]
    fn light(&self, v: &V) -> V {
        match v {
            V::S(e) if self.eff(e) == 0 => V::I(eval(e, &self.model)),
            _ => v.clone(),
        }
    }

    pub fn bin(&self, op: Op, w: u8, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            return V::I(fold(op, w, *x, *y));
        }
        let (mut a, mut b) = (self.light(a), self.light(b));
        if let (V::I(x), V::I(y)) = (&a, &b) {
            return V::I(fold(op, w, *x, *y));
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) && matches!(a, V::I(_)) {
            std::mem::swap(&mut a, &mut b);
        }
        let m = mask(w);
        if let V::I(k) = b {
            let k = k & m;
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And | Op::Mul if k == 0 => return V::I(0),
                Op::And if k == m => return a,
                Op::Or if k == m => return V::I(m),
                Op::Mul | Op::UDiv | Op::SDiv if k == 1 => return a,
                Op::Xor if w == 1 => return self.not(&a),
                _ => {}
            }
            let ea = self.ex(&a, w);
            // push bitwise constants through concatenations and extensions
            match (op, ea.op) {
                (Op::And | Op::Or | Op::Xor, Op::Concat) => {
                    let (h, l) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                    let lw = l.w;
                    let hw = h.w;
                    let nh = self.bin(op, hw, &V::S(h), &V::I(k >> lw));
                    let nl = self.bin(op, lw, &V::S(l), &V::I(k & mask(lw)));
                    return self.concat(&nh, hw, &nl, lw);
                }
                (Op::And, Op::Zext) => {
                    let x = ea.a.clone().unwrap();
                    let xw = x.w;
                    let r = self.bin(Op::And, xw, &V::S(x), &V::I(k & mask(xw)));
                    return self.zext(&r, xw, w);
                }
                (Op::LShr, Op::Concat) => {
                    let (h, l) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                    if k >= l.w as u64 {
                        let hw = h.w;
                        let r = self.bin(Op::LShr, hw, &V::S(h), &V::I(k - l.w as u64));
                        return self.zext(&r, hw, w);
                    }
                }
                (Op::Add, Op::Add) => {
                    if let Some(c2) = ea.b.as_ref().filter(|x| x.op == Op::Const) {
                        let x = V::S(ea.a.clone().unwrap());
                        return self.bin(Op::Add, w, &x, &V::I(k.wrapping_add(c2.k) & m));
                    }
                }
                (Op::Sub, _) => {
                    return self.bin(Op::Add, w, &a, &V::I(k.wrapping_neg() & m));
                }
                _ => {}
            }
        } else if let (V::S(x), V::S(y)) = (&a, &b) {
            if same(x, y, 6) {
                match op {
                    Op::And | Op::Or => return a,
                    Op::Xor | Op::Sub => return V::I(0),
                    _ => {}
                }
            }
        }
        let (ea, eb) = (self.ex(&a, w), self.ex(&b, w));
        self.finish(node(op, w, Some(ea), Some(eb), None, 0))
    }

    pub fn not(&self, a: &V) -> V {
        match self.light(a) {
            V::I(k) => V::I((k ^ 1) & 1),
            V::S(e) => {
                if e.op == Op::Not {
                    return self.light(&V::S(e.a.clone().unwrap()));
                }
                self.finish(node(Op::Not, 1, Some(e), None, None, 0))
            }
            _ => panic!(),
        }
    }

    /// comparison; `w` is the operand width
    pub fn cmp(&self, op: Op, w: u8, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            return V::I(fold_cmp(op, w, *x, *y) as u64);
        }
        let (mut a, mut b) = (self.light(a), self.light(b));
        if let (V::I(x), V::I(y)) = (&a, &b) {
            return V::I(fold_cmp(op, w, *x, *y) as u64);
        }
        if op == Op::Eq {
            if matches!(a, V::I(_)) {
                std::mem::swap(&mut a, &mut b);
            }
            let ea = self.ex(&a, w);
            if let V::I(k) = b {
                let k = k & mask(w);
                if w == 1 {
                    return if k == 1 { a } else { self.not(&a) };
                }
                let eff = self.eff(&ea);
                if eff & (eff - 1) != 0 {
                    match ea.op {
                        Op::Concat => {
                            let (h, l) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                            let (hw, lw) = (h.w, l.w);
                            let x = self.cmp(Op::Eq, hw, &V::S(h), &V::I(k >> lw));
                            if let V::I(0) = x {
                                return x;
                            }
                            let y = self.cmp(Op::Eq, lw, &V::S(l), &V::I(k & mask(lw)));
                            return self.bin(Op::And, 1, &x, &y);
                        }
                        Op::Zext => {
                            let x = ea.a.clone().unwrap();
                            let xw = x.w;
                            if k > mask(xw) {
                                return V::I(0);
                            }
                            return self.cmp(Op::Eq, xw, &V::S(x), &b);
                        }
                        Op::Or if k == 0 => {
                            let x = self.cmp(Op::Eq, w, &V::S(ea.a.clone().unwrap()), &V::I(0));
                            if let V::I(0) = x {
                                return x;
                            }
                            let y = self.cmp(Op::Eq, w, &V::S(ea.b.clone().unwrap()), &V::I(0));
                            return self.bin(Op::And, 1, &x, &y);
                        }
                        Op::Or => {
                            // disjoint bits: (x << s) | y with y < 2^s
                            let (x, y) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                            for (x, y) in [(&x, &y), (&y, &x)] {
                                if x.op == Op::Shl {
                                    if let Some(s) = x.b.as_ref().filter(|s| s.op == Op::Const) {
                                        if s.k < w as u64 && y.hi < (1 << s.k) {
                                            let lowm = (1u64 << s.k) - 1;
                                            let p = self.cmp(Op::Eq, w, &V::S(x.clone()), &V::I(k & !lowm));
                                            if let V::I(0) = p {
                                                return p;
                                            }
                                            let q = self.cmp(Op::Eq, w, &V::S(y.clone()), &V::I(k & lowm));
                                            return self.bin(Op::And, 1, &p, &q);
                                        }
                                    }
                                }
                            }
                        }
                        Op::Shl => {
                            if let Some(s) = ea.b.as_ref().filter(|s| s.op == Op::Const) {
                                let x = ea.a.as_ref().unwrap();
                                if s.k < 64 && (x.hi << s.k) >> s.k == x.hi && (x.hi << s.k) <= mask(w) {
                                    if k & ((1 << s.k) - 1) != 0 {
                                        return V::I(0);
                                    }
                                    return self.cmp(Op::Eq, w, &V::S(x.clone()), &V::I(k >> s.k));
                                }
                            }
                        }
                        Op::Xor => {
                            let (x, y) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                            if y.op == Op::Const {
                                return self.cmp(Op::Eq, w, &V::S(x), &V::I(k ^ y.k));
                            }
                            if k == 0 {
                                return self.cmp(Op::Eq, w, &V::S(x), &V::S(y));
                            }
                        }
                        Op::Add => {
                            let (x, y) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                            if y.op == Op::Const {
                                return self.cmp(Op::Eq, w, &V::S(x), &V::I(k.wrapping_sub(y.k) & mask(w)));
                            }
                        }
                        Op::Bswap => {
                            return self.cmp(Op::Eq, w, &V::S(ea.a.clone().unwrap()), &V::I(bswap(k, w)));
                        }
                        Op::Ite => {
                            let (c, x, y) = (ea.a.clone().unwrap(), ea.b.clone().unwrap(), ea.c.clone().unwrap());
                            if x.op == Op::Const || y.op == Op::Const {
                                let p = self.cmp(Op::Eq, w, &V::S(x), &b);
                                let q = self.cmp(Op::Eq, w, &V::S(y), &b);
                                return self.ite(&V::S(c), &p, &q, 1);
                            }
                        }
                        _ => {}
                    }
                }
            } else if let V::S(eb) = &b {
                if same(&ea, eb, 8) {
                    return V::I(1);
                }
                if ea.op == Op::Concat && eb.op == Op::Concat && ea.b.as_ref().unwrap().w == eb.b.as_ref().unwrap().w {
                    let (h1, l1) = (ea.a.clone().unwrap(), ea.b.clone().unwrap());
                    let (h2, l2) = (eb.a.clone().unwrap(), eb.b.clone().unwrap());
                    let x = self.cmp(Op::Eq, h1.w, &V::S(h1.clone()), &V::S(h2));
                    let y = self.cmp(Op::Eq, l1.w, &V::S(l1.clone()), &V::S(l2));
                    return self.bin(Op::And, 1, &x, &y);
                }
                if ea.op == Op::Zext && eb.op == Op::Zext && ea.a.as_ref().unwrap().w == eb.a.as_ref().unwrap().w {
                    let x = ea.a.clone().unwrap();
                    let xw = x.w;
                    return self.cmp(Op::Eq, xw, &V::S(x), &V::S(eb.a.clone().unwrap()));
                }
            }
            let eb = self.ex(&b, w);
            return self.finish(node(Op::Eq, 1, Some(ea), Some(eb), None, 0));
        }
        let (ea, eb) = (self.ex(&a, w), self.ex(&b, w));
        self.finish(node(op, 1, Some(ea), Some(eb), None, 0))
    }

    pub fn zext(&self, a: &V, fw: u8, tw: u8) -> V {
        match self.light(a) {
            V::I(k) => V::I(k & mask(fw)),
            V::S(e) => {
                if tw == fw {
                    return V::S(e);
                }
                if e.op == Op::Zext {
                    let x = e.a.clone().unwrap();
                    return self.finish(node(Op::Zext, tw, Some(x), None, None, 0));
                }
                self.finish(node(Op::Zext, tw, Some(e), None, None, 0))
            }
            _ => panic!(),
        }
    }
    pub fn sext(&self, a: &V, fw: u8, tw: u8) -> V {
        match self.light(a) {
            V::I(k) => V::I(sx(k, fw) as u64 & mask(tw)),
            V::S(e) => {
                if tw == fw {
                    return V::S(e);
                }
                self.finish(node(Op::Sext, tw, Some(e), None, None, 0))
            }
            _ => panic!(),
        }
    }
    pub fn extract(&self, a: &V, fw: u8, lo: u8, w: u8) -> V {
        match self.light(a) {
            V::I(k) => V::I((k >> lo) & mask(w)),
            V::S(e) => {
                if lo == 0 && w == fw {
                    return V::S(e);
                }
                match e.op {
                    Op::Concat => {
                        let (h, l) = (e.a.clone().unwrap(), e.b.clone().unwrap());
                        let (hw, lw) = (h.w, l.w);
                        if lo >= lw {
                            return self.extract(&V::S(h), hw, lo - lw, w);
                        }
                        if lo + w <= lw {
                            return self.extract(&V::S(l), lw, lo, w);
                        }
                        let lp = self.extract(&V::S(l), lw, lo, lw - lo);
                        let hp = self.extract(&V::S(h), hw, 0, w - (lw - lo));
                        return self.concat(&hp, w - (lw - lo), &lp, lw - lo);
                    }
                    Op::Zext => {
                        let x = e.a.clone().unwrap();
                        let xw = x.w;
                        if lo >= xw {
                            return V::I(0);
                        }
                        if lo + w <= xw {
                            return self.extract(&V::S(x), xw, lo, w);
                        }
                        let r = self.extract(&V::S(x), xw, lo, xw - lo);
                        return self.zext(&r, xw - lo, w);
                    }
                    Op::Extract => {
                        let x = e.a.clone().unwrap();
                        let xw = x.w;
                        return self.extract(&V::S(x), xw, lo + e.k as u8, w);
                    }
                    Op::And | Op::Or | Op::Xor if lo == 0 || e.b.as_ref().unwrap().op == Op::Const => {
                        let (x, y) = (e.a.clone().unwrap(), e.b.clone().unwrap());
                        let p = self.extract(&V::S(x), fw, lo, w);
                        let q = if y.op == Op::Const { V::I((y.k >> lo) & mask(w)) } else { self.extract(&V::S(y), fw, lo, w) };
                        return self.bin(e.op, w, &p, &q);
                    }
                    Op::Ite => {
                        let (c, x, y) = (e.a.clone().unwrap(), e.b.clone().unwrap(), e.c.clone().unwrap());
                        let p = self.extract(&V::S(x), fw, lo, w);
                        let q = self.extract(&V::S(y), fw, lo, w);
                        return self.ite(&V::S(c), &p, &q, w);
                    }
                    Op::Const => return V::I((e.k >> lo) & mask(w)),
                    _ => {}
                }
                self.finish(node(Op::Extract, w, Some(e), None, None, lo as u64))
            }
            _ => panic!(),
        }
    }
    pub fn concat(&self, h: &V, hw: u8, l: &V, lw: u8) -> V {
        let (h, l) = (self.light(h), self.light(l));
        let w = hw + lw;
        if let (V::I(x), V::I(y)) = (&h, &l) {
            return V::I(((x << lw) | (y & mask(lw))) & mask(w));
        }
        if let V::I(0) = h {
            return self.zext(&l, lw, w);
        }
        // extract(x, i+lw, hw) ++ extract(x, i, lw)
        if let (V::S(a), V::S(b)) = (&h, &l) {
            let (ax, ak, aw) = if a.op == Op::Extract { (a.a.as_ref().unwrap(), a.k, a.w) } else { (a, 0, a.w) };
            let (bx, bk, _) = if b.op == Op::Extract { (b.a.as_ref().unwrap(), b.k, b.w) } else { (b, 0, b.w) };
            if Arc::ptr_eq(ax, bx) && a.op == Op::Extract && ak == bk + lw as u64 && aw == hw {
                let x = ax.clone();
                let xw = x.w;
                if b.op == Op::Extract || bk == 0 {
                    return self.extract(&V::S(x), xw, bk as u8, w);
                }
            }
        }
        let (eh, el) = (self.ex(&h, hw), self.ex(&l, lw));
        self.finish(node(Op::Concat, w, Some(eh), Some(el), None, 0))
    }
    pub fn bswap(&self, a: &V, w: u8) -> V {
        match self.light(a) {
            V::I(k) => V::I(bswap(k, w)),
            V::S(e) => {
                // concatenation of reversed bytes
                let mut acc = self.extract(&V::S(e.clone()), w, 0, 8);
                let mut aw = 8;
                for i in 1..w / 8 {
                    let b = self.extract(&V::S(e.clone()), w, i * 8, 8);
                    acc = self.concat(&acc, aw, &b, 8);
                    aw += 8;
                }
                acc
            }
            _ => panic!(),
        }
    }
    pub fn ite(&self, c: &V, a: &V, b: &V, w: u8) -> V {
        let c = self.light(c);
        match &c {
            V::I(0) => return self.light(b),
            V::I(_) => return self.light(a),
            _ => {}
        }
        let (a, b) = (self.light(a), self.light(b));
        match (&a, &b) {
            (V::I(x), V::I(y)) if x == y => return a,
            (V::I(x), V::I(y)) if w == 1 => {
                return if *x == 1 && *y == 0 { c } else { self.not(&c) };
            }
            (V::S(x), V::S(y)) if same(x, y, 6) => return a,
            _ => {}
        }
        if w == 1 {
            match (&a, &b) {
                (V::I(0), _) => {
                    let n = self.not(&c);
                    return self.bin(Op::And, 1, &n, &b);
                }
                (V::I(1), _) => return self.bin(Op::Or, 1, &c, &b),
                (_, V::I(0)) => return self.bin(Op::And, 1, &c, &a),
                (_, V::I(1)) => {
                    let n = self.not(&c);
                    return self.bin(Op::Or, 1, &n, &a);
                }
                _ => {}
            }
        }
        let (ec, ea, eb) = (self.ex(&c, 1), self.ex(&a, w), self.ex(&b, w));
        self.finish(node(Op::Ite, w, Some(ec), Some(ea), Some(eb), 0))
    }
    /// table look-up: value `lut[a - base]`
    pub fn lut(&self, a: &V, aw: u8, base: u64, w: u8, lut: Vec<u64>) -> V {
        let ea = self.ex(a, aw);
        let mut n = node(Op::Lut, w, Some(ea), None, None, base);
        n.lut = Some(Arc::new(lut));
        self.finish(n)
    }
}
