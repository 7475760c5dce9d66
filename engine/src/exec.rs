//! The symbolic executor: path-wise execution of LLVM IR with forking at
//! undecided branches.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

pub const STACK_BASE: u64 = 0x0100_0000; // 16 MB
pub const STACK_END: u64 = 0x0300_0000;
pub const HEAP_BASE: u64 = 0x0300_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: Arc<Func>,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sp0: u64,
    pub base: u64,
    pub ret: u32,
    pub cont: u32,
}

#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub mem: Mem,
    pub fr: Frame,
    pub stack: Vec<Arc<Frame>>,
    pub sp: u64,
    pub heap: u64,
    pub last_alloc: u64,
    pub d: Doms,
    /// domain of each variable when it was created (after sym_dom)
    pub init: Vec<Dom>,
    pub cons: Arc<Vec<E>>,
    pub mvars: u64,
    pub outs: Vec<Arc<Vec<V>>>,
    /// files of the path, by name, and the open ones with the position in them
    pub files: Vec<(Vec<u8>, Arc<Vec<V>>)>,
    pub fds: Vec<(usize, usize)>,
    pub errno: u64,
    pub covers: u64,
    pub steps: u64,
    pub relational: bool,
    pub asserts: u32,
    /// every branch taken, newest first, for the audit by the solver
    pub log: Option<Arc<Log>>,
}

pub enum Lit {
    Term(E, bool),
    Dom(usize, Dom),
}
pub struct Log {
    pub lit: Lit,
    pub prev: Option<Arc<Log>>,
}
impl Drop for Log {
    // not recursively: paths are long
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(x) = p {
            match Arc::try_unwrap(x) {
                Ok(mut l) => p = l.prev.take(),
                Err(_) => break,
            }
        }
    }
}
impl State {
    fn note(&mut self, lit: Lit) {
        self.log = Some(Arc::new(Log { lit, prev: self.log.take() }));
    }
}

#[derive(Debug, Clone)]
pub enum End {
    Ok,
    Assumed,
    Panic(String),
    Fail(String),
    Limit,
    Unsup(String),
    Drop,
}

#[derive(Clone)]
pub struct Violation {
    pub job: u32,
    pub kind: String,
    pub what: String,
    pub input: Vec<u8>,
    pub trace: Vec<String>,
}

#[derive(Default, Clone)]
pub struct JobStats {
    pub paths: BTreeMap<String, u64>,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u64,
    pub dom_decisions: u64,
    pub z3_decisions: u64,
    pub asserts: u64,
    pub asserts_folded: u64,
    pub asserts_z3: u64,
    pub covers: u64,
    pub weight: f64,
    pub relational: u64,
    pub unsup: BTreeMap<String, u64>,
    pub pc_checks: u64,
    pub audits: u64,
    pub asserts_same: u64,
    pub vars: usize,
    pub cover_counts: [u64; 32],
}

pub struct Job {
    pub name: String,
    pub entry: u32,
    pub args: Vec<u64>,
}

pub struct Shared {
    pub q: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub threads: usize,
    pub stop: AtomicBool,
    pub viol: Mutex<Vec<Violation>>,
    pub nviol: Vec<AtomicUsize>,
    pub wit: Mutex<Vec<(u32, Vec<u8>, Vec<Vec<u8>>)>>,
    pub nwit: Vec<AtomicUsize>,
    pub live: Vec<AtomicU64>,
    pub deadline: std::time::Instant,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub step_limit: u64,
    pub wit_per_job: usize,
    pub wit_every: u64,
    pub viol_cap: usize,
    pub pc_check_every: u64,
}

pub struct Exec<'a> {
    pub m: &'a Module,
    pub sh: &'a Shared,
    pub cfg: &'a Cfg,
    pub z3: Z3,
    pub local: Vec<State>,
    pub js: Vec<JobStats>,
    pub used: Vec<bool>,
    pub ends: u64,
    pub fcount: HashMap<String, u64>,
}

#[inline]
fn ci(regs: &[V], o: O) -> Option<u64> {
    match o {
        O::C(k) => Some(k),
        O::R(r) => match &regs[r as usize] {
            V::I(k) => Some(*k),
            _ => None,
        },
        O::K(_) => None,
    }
}
#[inline]
fn get(fr: &Frame, o: O) -> V {
    match o {
        O::C(k) => V::I(k),
        O::R(r) => fr.regs[r as usize].clone(),
        O::K(i) => fr.f.pool[i as usize].clone(),
    }
}

type R<T> = Result<T, End>;

impl From<Fault> for End {
    fn from(f: Fault) -> End {
        End::Panic(format!("memory fault at {:#x}", f.0))
    }
}

/// what `step` wants from the main loop
enum Act {
    Next,
    /// frame changed (call / return)
    Frame,
    /// the state has been re-queued under refined constraints; re-execute
    Redo,
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module, sh: &'a Shared, cfg: &'a Cfg, njobs: usize) -> Exec<'a> {
        Exec {
            m,
            sh,
            cfg,
            z3: Z3::new(20_000),
            local: vec![],
            js: vec![JobStats::default(); njobs],
            used: vec![false; m.funcs.len()],
            ends: 0,
            fcount: HashMap::new(),
        }
    }

    pub fn blank_state(&self, mem: Mem, heap: u64) -> State {
        State {
            job: 0,
            mem,
            fr: Frame {
                f: Arc::new(Func {
                    name: "<none>".into(),
                    id: 0,
                    nregs: 0,
                    code: vec![],
                    edges: vec![],
                    pool: vec![],
                    frame: 0,
                    params: vec![],
                }),
                pc: 0,
                regs: vec![],
                sp0: STACK_BASE,
                base: STACK_BASE,
                ret: NONE,
                cont: NONE,
            },
            stack: vec![],
            sp: STACK_BASE,
            heap,
            last_alloc: 0,
            d: Doms { d: vec![], free: 0, model: vec![] },
            init: vec![],
            cons: Arc::new(vec![]),
            mvars: 0,
            files: vec![],
            fds: vec![],
            errno: 0,
            outs: vec![],
            covers: 0,
            steps: 0,
            relational: false,
            asserts: 0,
            log: None,
        }
    }

    pub fn enter(&mut self, st: &mut State, fid: u32, args: Vec<V>, ret: u32, cont: u32) -> R<()> {
        let f = self.m.func(fid);
        self.used[fid as usize] = true;
        let sp0 = st.sp;
        let base = (sp0 + 15) & !15;
        let mut regs = vec![V::I(0); f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        st.sp = base + f.frame;
        if st.sp > STACK_END || st.stack.len() > 20_000 {
            return Err(End::Panic("stack overflow".into()));
        }
        let nf = Frame { f, pc: 0, regs, sp0, base, ret, cont };
        let old = std::mem::replace(&mut st.fr, nf);
        st.stack.push(Arc::new(old));
        Ok(())
    }

    // ---------- constraints ----------

    fn component(&self, st: &State, mut vars: u64) -> (u64, Vec<E>) {
        let mut sel: Vec<bool> = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !sel[i] && st.d.eff(c) & vars != 0 {
                    sel[i] = true;
                    vars |= st.d.eff(c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (vars, st.cons.iter().zip(&sel).filter(|x| *x.1).map(|x| x.0.clone()).collect())
    }

    /// restrict variable v to `nd` (non-empty, model must be set by caller)
    fn set_dom(&mut self, st: &mut State, v: usize, nd: Dom) {
        st.d.d[v] = nd;
        if dom_count(&nd) == 1 {
            st.d.free &= !(1 << v);
            debug_assert!(st.d.model[v] == dom_first(&nd));
        }
    }

    /// Re-examine relational constraints whose support shrank.
    fn resimplify(&mut self, st: &mut State) {
        loop {
            if st.cons.is_empty() {
                st.mvars = 0;
                return;
            }
            let mut keep = vec![];
            let mut changed = false;
            let old = st.cons.clone();
            let mut mv = 0;
            for c in old.iter() {
                let eff = st.d.eff(c);
                if eff == 0 {
                    changed = true;
                    continue; // the model satisfies it
                }
                if eff & (eff - 1) == 0 {
                    let v = eff.trailing_zeros() as usize;
                    let t = st.d.table_of(c, v as u8);
                    let mut nd = st.d.d[v];
                    for i in 0..256 {
                        if t[i] == 0 {
                            nd[i >> 6] &= !(1u64 << (i & 63));
                        }
                    }
                    self.set_dom(st, v, nd);
                    changed = true;
                    continue;
                }
                mv |= eff;
                keep.push(c.clone());
            }
            if changed {
                st.cons = Arc::new(keep);
            }
            st.mvars = mv;
            if !changed {
                return;
            }
        }
    }

    /// Add `e == pol`, known to be satisfied by st.d.model.
    fn add(&mut self, st: &mut State, e: &E, pol: bool) {
        st.note(Lit::Term(e.clone(), pol));
        self.narrow(st, e, pol)
    }
    fn narrow(&mut self, st: &mut State, e: &E, pol: bool) {
        let v = st.d.resolve(&V::S(e.clone()));
        let V::S(e) = v else { return };
        let eff = st.d.eff(&e);
        if eff & (eff - 1) == 0 {
            let v = eff.trailing_zeros() as usize;
            let t = st.d.table_of(&e, v as u8);
            let mut nd = st.d.d[v];
            for i in 0..256 {
                if (t[i] != 0) != pol {
                    nd[i >> 6] &= !(1u64 << (i & 63));
                }
            }
            let fixed = dom_count(&nd) == 1;
            self.set_dom(st, v, nd);
            if fixed && st.mvars >> v & 1 != 0 {
                self.resimplify(st);
            }
            return;
        }
        match (e.op, pol) {
            (Op::Not, p) => return self.narrow(st, e.a.as_ref().unwrap(), !p),
            (Op::And, true) | (Op::Or, false) => {
                self.narrow(st, e.a.as_ref().unwrap(), pol);
                self.narrow(st, e.b.as_ref().unwrap(), pol);
                return;
            }
            _ => {}
        }
        let c = if pol {
            e
        } else {
            match st.d.not(&V::S(e)) {
                V::S(x) => x,
                _ => return,
            }
        };
        st.mvars |= st.d.eff(&c);
        st.relational = true;
        Arc::make_mut(&mut st.cons).push(c);
    }

    /// Is `e == pol` satisfiable on this path?  Returns a model.
    fn feasible(&mut self, st: &State, e: &E, pol: bool) -> R<Option<Vec<u8>>> {
        let eff = st.d.eff(e);
        if (eval(e, &st.d.model) != 0) == pol {
            return Ok(Some(st.d.model.clone()));
        }
        if eff & (eff - 1) == 0 && eff & st.mvars == 0 {
            let v = eff.trailing_zeros() as usize;
            let t = st.d.table_of(e, v as u8);
            for i in dom_iter(&st.d.d[v]) {
                if (t[i] != 0) == pol {
                    let mut m = st.d.model.clone();
                    m[v] = i as u8;
                    return Ok(Some(m));
                }
            }
            return Ok(None);
        }
        let (vars, cons) = self.component(st, eff);
        match self.z3.check(&st.d, vars, &cons, &[(e.clone(), pol)]) {
            None => Err(End::Unsup("solver unknown".into())),
            Some(m) => Ok(m),
        }
    }

    fn push(&mut self, st: State) {
        let j = st.job as usize;
        self.js[j].forks += 1;
        self.sh.live[j].fetch_add(1, Ordering::Relaxed);
        if self.sh.idle.load(Ordering::Relaxed) > 0 {
            let mut q = self.sh.q.lock().unwrap();
            if q.len() < self.sh.threads * 4 {
                // give away the oldest local state
                if !self.local.is_empty() {
                    let s = self.local.remove(0);
                    q.push(s);
                    self.local.push(st);
                } else {
                    q.push(st);
                }
                self.sh.cv.notify_one();
                return;
            }
        }
        self.local.push(st);
    }

    /// Decide condition `c`; the current state takes the returned side, other
    /// feasible sides are returned as extra states with their outcome.
    fn split(&mut self, st: &mut State, c: &E, extra: &mut Vec<(State, bool)>) -> R<bool> {
        let c = match st.d.resolve(&V::S(c.clone())) {
            V::I(k) => return Ok(k != 0),
            V::S(e) => e,
            _ => unreachable!(),
        };
        let eff = st.d.eff(&c);
        let single = eff & (eff - 1) == 0;
        if !single {
            match c.op {
                Op::Not => {
                    let n = extra.len();
                    let r = self.split(st, c.a.as_ref().unwrap(), extra)?;
                    for x in &mut extra[n..] {
                        x.1 = !x.1;
                    }
                    return Ok(!r);
                }
                Op::And | Op::Or if c.w == 1 => {
                    let (a, b) = (c.a.clone().unwrap(), c.b.clone().unwrap());
                    let stop = c.op == Op::Or; // value of `a` that decides
                    let n = extra.len();
                    let r = self.split(st, &a, extra)?;
                    let todo: Vec<(State, bool)> = extra.drain(n..).collect();
                    let res = if r == stop { stop } else { self.split(st, &b, extra)? };
                    for (mut s, r2) in todo {
                        if r2 == stop {
                            extra.push((s, stop));
                        } else {
                            let r3 = self.split(&mut s, &b, extra)?;
                            extra.push((s, r3));
                        }
                    }
                    return Ok(res);
                }
                Op::Ite if c.w == 1 => {
                    let (k, a, b) = (c.a.clone().unwrap(), c.b.clone().unwrap(), c.c.clone().unwrap());
                    let n = extra.len();
                    let r = self.split(st, &k, extra)?;
                    let todo: Vec<(State, bool)> = extra.drain(n..).collect();
                    let res = self.split(st, if r { &a } else { &b }, extra)?;
                    for (mut s, r2) in todo {
                        let r3 = self.split(&mut s, if r2 { &a } else { &b }, extra)?;
                        extra.push((s, r3));
                    }
                    return Ok(res);
                }
                _ => {}
            }
        }
        let side = eval(&c, &st.d.model) != 0;
        if single && eff & st.mvars == 0 {
            self.js[st.job as usize].dom_decisions += 1;
        } else {
            self.js[st.job as usize].z3_decisions += 1;
        }
        if let Some(m) = self.feasible(st, &c, !side)? {
            let mut o = st.clone();
            o.d.model = m;
            self.add(&mut o, &c, !side);
            self.add(st, &c, side);
            extra.push((o, !side));
        } else if !single {
            // implied: nothing to add
        }
        Ok(side)
    }

    /// Make the register operand concrete, forking over its values.  The
    /// caller re-executes the instruction.
    fn concretize(&mut self, st: &mut State, o: O, w: u8) -> R<()> {
        let O::R(r) = o else { return Err(End::Unsup("concretize constant".into())) };
        let v = st.d.resolve(&st.fr.regs[r as usize]);
        match v {
            V::I(_) => {
                st.fr.regs[r as usize] = v;
                Ok(())
            }
            V::S(e) => {
                let x = eval(&e, &st.d.model);
                let c = st.d.cmp(Op::Eq, w, &V::S(e), &V::I(x));
                match c {
                    V::I(0) => return Err(End::Unsup("concretize".into())),
                    V::I(_) => {}
                    V::S(c) => {
                        if let Some(m) = self.feasible(st, &c, false)? {
                            let mut n = st.clone();
                            n.fr.pc -= 1;
                            n.d.model = m;
                            self.add(&mut n, &c, false);
                            self.add(st, &c, true);
                            self.push(n);
                        }
                    }
                    _ => unreachable!(),
                }
                st.fr.regs[r as usize] = V::I(x);
                Ok(())
            }
            _ => Err(End::Unsup("concretize wide".into())),
        }
    }

    // ---------- memory ----------

    fn load_bytes(&self, st: &State, a: u64, n: usize) -> R<V> {
        if let Some(k) = st.mem.load_c(a, n)? {
            return Ok(V::I(k));
        }
        let mut acc = st.d.resolve(&st.mem.byte(a)?);
        let mut w = 8u8;
        for i in 1..n as u64 {
            let b = st.d.resolve(&st.mem.byte(a + i)?);
            acc = st.d.concat(&b, 8, &acc, w);
            w += 8;
        }
        Ok(acc)
    }
    fn load_scalar(&self, st: &State, a: u64, n: usize, w: u8) -> R<V> {
        if n == 0 {
            return Ok(V::I(0));
        }
        match self.load_bytes(st, a, n)? {
            V::I(k) => Ok(V::I(k & mask(w))),
            v => Ok(st.d.extract(&v, n as u8 * 8, 0, w)),
        }
    }
    fn store_scalar(&self, st: &mut State, a: u64, n: usize, w: u8, v: &V) -> R<()> {
        match st.d.resolve(v) {
            V::I(k) => {
                st.mem.store_c(a, n, k & mask(w))?;
            }
            v => {
                let full = n as u8 * 8;
                let v = if full > w { st.d.zext(&v, w, full) } else { v };
                for i in 0..n {
                    let b = st.d.extract(&v, full, i as u8 * 8, 8);
                    st.mem.store_byte(a + i as u64, b)?;
                }
            }
        }
        Ok(())
    }
    fn load_ty(&self, st: &State, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(w) if *w > 64 => {
                let lo = self.load_scalar(st, a, 8, 64)?;
                let hb = (*w - 64) as u8;
                let hi = self.load_scalar(st, a + 8, (hb as usize + 7) / 8, hb)?;
                Ok(V::X(Arc::new(Ext::Wide(lo, hi))))
            }
            Ty::Vec(n, et) => {
                let w = et.bits() as u8;
                if w < 8 {
                    let tot = (*n as u8) * w;
                    let x = self.load_scalar(st, a, (tot as usize + 7) / 8, tot)?;
                    let v = (0..*n).map(|i| st.d.extract(&x, tot, i as u8 * w, w)).collect();
                    return Ok(V::X(Arc::new(Ext::Vec(v))));
                }
                let es = et.store_size();
                let v: R<Vec<V>> = (0..*n as u64).map(|i| self.load_scalar(st, a + i * es, es as usize, w)).collect();
                Ok(V::X(Arc::new(Ext::Vec(v?))))
            }
            Ty::Arr(n, et) => {
                let es = et.size();
                let v: R<Vec<V>> = (0..*n).map(|i| self.load_ty(st, a + i * es, et)).collect();
                Ok(V::X(Arc::new(Ext::Agg(v?))))
            }
            Ty::Struct(f, _) => {
                let v: R<Vec<V>> = (0..f.len())
                    .map(|i| {
                        let (o, ft) = t.field(i);
                        self.load_ty(st, a + o, &ft)
                    })
                    .collect();
                Ok(V::X(Arc::new(Ext::Agg(v?))))
            }
            t => self.load_scalar(st, a, t.store_size() as usize, t.bits() as u8),
        }
    }
    fn store_ty(&self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Int(w), V::X(x)) if *w > 64 => {
                let Ext::Wide(lo, hi) = &**x else { return Err(End::Unsup("store wide".into())) };
                self.store_scalar(st, a, 8, 64, lo)?;
                let hb = (*w - 64) as u8;
                self.store_scalar(st, a + 8, (hb as usize + 7) / 8, hb, hi)
            }
            (Ty::Vec(n, et), _) => {
                let w = et.bits() as u8;
                let el = v.agg().clone();
                if w < 8 {
                    let mut acc = el[0].clone();
                    let mut aw = w;
                    for e in &el[1..] {
                        acc = st.d.concat(e, w, &acc, aw);
                        aw += w;
                    }
                    return self.store_scalar(st, a, (aw as usize + 7) / 8, aw, &acc);
                }
                let es = et.store_size();
                for i in 0..*n as usize {
                    self.store_scalar(st, a + i as u64 * es, es as usize, w, &el[i])?;
                }
                Ok(())
            }
            (Ty::Arr(n, et), _) => {
                let es = et.size();
                let el = v.agg().clone();
                for i in 0..*n as usize {
                    self.store_ty(st, a + i as u64 * es, et, &el[i])?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), _) => {
                let el = v.agg().clone();
                for i in 0..f.len() {
                    let (o, ft) = t.field(i);
                    self.store_ty(st, a + o, &ft, &el[i])?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, a, t.store_size() as usize, t.bits() as u8, v),
        }
    }

    /// load through a symbolic address; None: fork over the address instead
    fn load_sym(&mut self, st: &State, e: &E, n: usize, w: u8) -> R<Option<V>> {
        let eff = st.d.eff(e);
        let mut lut: Vec<u64>;
        let base;
        if eff & (eff - 1) == 0 {
            let v = eff.trailing_zeros() as usize;
            let t = st.d.table_of(e, v as u8);
            let (mut lo, mut hi) = (!0u64, 0u64);
            for i in dom_iter(&st.d.d[v]) {
                lo = lo.min(t[i]);
                hi = hi.max(t[i]);
            }
            if hi - lo > 8192 {
                return Ok(None);
            }
            lut = vec![0; (hi - lo + 1) as usize];
            base = lo;
            for i in dom_iter(&st.d.d[v]) {
                match st.mem.load_c(t[i], n)? {
                    Some(k) => lut[(t[i] - lo) as usize] = k & mask(w),
                    None => return Ok(None),
                }
            }
        } else {
            if e.hi - e.lo > 4096 {
                return Ok(None);
            }
            base = e.lo;
            lut = vec![];
            for a in e.lo..=e.hi {
                match st.mem.load_c(a, n) {
                    Ok(Some(k)) => lut.push(k & mask(w)),
                    _ => return Ok(None),
                }
            }
        }
        Ok(Some(st.d.lut(&V::S(e.clone()), 64, base, w, lut)))
    }

    // ---------- path ends ----------

    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![demangle(&st.fr.f.name)];
        for f in st.stack.iter().rev().take(10) {
            v.push(demangle(&f.f.name));
        }
        v
    }

    pub fn report(&mut self, st: &State, kind: &str, what: String, input: Vec<u8>) {
        let j = st.job as usize;
        let n = self.sh.nviol[j].fetch_add(1, Ordering::Relaxed);
        if n < self.cfg.viol_cap {
            let trace = self.trace(st);
            self.sh.viol.lock().unwrap().push(Violation { job: st.job, kind: kind.into(), what, input, trace });
        }
    }

    fn end(&mut self, st: &mut State, e: End) {
        let j = st.job as usize;
        self.ends += 1;
        let w = {
            let mut w = 1.0f64;
            for (v, d) in st.d.d.iter().enumerate() {
                w *= dom_count(d) as f64 / dom_count(&st.init[v]) as f64;
            }
            w
        };
        {
            let js = &mut self.js[j];
            js.steps += st.steps;
            js.max_steps = js.max_steps.max(st.steps);
            js.weight += w;
            js.vars = js.vars.max(st.d.d.len());
            if st.relational {
                js.relational += 1;
            }
        }
        let key = match &e {
            End::Ok => "ok",
            End::Assumed => "assumed",
            End::Panic(_) => "panic",
            End::Fail(_) => "fail",
            End::Limit => "limit",
            End::Unsup(_) => "unsupported",
            End::Drop => "dropped",
        };
        *self.js[j].paths.entry(key.into()).or_insert(0) += 1;
        match &e {
            End::Ok => {
                self.js[j].covers |= st.covers;
                for b in 0..32 {
                    if st.covers >> b & 1 != 0 {
                        self.js[j].cover_counts[b] += 1;
                    }
                }
                if (self.js[j].pc_checks < 40 || self.ends % self.cfg.pc_check_every == 0) && !st.d.d.is_empty() {
                    // the whole path condition, by the solver
                    let all = if st.d.d.len() >= 64 { !0 } else { (1u64 << st.d.d.len()) - 1 };
                    let cons = st.cons.clone();
                    self.js[j].pc_checks += 1;
                    match self.z3.check(&st.d, all, &cons, &[]) {
                        Some(Some(_)) => {}
                        _ => {
                            *self.js[j].unsup.entry("path condition not sat".into()).or_insert(0) += 1;
                        }
                    }
                }
                if (self.js[j].audits < 25 || self.ends % (4 * self.cfg.pc_check_every) == 0) && st.log.is_some() {
                    // the branches taken say exactly what the value sets and constraints kept say
                    self.js[j].audits += 1;
                    if self.z3.audit(&st.d, &st.init, st.log.as_deref(), &st.cons) != Some(false) {
                        *self.js[j].unsup.entry("value sets and branches disagree".into()).or_insert(0) += 1;
                    }
                }
                if self.ends % self.cfg.wit_every == 0 && self.sh.nwit[j].load(Ordering::Relaxed) < self.cfg.wit_per_job {
                    self.sh.nwit[j].fetch_add(1, Ordering::Relaxed);
                    let outs = st
                        .outs
                        .iter()
                        .map(|o| {
                            o.iter()
                                .map(|v| match v {
                                    V::I(k) => *k as u8,
                                    V::S(e) => eval(e, &st.d.model) as u8,
                                    _ => 0,
                                })
                                .collect()
                        })
                        .collect();
                    self.sh.wit.lock().unwrap().push((st.job, st.d.model.clone(), outs));
                }
            }
            End::Assumed | End::Drop => {}
            End::Panic(m) => {
                let m = m.clone();
                let i = st.d.model.clone();
                self.report(st, "panic", m, i);
            }
            End::Fail(m) => {
                let m = m.clone();
                let i = st.d.model.clone();
                self.report(st, "assert", m, i);
            }
            End::Limit => {
                let i = st.d.model.clone();
                self.report(st, "limit", "instruction limit".into(), i);
            }
            End::Unsup(m) => {
                let t = self.trace(st).join(" < ");
                *self.js[j].unsup.entry(format!("{} in {}", m, t)).or_insert(0) += 1;
            }
        }
        self.sh.live[j].fetch_sub(1, Ordering::Relaxed);
    }

    pub fn run_path(&mut self, mut st: State) {
        match self.exec(&mut st) {
            Ok(()) => self.end(&mut st, End::Ok),
            Err(e) => self.end(&mut st, e),
        }
    }

    /// run to completion (return of the bottom frame)
    pub fn exec(&mut self, st: &mut State) -> R<()> {
        loop {
            if self.sh.stop.load(Ordering::Relaxed)
                || self.sh.nviol[st.job as usize].load(Ordering::Relaxed) > self.cfg.viol_cap
            {
                return Err(End::Drop);
            }
            if std::time::Instant::now() > self.sh.deadline {
                self.sh.stop.store(true, Ordering::Relaxed);
                return Err(End::Drop);
            }
            if self.slice(st)? {
                return Ok(());
            }
        }
    }

    fn take_edge(st: &mut State, f: &Func, e: u32) {
        let ed = &f.edges[e as usize];
        if ed.simple {
            for (d, o) in &ed.moves {
                let v = get(&st.fr, *o);
                st.fr.regs[*d as usize] = v;
            }
        } else {
            let vs: Vec<V> = ed.moves.iter().map(|(_, o)| get(&st.fr, *o)).collect();
            for ((d, _), v) in ed.moves.iter().zip(vs) {
                st.fr.regs[*d as usize] = v;
            }
        }
        st.fr.pc = ed.target;
    }

    /// Execute up to a few thousand instructions; true when finished.
    fn slice(&mut self, st: &mut State) -> R<bool> {
        let mut f = st.fr.f.clone();
        let mut n = 0u32;
        loop {
            n += 1;
            if n > 100_000 {
                st.steps += n as u64;
                if st.steps > self.cfg.step_limit {
                    return Err(End::Limit);
                }
                return Ok(false);
            }
            let pc = st.fr.pc as usize;
            let ins = &f.code[pc];
            st.fr.pc += 1;
            let mut need_frame = false;
            let regs = &st.fr.regs;
            match ins {
                I::Bin(op, w, d, a, b) => {
                    let r = match (ci(regs, *a), ci(regs, *b)) {
                        (Some(x), Some(y)) => V::I(fold(*op, *w, x, y)),
                        _ => st.d.bin(*op, *w, &get(&st.fr, *a), &get(&st.fr, *b)),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Cmp(p, w, d, a, b) => {
                    let r = match (ci(regs, *a), ci(regs, *b)) {
                        (Some(x), Some(y)) => V::I(cmp_c(*p, *w, x, y)),
                        _ => self.cmp_v(st, *p, *w, &get(&st.fr, *a), &get(&st.fr, *b)),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Zext(fw, tw, d, a) => {
                    let r = match ci(regs, *a) {
                        Some(x) => V::I(x),
                        None => st.d.zext(&get(&st.fr, *a), *fw, *tw),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Sext(fw, tw, d, a) => {
                    let r = match ci(regs, *a) {
                        Some(x) => V::I(sx(x, *fw) as u64 & mask(*tw)),
                        None => st.d.sext(&get(&st.fr, *a), *fw, *tw),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Trunc(fw, tw, d, a) => {
                    let r = match ci(regs, *a) {
                        Some(x) => V::I(x & mask(*tw)),
                        None => st.d.extract(&get(&st.fr, *a), *fw, 0, *tw),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Copy(d, a) => {
                    let v = get(&st.fr, *a);
                    st.fr.regs[*d as usize] = v;
                }
                I::Sel(w, d, c, a, b) => {
                    let r = match ci(regs, *c) {
                        Some(k) => get(&st.fr, if k & 1 != 0 { *a } else { *b }),
                        None => st.d.ite(&get(&st.fr, *c), &get(&st.fr, *a), &get(&st.fr, *b), *w),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Ld(sz, w, d, a) => {
                    if let Some(x) = ci(regs, *a) {
                        let r = match st.mem.load_c(x, *sz as usize) {
                            Ok(Some(k)) => V::I(k & mask(*w)),
                            Ok(None) => self.load_scalar(st, x, *sz as usize, *w)?,
                            Err(f) => return Err(f.into()),
                        };
                        st.fr.regs[*d as usize] = r;
                    } else {
                        let v = st.d.resolve(&get(&st.fr, *a));
                        match v {
                            V::I(x) => {
                                let r = self.load_scalar(st, x, *sz as usize, *w)?;
                                st.fr.regs[*d as usize] = r;
                            }
                            V::S(e) => match self.load_sym(st, &e, *sz as usize, *w)? {
                                Some(r) => st.fr.regs[*d as usize] = r,
                                None => {
                                    self.concretize(st, *a, 64)?;
                                    st.fr.pc = pc as u32;
                                }
                            },
                            _ => return Err(End::Unsup("load addr".into())),
                        }
                    }
                }
                I::St(sz, w, a, v) => {
                    let Some(x) = ci(regs, *a) else {
                        self.concretize(st, *a, 64)?;
                        st.fr.pc = pc as u32;
                        continue;
                    };
                    match ci(regs, *v) {
                        Some(k) => st.mem.store_c(x, *sz as usize, k & mask(*w))?,
                        None => {
                            let v = get(&st.fr, *v);
                            self.store_scalar(st, x, *sz as usize, *w, &v)?
                        }
                    }
                }
                I::Gep0(d, b, off) => {
                    let r = match ci(regs, *b) {
                        Some(x) => V::I(x.wrapping_add(*off)),
                        None => st.d.bin(Op::Add, 64, &get(&st.fr, *b), &V::I(*off)),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Gep1(d, b, off, i, iw, sc) => {
                    let r = match (ci(regs, *b), ci(regs, *i)) {
                        (Some(x), Some(k)) => {
                            V::I(x.wrapping_add(*off).wrapping_add((sx(k, *iw) as u64).wrapping_mul(*sc)))
                        }
                        _ => self.gep(st, *b, *off, &[(*i, *iw, *sc)]),
                    };
                    st.fr.regs[*d as usize] = r;
                }
                I::Gep(d, b, off, ix) => {
                    let r = self.gep(st, *b, *off, ix);
                    st.fr.regs[*d as usize] = r;
                }
                I::Alloca(d, off) => {
                    let b = st.fr.base + off;
                    st.fr.regs[*d as usize] = V::I(b);
                }
                I::Br(e) => Self::take_edge(st, &f, *e),
                I::CBr(c, t, e) => {
                    if let Some(k) = ci(regs, *c) {
                        Self::take_edge(st, &f, if k & 1 != 0 { *t } else { *e });
                    } else {
                        let V::S(c) = get(&st.fr, *c) else { return Err(End::Unsup("branch".into())) };
                        let mut ex = vec![];
                        let r = self.split(st, &c, &mut ex)?;
                        for (mut s, x) in ex {
                            Self::take_edge(&mut s, &f, if x { *t } else { *e });
                            s.steps += n as u64;
                            self.push(s);
                        }
                        Self::take_edge(st, &f, if r { *t } else { *e });
                    }
                }
                I::Sw(sw) => {
                    if let Some(k) = ci(regs, sw.a) {
                        let e = sw.map.get(&k).copied().unwrap_or(sw.def);
                        Self::take_edge(st, &f, e);
                    } else {
                        let v = st.d.resolve(&get(&st.fr, sw.a));
                        match v {
                            V::I(k) => {
                                let e = sw.map.get(&k).copied().unwrap_or(sw.def);
                                Self::take_edge(st, &f, e);
                            }
                            V::S(e) => self.switch(st, &f, &e, sw, n)?,
                            _ => return Err(End::Unsup("switch".into())),
                        }
                    }
                }
                I::Ret(o) => {
                    let v = get(&st.fr, *o);
                    let (d, cont) = (st.fr.ret, st.fr.cont);
                    if self.ret(st) {
                        st.steps += n as u64;
                        return Ok(true);
                    }
                    if d != NONE {
                        st.fr.regs[d as usize] = v;
                    }
                    if cont != NONE {
                        let f2 = st.fr.f.clone();
                        Self::take_edge(st, &f2, cont);
                    }
                    need_frame = true;
                }
                I::RetVoid => {
                    let cont = st.fr.cont;
                    if self.ret(st) {
                        st.steps += n as u64;
                        return Ok(true);
                    }
                    if cont != NONE {
                        let f2 = st.fr.f.clone();
                        Self::take_edge(st, &f2, cont);
                    }
                    need_frame = true;
                }
                I::Unreach => return Err(End::Panic("unreachable".into())),
                I::Call(c) => {
                    let sv = st.steps;
                    st.steps += n as u64;
                    let a = self.call(st, c);
                    st.steps = sv;
                    match a? {
                        Act::Next => {
                            if c.cont != NONE {
                                Self::take_edge(st, &f, c.cont);
                            }
                        }
                        Act::Redo => st.fr.pc = pc as u32,
                        Act::Frame => need_frame = true,
                    }
                }
                I::Gen(g) => match self.gen(st, g)? {
                    Act::Redo => st.fr.pc = pc as u32,
                    _ => {}
                },
            }
            if need_frame {
                f = st.fr.f.clone();
            }
        }
    }

    fn ret(&mut self, st: &mut State) -> bool {
        st.sp = st.fr.sp0;
        let Some(up) = st.stack.pop() else { return true };
        let fr = match Arc::try_unwrap(up) {
            Ok(f) => f,
            Err(a) => (*a).clone(),
        };
        st.fr = fr;
        st.stack.is_empty()
    }

    fn switch(&mut self, st: &mut State, f: &Func, e: &E, sw: &SwI, n: u32) -> R<()> {
        let eff = st.d.eff(e);
        if eff & (eff - 1) == 0 && eff & st.mvars == 0 {
            let v = eff.trailing_zeros() as usize;
            let t = st.d.table_of(e, v as u8);
            // group values by target edge
            let mut groups: Vec<(u32, Dom)> = vec![];
            for i in dom_iter(&st.d.d[v]) {
                let ed = sw.map.get(&t[i]).copied().unwrap_or(sw.def);
                // merge edges with the same target and moves
                match groups.iter_mut().find(|g| same_edge(f, g.0, ed)) {
                    Some(g) => g.1[i >> 6] |= 1 << (i & 63),
                    None => {
                        let mut d = [0; 4];
                        d[i >> 6] |= 1 << (i & 63);
                        groups.push((ed, d));
                    }
                }
            }
            self.js[st.job as usize].dom_decisions += groups.len() as u64;
            let last = groups.len() - 1;
            for (gi, (ed, d)) in groups.into_iter().enumerate() {
                if gi == last {
                    if !dom_has(&d, st.d.model[v] as usize) {
                        st.d.model[v] = dom_first(&d);
                    }
                    st.note(Lit::Dom(v, d));
                    self.set_dom(st, v, d);
                    Self::take_edge(st, f, ed);
                } else {
                    let mut s = st.clone();
                    s.steps += n as u64;
                    if !dom_has(&d, s.d.model[v] as usize) {
                        s.d.model[v] = dom_first(&d);
                    }
                    s.note(Lit::Dom(v, d));
                    self.set_dom(&mut s, v, d);
                    Self::take_edge(&mut s, f, ed);
                    self.push(s);
                }
            }
            return Ok(());
        }
        // relational: one case at a time
        let mut edges: Vec<(u32, V)> = vec![];
        for (k, ed) in &sw.cases {
            let c = st.d.cmp(Op::Eq, sw.w, &V::S(e.clone()), &V::I(*k));
            match edges.iter_mut().find(|x| same_edge(f, x.0, *ed)) {
                Some(x) => x.1 = st.d.bin(Op::Or, 1, &x.1, &c),
                None => edges.push((*ed, c)),
            }
        }
        for (ed, c) in edges {
            if same_edge(f, ed, sw.def) {
                continue;
            }
            match st.d.resolve(&c) {
                V::I(0) => {}
                V::I(_) => {
                    Self::take_edge(st, f, ed);
                    return Ok(());
                }
                V::S(c) => {
                    self.js[st.job as usize].z3_decisions += 1;
                    let t = self.feasible(st, &c, true)?;
                    let Some(tm) = t else { continue };
                    let fm = self.feasible(st, &c, false)?;
                    match fm {
                        None => {
                            Self::take_edge(st, f, ed);
                            return Ok(());
                        }
                        Some(fm) => {
                            let mut s = st.clone();
                            s.steps += n as u64;
                            s.d.model = tm;
                            self.add(&mut s, &c, true);
                            Self::take_edge(&mut s, f, ed);
                            self.push(s);
                            st.d.model = fm;
                            self.add(st, &c, false);
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
        Self::take_edge(st, f, sw.def);
        Ok(())
    }

    fn gep(&self, st: &State, b: O, off: u64, ix: &[(O, u8, u64)]) -> V {
        let mut acc = st.d.bin(Op::Add, 64, &get(&st.fr, b), &V::I(off));
        for (i, iw, sc) in ix {
            let v = get(&st.fr, *i);
            let v = st.d.sext(&v, *iw, 64);
            let v = st.d.bin(Op::Mul, 64, &v, &V::I(*sc));
            acc = st.d.bin(Op::Add, 64, &acc, &v);
        }
        acc
    }

    fn cmp_v(&self, st: &State, p: Pred, w: u8, a: &V, b: &V) -> V {
        match p {
            Pred::Eq => st.d.cmp(Op::Eq, w, a, b),
            Pred::Ne => {
                let x = st.d.cmp(Op::Eq, w, a, b);
                st.d.not(&x)
            }
            Pred::Ult => st.d.cmp(Op::Ult, w, a, b),
            Pred::Ule => st.d.cmp(Op::Ule, w, a, b),
            Pred::Ugt => st.d.cmp(Op::Ult, w, b, a),
            Pred::Uge => st.d.cmp(Op::Ule, w, b, a),
            Pred::Slt => st.d.cmp(Op::Slt, w, a, b),
            Pred::Sle => st.d.cmp(Op::Sle, w, a, b),
            Pred::Sgt => st.d.cmp(Op::Slt, w, b, a),
            Pred::Sge => st.d.cmp(Op::Sle, w, b, a),
        }
    }

    // ---------- wide and vector helpers ----------

    /// pieces of a value from low to high
    fn pieces(&self, t: &Ty, v: &V) -> Vec<(V, u8)> {
        match (t, v) {
            (Ty::Vec(_, et), V::X(x)) => match &**x {
                Ext::Vec(e) | Ext::Agg(e) => e.iter().map(|x| (x.clone(), et.bits() as u8)).collect(),
                _ => panic!("pieces"),
            },
            (Ty::Int(w), V::X(x)) if *w > 64 => match &**x {
                Ext::Wide(l, h) => vec![(l.clone(), 64), (h.clone(), (*w - 64) as u8)],
                _ => panic!("pieces"),
            },
            (t, v) => vec![(v.clone(), t.bits() as u8)],
        }
    }
    fn regroup(&self, st: &State, ps: Vec<(V, u8)>, w: u8) -> Vec<V> {
        let mut out = vec![];
        let mut cur: Option<(V, u8)> = None;
        for (v, vw) in ps {
            let mut rest = Some((v, vw));
            while let Some((v, vw)) = rest.take() {
                let have = cur.as_ref().map_or(0, |c| c.1);
                let need = w - have;
                let (take, left) = if vw <= need {
                    ((v, vw), None)
                } else {
                    let lo = st.d.extract(&v, vw, 0, need);
                    let hi = st.d.extract(&v, vw, need, vw - need);
                    ((lo, need), Some((hi, vw - need)))
                };
                rest = left;
                cur = Some(match cur.take() {
                    None => take,
                    Some((c, cw)) => (st.d.concat(&take.0, take.1, &c, cw), cw + take.1),
                });
                if cur.as_ref().unwrap().1 == w {
                    out.push(cur.take().unwrap().0);
                }
            }
        }
        if let Some((c, _)) = cur {
            out.push(c);
        }
        out
    }
    fn from_pieces(&self, st: &State, ps: Vec<(V, u8)>, t: &Ty) -> V {
        match t {
            Ty::Vec(_, et) => V::X(Arc::new(Ext::Vec(self.regroup(st, ps, et.bits() as u8)))),
            Ty::Int(w) if *w > 64 => {
                let mut v = self.regroup(st, ps, 64);
                let h = v.pop().unwrap();
                let l = v.pop().unwrap();
                V::X(Arc::new(Ext::Wide(l, h)))
            }
            t => self.regroup(st, ps, t.bits() as u8).pop().unwrap(),
        }
    }
    fn wide(&self, v: &V) -> Option<(V, V)> {
        match v {
            V::X(x) => match &**x {
                Ext::Wide(a, b) => Some((a.clone(), b.clone())),
                _ => None,
            },
            V::I(k) => Some((V::I(*k), V::I(0))),
            _ => None,
        }
    }
    fn mkw(a: V, b: V) -> V {
        V::X(Arc::new(Ext::Wide(a, b)))
    }
    fn wide_c(&self, v: &V) -> Option<u128> {
        match self.wide(v)? {
            (V::I(l), V::I(h)) => Some((h as u128) << 64 | l as u128),
            _ => None,
        }
    }

    fn map2(&self, st: &State, t: &Ty, a: &V, b: &V, mut g: impl FnMut(&State, u8, &V, &V) -> V) -> V {
        match t {
            Ty::Vec(n, et) => {
                let (x, y) = (a.agg(), b.agg());
                let w = et.bits() as u8;
                V::X(Arc::new(Ext::Vec((0..*n as usize).map(|i| g(st, w, &x[i], &y[i])).collect())))
            }
            t => g(st, t.bits() as u8, a, b),
        }
    }

    fn gen(&mut self, st: &mut State, g: &GenI) -> R<Act> {
        match g {
            GenI::Bin(op, t, d, a, b) => {
                let (a, b) = (get(&st.fr, *a), get(&st.fr, *b));
                let r = match t {
                    Ty::Int(w) => {
                        let w = *w;
                        let m: u128 = if w >= 128 { !0 } else { (1u128 << w) - 1 };
                        if let (Some(x), Some(y)) = (self.wide_c(&a), self.wide_c(&b)) {
                            let r = match op {
                                Op::Add => x.wrapping_add(y),
                                Op::Sub => x.wrapping_sub(y),
                                Op::Mul => x.wrapping_mul(y),
                                Op::UDiv if y != 0 => x / y,
                                Op::URem if y != 0 => x % y,
                                Op::And => x & y,
                                Op::Or => x | y,
                                Op::Xor => x ^ y,
                                Op::Shl => x.checked_shl(y as u32).unwrap_or(0),
                                Op::LShr => x.checked_shr(y as u32).unwrap_or(0),
                                _ => return Err(End::Unsup(format!("wide {:?}", op))),
                            } & m;
                            Self::mkw(V::I(r as u64), V::I((r >> 64) as u64))
                        } else {
                            let (Some((al, ah)), Some((bl, bh))) = (self.wide(&a), self.wide(&b)) else {
                                return Err(End::Unsup("wide".into()));
                            };
                            let hw = (w - 64) as u8;
                            match op {
                                Op::And | Op::Or | Op::Xor => {
                                    Self::mkw(st.d.bin(*op, 64, &al, &bl), st.d.bin(*op, hw, &ah, &bh))
                                }
                                Op::Shl | Op::LShr if self.wide_c(&b).is_some() => {
                                    let k = self.wide_c(&b).unwrap() as u32;
                                    if k >= w {
                                        Self::mkw(V::I(0), V::I(0))
                                    } else {
                                        let ps = vec![(al, 64u8), (ah, hw)];
                                        // split into bits at k
                                        let (lo, hi) = self.cut(st, ps, if *op == Op::Shl { w - k } else { k });
                                        let z = |n: u32| -> Vec<(V, u8)> {
                                            let mut v = vec![];
                                            let mut n = n;
                                            while n > 0 {
                                                let c = n.min(64);
                                                v.push((V::I(0), c as u8));
                                                n -= c;
                                            }
                                            v
                                        };
                                        let mut ps;
                                        if *op == Op::Shl {
                                            ps = z(k);
                                            ps.extend(lo);
                                        } else {
                                            ps = hi;
                                            ps.extend(z(k));
                                        }
                                        self.from_pieces(st, ps, t)
                                    }
                                }
                                _ => return Err(End::Unsup(format!("symbolic wide {:?}", op))),
                            }
                        }
                    }
                    t => self.map2(st, t, &a, &b, |s, w, x, y| s.d.bin(*op, w, x, y)),
                };
                st.fr.regs[*d as usize] = r;
            }
            GenI::Cmp(p, t, d, a, b) => {
                let (a, b) = (get(&st.fr, *a), get(&st.fr, *b));
                let r = match t {
                    Ty::Int(_) => {
                        if let (Some(x), Some(y)) = (self.wide_c(&a), self.wide_c(&b)) {
                            V::I(match p {
                                Pred::Eq => x == y,
                                Pred::Ne => x != y,
                                Pred::Ult => x < y,
                                Pred::Ule => x <= y,
                                Pred::Ugt => x > y,
                                Pred::Uge => x >= y,
                                _ => return Err(End::Unsup("wide signed cmp".into())),
                            } as u64)
                        } else {
                            let (Some((al, ah)), Some((bl, bh))) = (self.wide(&a), self.wide(&b)) else {
                                return Err(End::Unsup("wide".into()));
                            };
                            let hw = (t.bits() - 64) as u8;
                            let x = st.d.cmp(Op::Eq, 64, &al, &bl);
                            let y = st.d.cmp(Op::Eq, hw, &ah, &bh);
                            let e = st.d.bin(Op::And, 1, &x, &y);
                            match p {
                                Pred::Eq => e,
                                Pred::Ne => st.d.not(&e),
                                _ => return Err(End::Unsup("wide symbolic cmp".into())),
                            }
                        }
                    }
                    t => {
                        let Ty::Vec(n, et) = t else { return Err(End::Unsup("cmp ty".into())) };
                        let (x, y) = (a.agg(), b.agg());
                        let w = et.bits() as u8;
                        V::X(Arc::new(Ext::Vec(
                            (0..*n as usize).map(|i| self.cmp_v(st, *p, w, &x[i], &y[i])).collect(),
                        )))
                    }
                };
                st.fr.regs[*d as usize] = r;
            }
            GenI::Cast(k, ft, tt, d, a) => {
                let a = get(&st.fr, *a);
                let r = match k {
                    CastK::Bit => {
                        let p = self.pieces(ft, &a);
                        self.from_pieces(st, p, tt)
                    }
                    _ => match (ft, tt) {
                        (Ty::Vec(n, fe), Ty::Vec(_, te)) => {
                            let (fw, tw) = (fe.bits() as u8, te.bits() as u8);
                            let x = a.agg();
                            V::X(Arc::new(Ext::Vec(
                                (0..*n as usize)
                                    .map(|i| match k {
                                        CastK::Zext => st.d.zext(&x[i], fw, tw),
                                        CastK::Sext => st.d.sext(&x[i], fw, tw),
                                        _ => st.d.extract(&x[i], fw, 0, tw),
                                    })
                                    .collect(),
                            )))
                        }
                        _ => {
                            let (fw, tw) = (ft.bits(), tt.bits());
                            match k {
                                CastK::Zext => {
                                    if fw <= 64 {
                                        let l = st.d.zext(&a, fw as u8, 64);
                                        Self::mkw(l, V::I(0))
                                    } else {
                                        a
                                    }
                                }
                                CastK::Sext => {
                                    let l = st.d.sext(&a, fw as u8, 64);
                                    let h = st.d.bin(Op::AShr, 64, &l, &V::I(63));
                                    let h = st.d.extract(&h, 64, 0, (tw - 64) as u8);
                                    Self::mkw(l, h)
                                }
                                _ => {
                                    let Some((l, h)) = self.wide(&a) else { return Err(End::Unsup("wide trunc".into())) };
                                    if tw <= 64 {
                                        st.d.extract(&l, 64, 0, tw as u8)
                                    } else {
                                        let h = st.d.extract(&h, (fw - 64) as u8, 0, (tw - 64) as u8);
                                        Self::mkw(l, h)
                                    }
                                }
                            }
                        }
                    },
                };
                st.fr.regs[*d as usize] = r;
            }
            GenI::Sel(ct, t, d, c, a, b) => {
                if matches!(ct, Ty::Vec(..)) {
                    let (c, a, b) = (get(&st.fr, *c), get(&st.fr, *a), get(&st.fr, *b));
                    let Ty::Vec(_, et) = t else { return Err(End::Unsup("vsel".into())) };
                    let w = et.bits() as u8;
                    let r = c
                        .agg()
                        .iter()
                        .zip(a.agg().iter().zip(b.agg()))
                        .map(|(c, (x, y))| st.d.ite(c, x, y, w))
                        .collect();
                    st.fr.regs[*d as usize] = V::X(Arc::new(Ext::Vec(r)));
                } else {
                    match st.d.resolve(&get(&st.fr, *c)) {
                        V::I(k) => {
                            let v = get(&st.fr, if k & 1 != 0 { *a } else { *b });
                            st.fr.regs[*d as usize] = v;
                        }
                        _ => {
                            // aggregates: per element
                            let (cv, a, b) = (get(&st.fr, *c), get(&st.fr, *a), get(&st.fr, *b));
                            let r = self.sel_agg(st, t, &cv, &a, &b)?;
                            st.fr.regs[*d as usize] = r;
                        }
                    }
                }
            }
            GenI::Ld(t, d, a) => {
                let Some(x) = ci(&st.fr.regs, *a) else {
                    self.concretize(st, *a, 64)?;
                    return Ok(Act::Redo);
                };
                let v = self.load_ty(st, x, t)?;
                st.fr.regs[*d as usize] = v;
            }
            GenI::St(t, a, v) => {
                let Some(x) = ci(&st.fr.regs, *a) else {
                    self.concretize(st, *a, 64)?;
                    return Ok(Act::Redo);
                };
                let v = get(&st.fr, *v);
                self.store_ty(st, x, t, &v)?;
            }
            GenI::ExtV(d, a, ix) => {
                let mut v = get(&st.fr, *a);
                for i in ix {
                    let n = v.agg()[*i].clone();
                    v = n;
                }
                st.fr.regs[*d as usize] = v;
            }
            GenI::InsV(d, a, v, ix) => {
                let agg = get(&st.fr, *a);
                let v = get(&st.fr, *v);
                fn ins(a: &V, v: V, ix: &[usize]) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    let mut f = a.agg().clone();
                    f[ix[0]] = ins(&f[ix[0]], v, &ix[1..]);
                    V::X(Arc::new(Ext::Agg(f)))
                }
                st.fr.regs[*d as usize] = ins(&agg, v, ix);
            }
            GenI::ExtE(d, a, i) => {
                let Some(k) = ci(&st.fr.regs, *i) else {
                    self.concretize(st, *i, 64)?;
                    return Ok(Act::Redo);
                };
                let v = get(&st.fr, *a).agg()[k as usize].clone();
                st.fr.regs[*d as usize] = v;
            }
            GenI::InsE(d, a, v, i) => {
                let Some(k) = ci(&st.fr.regs, *i) else {
                    self.concretize(st, *i, 64)?;
                    return Ok(Act::Redo);
                };
                let mut f = get(&st.fr, *a).agg().clone();
                f[k as usize] = get(&st.fr, *v);
                st.fr.regs[*d as usize] = V::X(Arc::new(Ext::Vec(f)));
            }
            GenI::Shuf(d, a, b, mk) => {
                let (a, b) = (get(&st.fr, *a), get(&st.fr, *b));
                let (x, y) = (a.agg(), b.agg());
                let r = mk
                    .iter()
                    .map(|i| {
                        let i = *i;
                        if i < 0 {
                            V::I(0)
                        } else if (i as usize) < x.len() {
                            x[i as usize].clone()
                        } else {
                            y[i as usize - x.len()].clone()
                        }
                    })
                    .collect();
                st.fr.regs[*d as usize] = V::X(Arc::new(Ext::Vec(r)));
            }
            GenI::Rmw(op, w, d, a, v) => {
                let Some(x) = ci(&st.fr.regs, *a) else {
                    self.concretize(st, *a, 64)?;
                    return Ok(Act::Redo);
                };
                let n = (*w as usize + 7) / 8;
                let old = self.load_scalar(st, x, n, *w)?;
                let v = get(&st.fr, *v);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => st.d.bin(Op::Add, *w, &old, &v),
                    "sub" => st.d.bin(Op::Sub, *w, &old, &v),
                    "and" => st.d.bin(Op::And, *w, &old, &v),
                    "or" => st.d.bin(Op::Or, *w, &old, &v),
                    "xor" => st.d.bin(Op::Xor, *w, &old, &v),
                    _ => return Err(End::Unsup(format!("atomicrmw {}", op))),
                };
                self.store_scalar(st, x, n, *w, &new)?;
                st.fr.regs[*d as usize] = old;
            }
            GenI::CmpXchg(w, d, a, c, nv) => {
                let Some(x) = ci(&st.fr.regs, *a) else {
                    self.concretize(st, *a, 64)?;
                    return Ok(Act::Redo);
                };
                let n = (*w as usize + 7) / 8;
                let old = self.load_scalar(st, x, n, *w)?;
                let c = get(&st.fr, *c);
                let eq = st.d.cmp(Op::Eq, *w, &old, &c);
                let nv = get(&st.fr, *nv);
                let new = st.d.ite(&eq, &nv, &old, *w);
                self.store_scalar(st, x, n, *w, &new)?;
                st.fr.regs[*d as usize] = V::X(Arc::new(Ext::Agg(vec![old, eq])));
            }
            GenI::AllocaDyn(d, sz, n, al) => {
                let Some(k) = ci(&st.fr.regs, *n) else {
                    self.concretize(st, *n, 64)?;
                    return Ok(Act::Redo);
                };
                let b = (st.sp + al - 1) / al * al;
                st.sp = b + sz * k;
                if st.sp > STACK_END {
                    return Err(End::Panic("stack overflow".into()));
                }
                st.fr.regs[*d as usize] = V::I(b);
            }
            GenI::Unsup(s) => return Err(End::Unsup(s.chars().take(120).collect())),
        }
        Ok(Act::Next)
    }

    fn sel_agg(&self, st: &State, t: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        match t {
            Ty::Vec(_, et) => {
                let w = et.bits() as u8;
                Ok(V::X(Arc::new(Ext::Vec(
                    a.agg().iter().zip(b.agg()).map(|(x, y)| st.d.ite(c, x, y, w)).collect(),
                ))))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    v.push(self.sel_agg(st, &f[i], c, &a.agg()[i], &b.agg()[i])?);
                }
                Ok(V::X(Arc::new(Ext::Agg(v))))
            }
            Ty::Arr(n, et) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.sel_agg(st, et, c, &a.agg()[i], &b.agg()[i])?);
                }
                Ok(V::X(Arc::new(Ext::Agg(v))))
            }
            Ty::Int(w) if *w > 64 => {
                let (Some((al, ah)), Some((bl, bh))) = (self.wide(a), self.wide(b)) else {
                    return Err(End::Unsup("wide select".into()));
                };
                Ok(Self::mkw(st.d.ite(c, &al, &bl, 64), st.d.ite(c, &ah, &bh, (*w - 64) as u8)))
            }
            t => Ok(st.d.ite(c, a, b, t.bits() as u8)),
        }
    }

    /// cut pieces at bit k
    fn cut(&self, st: &State, ps: Vec<(V, u8)>, k: u32) -> (Vec<(V, u8)>, Vec<(V, u8)>) {
        let (mut lo, mut hi) = (vec![], vec![]);
        let mut at = 0u32;
        for (v, w) in ps {
            let end = at + w as u32;
            if end <= k {
                lo.push((v, w));
            } else if at >= k {
                hi.push((v, w));
            } else {
                let c = (k - at) as u8;
                lo.push((st.d.extract(&v, w, 0, c), c));
                hi.push((st.d.extract(&v, w, c, w - c), w - c));
            }
            at = end;
        }
        (lo, hi)
    }

    // ---------- calls ----------

    fn need(&mut self, st: &mut State, c: &CallI, ix: &[usize]) -> R<bool> {
        for i in ix {
            if ci(&st.fr.regs, c.args[*i]).is_none() {
                self.concretize(st, c.args[*i], 64)?;
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// where the number of the last system error stands
    fn errno(&mut self, st: &mut State) -> R<u64> {
        if st.errno == 0 {
            st.errno = self.alloc(st, 8, 8)?;
        }
        Ok(st.errno)
    }
    fn set(&self, st: &mut State, c: &CallI, v: V) {
        if c.d != NONE {
            st.fr.regs[c.d as usize] = v;
        }
    }

    fn call(&mut self, st: &mut State, c: &CallI) -> R<Act> {
        match &c.f {
            Callee::F(id) => {
                if self.m.funcs[*id as usize].body.is_none() {
                    return Err(End::Unsup(format!("call to external {}", self.m.funcs[*id as usize].name)));
                }
                let args: Vec<V> = c.args.iter().map(|a| get(&st.fr, *a)).collect();
                self.enter(st, *id, args, c.d, c.cont)?;
                Ok(Act::Frame)
            }
            Callee::Ind(o) => {
                let Some(a) = ci(&st.fr.regs, *o) else {
                    self.concretize(st, *o, 64)?;
                    return Ok(Act::Redo);
                };
                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(End::Panic(format!("indirect call to {:#x}", a)));
                }
                let id = ((a - FBASE) / 16) as u32;
                if let Some(b) = self.m.funcs[id as usize].bi {
                    return self.builtin(st, c, b);
                }
                if self.m.funcs[id as usize].body.is_none() {
                    return Err(End::Unsup(format!("call to external {}", self.m.funcs[id as usize].name)));
                }
                let args: Vec<V> = c.args.iter().map(|a| get(&st.fr, *a)).collect();
                self.enter(st, id, args, c.d, c.cont)?;
                Ok(Act::Frame)
            }
            Callee::B(b) => self.builtin(st, c, *b),
            Callee::Intr(i) => self.intr(st, c, *i),
            Callee::Unknown(n) => Err(End::Unsup(format!("call {}", n))),
        }
    }

    fn alloc(&self, st: &mut State, size: u64, align: u64) -> R<u64> {
        let al = align.max(16);
        let a = (st.heap + al - 1) / al * al;
        st.heap = a + size.max(1);
        if st.heap >= MEM_MAX {
            return Err(End::Unsup("heap exhausted".into()));
        }
        st.last_alloc = a;
        Ok(a)
    }

    /// the boolean "n bytes at a and b are equal"
    fn eq_bytes(&self, st: &State, a: u64, b: u64, n: u64) -> R<V> {
        let mut acc = V::I(1);
        for i in 0..n {
            let x = st.mem.byte(a + i)?;
            let y = st.mem.byte(b + i)?;
            let e = st.d.cmp(Op::Eq, 8, &x, &y);
            if let V::I(0) = e {
                return Ok(V::I(0));
            }
            acc = st.d.bin(Op::And, 1, &acc, &e);
        }
        Ok(acc)
    }

    fn builtin(&mut self, st: &mut State, c: &CallI, b: Bi) -> R<Act> {
        let j = st.job as usize;
        match b {
            Bi::SymBytes => {
                let p = ci(&st.fr.regs, c.args[0]).ok_or(End::Unsup("sym_bytes".into()))?;
                if !self.need(st, c, &[1])? {
                    return Ok(Act::Redo);
                }
                let n = ci(&st.fr.regs, c.args[1]).unwrap();
                for i in 0..n {
                    let v = st.d.d.len();
                    if v >= 64 {
                        return Err(End::Unsup("more than 64 symbolic bytes".into()));
                    }
                    st.d.d.push([!0; 4]);
                    st.init.push([!0; 4]);
                    st.d.model.push(b'a');
                    st.d.free |= 1 << v;
                    st.mem.store_byte(p + i, V::S(var(v)))?;
                }
            }
            Bi::SymDom => {
                // (byte pointer, pointer to 4 words)
                if !self.need(st, c, &[0, 1])? {
                    return Ok(Act::Redo);
                }
                let p = ci(&st.fr.regs, c.args[0]).unwrap();
                let q = ci(&st.fr.regs, c.args[1]).unwrap();
                let V::S(e) = st.mem.byte(p)? else { return Err(End::Unsup("sym_dom on concrete".into())) };
                if e.op != Op::Var {
                    return Err(End::Unsup("sym_dom on term".into()));
                }
                let mut d = [0u64; 4];
                for i in 0..4 {
                    match st.mem.load_c(q + 8 * i as u64, 8)? {
                        Some(k) => d[i] = k,
                        None => return Err(End::Unsup("sym_dom mask".into())),
                    }
                }
                let v = e.k as usize;
                let mut nd = st.d.d[v];
                for i in 0..4 {
                    nd[i] &= d[i];
                }
                if dom_count(&nd) == 0 {
                    return Err(End::Assumed);
                }
                st.init[v] = nd;
                if !dom_has(&nd, st.d.model[v] as usize) {
                    st.d.model[v] = dom_first(&nd);
                }
                self.set_dom(st, v, nd);
            }
            Bi::SymAssume => {
                let v = st.d.resolve(&get(&st.fr, c.args[0]));
                let w = c.tys[0].bits() as u8;
                let z = st.d.cmp(Op::Eq, w, &v, &V::I(0));
                match st.d.resolve(&z) {
                    V::I(0) => {}
                    V::I(_) => return Err(End::Assumed),
                    V::S(e) => match self.feasible(st, &e, false)? {
                        None => return Err(End::Assumed),
                        Some(m) => {
                            // the complement ends here, as an assumed-away path
                            let mut o = st.clone();
                            st.d.model = m;
                            self.add(st, &e, false);
                            if let Some(m2) = self.feasible(&o, &e, true)? {
                                o.d.model = m2;
                                self.add(&mut o, &e, true);
                                self.sh.live[j].fetch_add(1, Ordering::Relaxed);
                                self.end(&mut o, End::Assumed);
                            }
                        }
                    },
                    _ => return Err(End::Unsup("assume".into())),
                }
            }
            Bi::SymAssert => {
                // (cond, message pointer, message length)
                let v = st.d.resolve(&get(&st.fr, c.args[0]));
                let w = c.tys[0].bits() as u8;
                let z = st.d.cmp(Op::Eq, w, &v, &V::I(0));
                self.js[j].asserts += 1;
                let fail = match st.d.resolve(&z) {
                    V::I(0) => {
                        self.js[j].asserts_folded += 1;
                        None
                    }
                    V::I(_) => Some(st.d.model.clone()),
                    V::S(e) => {
                        self.js[j].asserts_z3 += 1;
                        let (vars, cons) = self.component(st, st.d.eff(&e));
                        match self.z3.check(&st.d, vars, &cons, &[(e.clone(), true)]) {
                            None => return Err(End::Unsup("solver unknown (assert)".into())),
                            Some(None) => None,
                            Some(Some(m)) => Some(m),
                        }
                    }
                    _ => return Err(End::Unsup("assert".into())),
                };
                if let Some(m) = fail {
                    let p = ci(&st.fr.regs, c.args[1]).unwrap_or(0);
                    let n = ci(&st.fr.regs, c.args[2]).unwrap_or(0);
                    let msg = self.cstring(st, p, n);
                    st.d.model = m;
                    return Err(End::Fail(msg));
                }
            }
            Bi::SymFail => {
                let p = ci(&st.fr.regs, c.args[0]).unwrap_or(0);
                let n = ci(&st.fr.regs, c.args[1]).unwrap_or(0);
                let msg = self.cstring(st, p, n);
                self.js[j].asserts += 1;
                return Err(End::Fail(msg));
            }
            Bi::SymOut => {
                if !self.need(st, c, &[0, 1])? {
                    return Ok(Act::Redo);
                }
                let p = ci(&st.fr.regs, c.args[0]).unwrap();
                let n = ci(&st.fr.regs, c.args[1]).unwrap();
                let v = st.mem.bytes(p, n)?;
                st.outs.push(Arc::new(v));
            }
            Bi::SymCover => {
                if !self.need(st, c, &[0])? {
                    return Ok(Act::Redo);
                }
                let k = ci(&st.fr.regs, c.args[0]).unwrap();
                st.covers |= 1 << (k & 63);
            }
            Bi::SymEq => {
                if !self.need(st, c, &[0, 1, 2])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let b = ci(&st.fr.regs, c.args[1]).unwrap();
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                let e = self.eq_bytes(st, a, b, n)?;
                let w = c.ret.bits() as u8;
                let r = st.d.zext(&e, 1, w);
                self.set(st, c, r);
            }
            Bi::SymSame => {
                // (bytes, length, bytes, length, message, length): the two are equal on every input of this path
                if !self.need(st, c, &[0, 1, 2, 3])? {
                    return Ok(Act::Redo);
                }
                let g = |i: usize| ci(&st.fr.regs, c.args[i]).unwrap();
                let (a, n, b, n2) = (g(0), g(1), g(2), g(3));
                self.js[j].asserts += 1;
                let mut bad = None;
                if n != n2 {
                    bad = Some(st.d.model.clone());
                } else {
                    let e = self.eq_bytes(st, a, b, n)?;
                    match st.d.resolve(&e) {
                        V::I(0) => bad = Some(st.d.model.clone()),
                        V::I(_) if !(self.js[j].asserts_same < 200 || self.js[j].asserts % 16 == 0) => self.js[j].asserts_folded += 1,
                        _ => {
                            let mut pairs = vec![];
                            for i in 0..n {
                                let x = st.mem.byte(a + i)?;
                                let y = st.mem.byte(b + i)?;
                                match (&x, &y) {
                                    (V::I(p), V::I(q)) if p == q => {}
                                    _ => pairs.push((x, y)),
                                }
                            }
                            if pairs.is_empty() {
                                self.js[j].asserts_folded += 1;
                            } else {
                                self.js[j].asserts_same += 1;
                                let cons = st.cons.clone();
                                match self.z3.differ(&st.d, &cons, &pairs) {
                                    None => return Err(End::Unsup("solver unknown (assert)".into())),
                                    Some(m) => bad = m,
                                }
                                if bad.is_some() && matches!(st.d.resolve(&e), V::I(_)) {
                                    return Err(End::Unsup("rewriting and solver disagree".into()));
                                }
                            }
                        }
                    }
                }
                if let Some(m) = bad {
                    let p = ci(&st.fr.regs, c.args[4]).unwrap_or(0);
                    let n = ci(&st.fr.regs, c.args[5]).unwrap_or(0);
                    let msg = self.cstring(st, p, n);
                    st.d.model = m;
                    return Err(End::Fail(msg));
                }
            }
            Bi::SymStop => return Err(End::Assumed),
            Bi::SymConcretize => {
                if !self.need(st, c, &[0])? {
                    return Ok(Act::Redo);
                }
                let v = get(&st.fr, c.args[0]);
                self.set(st, c, v);
            }
            Bi::Alloc | Bi::AllocZ => {
                if !self.need(st, c, &[0, 1])? {
                    return Ok(Act::Redo);
                }
                let n = ci(&st.fr.regs, c.args[0]).unwrap();
                let al = ci(&st.fr.regs, c.args[1]).unwrap();
                let a = self.alloc(st, n, al)?;
                self.set(st, c, V::I(a));
            }
            Bi::Dealloc => {}
            Bi::Realloc => {
                if !self.need(st, c, &[0, 1, 2, 3])? {
                    return Ok(Act::Redo);
                }
                let p = ci(&st.fr.regs, c.args[0]).unwrap();
                let old = ci(&st.fr.regs, c.args[1]).unwrap();
                let al = ci(&st.fr.regs, c.args[2]).unwrap();
                let new = ci(&st.fr.regs, c.args[3]).unwrap();
                if p == st.last_alloc && p != 0 {
                    st.heap = p + new.max(1);
                    if st.heap >= MEM_MAX {
                        return Err(End::Unsup("heap exhausted".into()));
                    }
                    self.set(st, c, V::I(p));
                } else {
                    let a = self.alloc(st, new, al)?;
                    st.mem.copy(a, p, old.min(new))?;
                    self.set(st, c, V::I(a));
                }
            }
            Bi::Memcmp | Bi::Bcmp => {
                if !self.need(st, c, &[0, 1, 2])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let p = ci(&st.fr.regs, c.args[1]).unwrap();
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                let w = c.ret.bits() as u8;
                let r = if b == Bi::Bcmp {
                    let e = self.eq_bytes(st, a, p, n)?;
                    let ne = st.d.not(&e);
                    st.d.zext(&ne, 1, w)
                } else {
                    let mut acc = V::I(0);
                    let mut parts = vec![];
                    for i in 0..n {
                        let x = st.mem.byte(a + i)?;
                        let y = st.mem.byte(p + i)?;
                        let e = st.d.cmp(Op::Eq, 8, &x, &y);
                        if let V::I(1) = e {
                            continue;
                        }
                        let stop = matches!(e, V::I(0));
                        let lt = st.d.cmp(Op::Ult, 8, &x, &y);
                        parts.push((e, lt));
                        if stop {
                            break;
                        }
                    }
                    for (e, lt) in parts.iter().rev() {
                        let d = st.d.ite(lt, &V::I(mask(w)), &V::I(1), w);
                        acc = st.d.ite(e, &acc, &d, w);
                    }
                    acc
                };
                self.set(st, c, r);
            }
            Bi::Memcpy => {
                if !self.need(st, c, &[0, 1, 2])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let p = ci(&st.fr.regs, c.args[1]).unwrap();
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                st.mem.copy(a, p, n)?;
                self.set(st, c, V::I(a));
            }
            Bi::Memset => {
                if !self.need(st, c, &[0, 2])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let v = get(&st.fr, c.args[1]);
                let w = c.tys[1].bits() as u8;
                let v = st.d.extract(&v, w, 0, 8);
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                st.mem.fill(a, n, v)?;
                self.set(st, c, V::I(a));
            }
            Bi::Random => {
                // seeds of std's hash maps: any fixed value is a legal one
                if !self.need(st, c, &[0, 1])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let n = ci(&st.fr.regs, c.args[1]).unwrap();
                st.mem.fill(a, n, V::I(0x5a))?;
                self.set(st, c, V::I(n));
            }
            Bi::Strlen => {
                if !self.need(st, c, &[0])? {
                    return Ok(Act::Redo);
                }
                let p = ci(&st.fr.regs, c.args[0]).unwrap();
                let mut n = 0;
                loop {
                    match st.mem.byte(p + n)? {
                        V::I(0) => break,
                        V::I(_) => n += 1,
                        _ => return Err(End::Unsup("strlen of symbolic bytes".into())),
                    }
                }
                self.set(st, c, V::I(n));
            }
            Bi::Strerror => {
                // the words of the C library are its own
                if !self.need(st, c, &[1, 2])? {
                    return Ok(Act::Redo);
                }
                let p = ci(&st.fr.regs, c.args[1]).unwrap();
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                if n < 6 {
                    return Err(End::Unsup("strerror".into()));
                }
                st.mem.write(p, b"error\0")?;
                self.set(st, c, V::I(0));
            }
            Bi::Panic => {
                let loc = self.location(st, c);
                return Err(End::Panic(loc));
            }
            Bi::Abort => return Err(End::Panic("abort".into())),
            Bi::Zero => self.set(st, c, V::I(0)),
            Bi::Errno => {
                let a = self.errno(st)?;
                self.set(st, c, V::I(a));
            }
            Bi::Nosys => {
                let a = self.errno(st)?;
                st.mem.store_c(a, 4, 38)?;
                self.set(st, c, V::I(u64::MAX));
            }
            Bi::Open => {
                if !self.need(st, c, &[0, 1])? {
                    return Ok(Act::Redo);
                }
                let p = ci(&st.fr.regs, c.args[0]).unwrap();
                let flags = ci(&st.fr.regs, c.args[1]).unwrap();
                let mut name = vec![];
                loop {
                    match st.mem.byte(p + name.len() as u64)? {
                        V::I(0) => break,
                        V::I(b) => name.push(b as u8),
                        _ => return Err(End::Unsup("symbolic file name".into())),
                    }
                }
                let mut k = st.files.iter().position(|f| f.0 == name);
                if k.is_none() && flags & 0o100 != 0 {
                    k = Some(st.files.len());
                    st.files.push((name, Arc::new(vec![])));
                }
                match k {
                    Some(k) => {
                        if flags & 0o1000 != 0 {
                            st.files[k].1 = Arc::new(vec![]);
                        }
                        let at = if flags & 0o2000 != 0 { usize::MAX } else { 0 };
                        st.fds.push((k, at));
                        self.set(st, c, V::I(2 + st.fds.len() as u64));
                    }
                    None => {
                        let a = self.errno(st)?;
                        st.mem.store_c(a, 4, 2)?;
                        self.set(st, c, V::I(u32::MAX as u64));
                    }
                }
            }
            Bi::Read | Bi::Write => {
                if !self.need(st, c, &[0, 1, 2])? {
                    return Ok(Act::Redo);
                }
                let fd = ci(&st.fr.regs, c.args[0]).unwrap();
                let p = ci(&st.fr.regs, c.args[1]).unwrap();
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                let i = fd.wrapping_sub(3) as usize;
                if i >= st.fds.len() {
                    // nothing is read from or shown on the terminal
                    self.set(st, c, V::I(0));
                    return Ok(Act::Next);
                }
                let (k, at) = st.fds[i];
                if b == Bi::Read {
                    let d = st.files[k].1.clone();
                    let n = (n as usize).min(d.len() - at.min(d.len()));
                    for j in 0..n {
                        st.mem.store_byte(p + j as u64, d[at + j].clone())?;
                    }
                    st.fds[i].1 = at + n;
                    self.set(st, c, V::I(n as u64));
                } else {
                    let v = st.mem.bytes(p, n)?;
                    let d = Arc::make_mut(&mut st.files[k].1);
                    let at = at.min(d.len());
                    for (j, x) in v.into_iter().enumerate() {
                        if at + j < d.len() {
                            d[at + j] = x
                        } else {
                            d.push(x)
                        }
                    }
                    st.fds[i].1 = at + n as usize;
                    self.set(st, c, V::I(n));
                }
            }
            Bi::MemchrAligned => {
                // fn memchr_aligned(x: u8, text: &[u8]) -> Option<usize>
                if !self.need(st, c, &[1, 2])? {
                    return Ok(Act::Redo);
                }
                let (Some(p), Some(n)) = (ci(&st.fr.regs, c.args[1]), ci(&st.fr.regs, c.args[2])) else {
                    return Err(End::Unsup("memchr".into()));
                };
                let x = get(&st.fr, c.args[0]);
                for i in 0..n {
                    let b = st.mem.byte(p + i)?;
                    let e = st.d.cmp(Op::Eq, 8, &x, &b);
                    match st.d.resolve(&e) {
                        V::I(0) => {}
                        V::I(_) => {
                            self.set(st, c, V::X(Arc::new(Ext::Agg(vec![V::I(1), V::I(i)]))));
                            return Ok(Act::Next);
                        }
                        V::S(e) => {
                            let mut ex = vec![];
                            let r = self.split(st, &e, &mut ex)?;
                            for (mut s, _) in ex {
                                // both sides re-execute under refined domains
                                s.fr.pc -= 1;
                                self.push(s);
                            }
                            let _ = r;
                            return Ok(Act::Redo);
                        }
                        _ => return Err(End::Unsup("memchr".into())),
                    }
                }
                self.set(st, c, V::X(Arc::new(Ext::Agg(vec![V::I(0), V::I(0)]))));
            }
        }
        Ok(Act::Next)
    }

    fn cstring(&self, st: &State, p: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n.min(300) {
            match st.mem.byte(p + i) {
                Ok(V::I(k)) => s.push(k as u8),
                Ok(V::S(e)) => s.push(eval(&e, &st.d.model) as u8),
                _ => s.push(b'?'),
            }
        }
        String::from_utf8_lossy(&s).into_owned()
    }

    fn location(&self, st: &State, c: &CallI) -> String {
        for a in c.args.iter().rev() {
            if let Some(p) = ci(&st.fr.regs, *a) {
                if p >= GBASE && p < self.m.gend {
                    if let (Ok(Some(f)), Ok(Some(n)), Ok(Some(l))) =
                        (st.mem.load_c(p, 8), st.mem.load_c(p + 8, 8), st.mem.load_c(p + 16, 4))
                    {
                        if f >= GBASE && f < self.m.gend && n > 4 && n < 300 && l > 0 {
                            let s = self.cstring(st, f, n);
                            let s = s.trim_end_matches('\0').to_string();
                            if s.ends_with(".rs") {
                                return format!("{}:{}", s, l);
                            }
                        }
                    }
                }
            }
        }
        "panic".into()
    }

    fn intr(&mut self, st: &mut State, c: &CallI, i: Intr) -> R<Act> {
        match i {
            Intr::Nop => return Ok(Act::Next),
            Intr::Memcpy => {
                if !self.need(st, c, &[0, 1, 2])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let p = ci(&st.fr.regs, c.args[1]).unwrap();
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                st.mem.copy(a, p, n)?;
                return Ok(Act::Next);
            }
            Intr::Memset => {
                if !self.need(st, c, &[0, 2])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let v = get(&st.fr, c.args[1]);
                let n = ci(&st.fr.regs, c.args[2]).unwrap();
                st.mem.fill(a, n, v)?;
                return Ok(Act::Next);
            }
            Intr::Trap => return Err(End::Panic("trap".into())),
            Intr::Tls => {
                let v = get(&st.fr, c.args[0]);
                self.set(st, c, v);
                return Ok(Act::Next);
            }
            Intr::Expect => {
                let v = get(&st.fr, c.args[0]);
                self.set(st, c, v);
                return Ok(Act::Next);
            }
            Intr::IsConst => {
                self.set(st, c, V::I(0));
                return Ok(Act::Next);
            }
            Intr::LoadRel => {
                if !self.need(st, c, &[0, 1])? {
                    return Ok(Act::Redo);
                }
                let a = ci(&st.fr.regs, c.args[0]).unwrap();
                let o = ci(&st.fr.regs, c.args[1]).unwrap();
                let Some(k) = st.mem.load_c(a.wrapping_add(o), 4)? else {
                    return Err(End::Unsup("load.relative".into()));
                };
                self.set(st, c, V::I(a.wrapping_add(sx(k, 32) as u64)));
                return Ok(Act::Next);
            }
            _ => {}
        }
        let t = &c.tys[0];
        // vectors element-wise for the simple binary/unary ones
        if let Ty::Vec(n, et) = t {
            let w = et.bits() as u8;
            let a = get(&st.fr, c.args[0]);
            match i {
                Intr::RedOr | Intr::RedAnd | Intr::RedAdd | Intr::RedUmax => {
                    let mut acc = a.agg()[0].clone();
                    for x in &a.agg()[1..] {
                        acc = match i {
                            Intr::RedOr => st.d.bin(Op::Or, w, &acc, x),
                            Intr::RedAnd => st.d.bin(Op::And, w, &acc, x),
                            Intr::RedAdd => st.d.bin(Op::Add, w, &acc, x),
                            _ => {
                                let l = st.d.cmp(Op::Ult, w, &acc, x);
                                st.d.ite(&l, x, &acc, w)
                            }
                        };
                    }
                    self.set(st, c, acc);
                    return Ok(Act::Next);
                }
                Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin | Intr::UaddSat | Intr::UsubSat => {
                    let b = get(&st.fr, c.args[1]);
                    let mut r = vec![];
                    for k in 0..*n as usize {
                        r.push(self.intr2(st, i, w, &a.agg()[k], &b.agg()[k])?);
                    }
                    self.set(st, c, V::X(Arc::new(Ext::Vec(r))));
                    return Ok(Act::Next);
                }
                Intr::Ctpop => {
                    let mut r = vec![];
                    for k in 0..*n as usize {
                        r.push(self.intr1(st, i, w, &a.agg()[k])?);
                    }
                    self.set(st, c, V::X(Arc::new(Ext::Vec(r))));
                    return Ok(Act::Next);
                }
                _ => return Err(End::Unsup(format!("vector intrinsic {:?}", i))),
            }
        }
        if t.bits() > 64 {
            let (Some(x), y) = (self.wide_c(&get(&st.fr, c.args[0])), c.args.get(1).map(|o| get(&st.fr, *o))) else {
                return Err(End::Unsup(format!("wide intrinsic {:?}", i)));
            };
            let w = t.bits();
            let y = y.and_then(|y| self.wide_c(&y)).unwrap_or(0);
            if w == 128 {
                let (p, q) = (x as i128, y as i128);
                let o = match i {
                    Intr::UaddO => Some(x.overflowing_add(y)),
                    Intr::UsubO => Some(x.overflowing_sub(y)),
                    Intr::UmulO => Some(x.overflowing_mul(y)),
                    Intr::SaddO => Some(p.overflowing_add(q)).map(|(r, o)| (r as u128, o)),
                    Intr::SsubO => Some(p.overflowing_sub(q)).map(|(r, o)| (r as u128, o)),
                    Intr::SmulO => Some(p.overflowing_mul(q)).map(|(r, o)| (r as u128, o)),
                    _ => None,
                };
                if let Some((r, o)) = o {
                    let r = Self::mkw(V::I(r as u64), V::I((r >> 64) as u64));
                    self.set(st, c, V::X(Arc::new(Ext::Agg(vec![r, V::I(o as u64)]))));
                    return Ok(Act::Next);
                }
            }
            let r: u128 = match i {
                Intr::Smax if w == 128 => (x as i128).max(y as i128) as u128,
                Intr::Smin if w == 128 => (x as i128).min(y as i128) as u128,
                Intr::Abs if w == 128 => (x as i128).wrapping_abs() as u128,
                Intr::Ctpop => x.count_ones() as u128,
                Intr::Umax => x.max(y),
                Intr::Umin => x.min(y),
                Intr::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                Intr::Cttz => x.trailing_zeros().min(w) as u128,
                Intr::Bswap if w == 128 => x.swap_bytes(),
                _ => return Err(End::Unsup(format!("wide intrinsic {:?}", i))),
            };
            self.set(st, c, Self::mkw(V::I(r as u64), V::I((r >> 64) as u64)));
            return Ok(Act::Next);
        }
        let w = t.bits() as u8;
        let a = get(&st.fr, c.args[0]);
        let r = match i {
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Abs | Intr::Bitreverse | Intr::Bswap => {
                match st.d.resolve(&a) {
                    V::I(_) => self.intr1(st, i, w, &st.d.resolve(&a))?,
                    V::S(e) if i == Intr::Bswap => st.d.bswap(&V::S(e), w),
                    V::S(e) => {
                        let eff = st.d.eff(&e);
                        if e.hi < 4096 && i == Intr::Ctpop || e.hi < 4096 && (i == Intr::Ctlz || i == Intr::Cttz) {
                            let lut: Vec<u64> = (0..=e.hi)
                                .map(|x| match i {
                                    Intr::Ctpop => x.count_ones() as u64,
                                    Intr::Ctlz => (x.leading_zeros() - (64 - w as u32)) as u64,
                                    _ => x.trailing_zeros().min(w as u32) as u64,
                                })
                                .collect();
                            let _ = eff;
                            st.d.lut(&V::S(e), w, 0, w, lut)
                        } else if i == Intr::Cttz || i == Intr::Ctlz {
                            // priority chain
                            let mut acc = V::I(w as u64);
                            for k in 0..w {
                                // lowest set bit wins for cttz: build from the far end
                                let bit = if i == Intr::Cttz { w - 1 - k } else { k };
                                let b = st.d.extract(&V::S(e.clone()), w, bit, 1);
                                let val = if i == Intr::Cttz { bit } else { w - 1 - bit } as u64;
                                acc = st.d.ite(&b, &V::I(val), &acc, w);
                            }
                            acc
                        } else if i == Intr::Ctpop {
                            let mut acc = V::I(0);
                            for k in 0..w {
                                let b = st.d.extract(&V::S(e.clone()), w, k, 1);
                                let b = st.d.zext(&b, 1, w);
                                acc = st.d.bin(Op::Add, w, &acc, &b);
                            }
                            acc
                        } else if i == Intr::Abs {
                            let neg = st.d.cmp(Op::Slt, w, &V::S(e.clone()), &V::I(0));
                            let n = st.d.bin(Op::Sub, w, &V::I(0), &V::S(e.clone()));
                            st.d.ite(&neg, &n, &V::S(e), w)
                        } else {
                            return Err(End::Unsup(format!("symbolic {:?}", i)));
                        }
                    }
                    _ => return Err(End::Unsup("intr".into())),
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let b = get(&st.fr, c.args[1]);
                let Some(k) = ci(&st.fr.regs, c.args[2]) else {
                    self.concretize(st, c.args[2], w)?;
                    return Ok(Act::Redo);
                };
                let k = (k % w as u64) as u8;
                let k = if i == Intr::Fshl { k } else { (w - k) % w };
                if k == 0 {
                    if i == Intr::Fshl {
                        a
                    } else {
                        b
                    }
                } else {
                    // (a << k) | (b >> (w-k))
                    let h = st.d.extract(&a, w, 0, w - k);
                    let l = st.d.extract(&b, w, w - k, k);
                    st.d.concat(&h, w - k, &l, k)
                }
            }
            Intr::Ucmp | Intr::Scmp => {
                let b = get(&st.fr, c.args[1]);
                let rw = c.ret.bits() as u8;
                let op = if i == Intr::Ucmp { Op::Ult } else { Op::Slt };
                let lt = st.d.cmp(op, w, &a, &b);
                let gt = st.d.cmp(op, w, &b, &a);
                let x = st.d.ite(&gt, &V::I(1), &V::I(0), rw);
                st.d.ite(&lt, &V::I(mask(rw)), &x, rw)
            }
            Intr::UaddO | Intr::UsubO | Intr::UmulO | Intr::SaddO | Intr::SsubO | Intr::SmulO => {
                let b = get(&st.fr, c.args[1]);
                let (a, b) = (st.d.resolve(&a), st.d.resolve(&b));
                let (r, o) = self.overflow(st, i, w, &a, &b)?;
                V::X(Arc::new(Ext::Agg(vec![r, o])))
            }
            Intr::Ptrmask => {
                let b = get(&st.fr, c.args[1]);
                st.d.bin(Op::And, 64, &a, &b)
            }
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin | Intr::UaddSat | Intr::UsubSat | Intr::SaddSat
            | Intr::SsubSat => {
                let b = get(&st.fr, c.args[1]);
                self.intr2(st, i, w, &a, &b)?
            }
            _ => return Err(End::Unsup(format!("intrinsic {:?}", i))),
        };
        self.set(st, c, r);
        Ok(Act::Next)
    }
    fn intr1(&self, _st: &State, i: Intr, w: u8, a: &V) -> R<V> {
        let V::I(x) = a else { return Err(End::Unsup("intr1".into())) };
        let x = *x;
        Ok(V::I(match i {
            Intr::Ctlz => (x.leading_zeros() - (64 - w as u32)) as u64,
            Intr::Cttz => x.trailing_zeros().min(w as u32) as u64,
            Intr::Ctpop => x.count_ones() as u64,
            Intr::Bswap => bswap(x, w),
            Intr::Bitreverse => x.reverse_bits() >> (64 - w as u32),
            Intr::Abs => (sx(x, w).wrapping_abs() as u64) & mask(w),
            _ => return Err(End::Unsup(format!("intr1 {:?}", i))),
        }))
    }
    fn intr2(&self, st: &State, i: Intr, w: u8, a: &V, b: &V) -> R<V> {
        let d = &st.d;
        Ok(match i {
            Intr::Umax => {
                let l = d.cmp(Op::Ult, w, a, b);
                d.ite(&l, b, a, w)
            }
            Intr::Umin => {
                let l = d.cmp(Op::Ult, w, a, b);
                d.ite(&l, a, b, w)
            }
            Intr::Smax => {
                let l = d.cmp(Op::Slt, w, a, b);
                d.ite(&l, b, a, w)
            }
            Intr::Smin => {
                let l = d.cmp(Op::Slt, w, a, b);
                d.ite(&l, a, b, w)
            }
            Intr::UaddSat => {
                let s = d.bin(Op::Add, w, a, b);
                let o = d.cmp(Op::Ult, w, &s, a);
                d.ite(&o, &V::I(mask(w)), &s, w)
            }
            Intr::UsubSat => {
                let s = d.bin(Op::Sub, w, a, b);
                let o = d.cmp(Op::Ult, w, a, b);
                d.ite(&o, &V::I(0), &s, w)
            }
            _ => return Err(End::Unsup(format!("intr2 {:?}", i))),
        })
    }
    fn overflow(&self, st: &State, i: Intr, w: u8, a: &V, b: &V) -> R<(V, V)> {
        let d = &st.d;
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return Ok(match i {
                Intr::UaddO => {
                    let s = x as u128 + y as u128;
                    (V::I(s as u64 & m), V::I((s > m as u128) as u64))
                }
                Intr::UsubO => (V::I(x.wrapping_sub(y) & m), V::I((x < y) as u64)),
                Intr::UmulO => {
                    let s = x as u128 * y as u128;
                    (V::I(s as u64 & m), V::I((s > m as u128) as u64))
                }
                _ => {
                    let (p, q) = (sx(x, w) as i128, sx(y, w) as i128);
                    let s = match i {
                        Intr::SaddO => p + q,
                        Intr::SsubO => p - q,
                        _ => p * q,
                    };
                    let t = s as u64 & m;
                    (V::I(t), V::I((sx(t, w) as i128 != s) as u64))
                }
            });
        }
        let hi = |v: &V| match v {
            V::I(k) => *k,
            V::S(e) => e.hi,
            _ => !0,
        };
        Ok(match i {
            Intr::UaddO => {
                let s = d.bin(Op::Add, w, a, b);
                if hi(a) as u128 + hi(b) as u128 <= mask(w) as u128 {
                    return Ok((s, V::I(0)));
                }
                let o = d.cmp(Op::Ult, w, &s, a);
                (s, o)
            }
            Intr::UsubO => {
                let s = d.bin(Op::Sub, w, a, b);
                let o = d.cmp(Op::Ult, w, a, b);
                (s, o)
            }
            Intr::UmulO => {
                let s = d.bin(Op::Mul, w, a, b);
                if hi(a) as u128 * hi(b) as u128 <= mask(w) as u128 {
                    return Ok((s, V::I(0)));
                }
                if w <= 32 {
                    let (x, y) = (d.zext(a, w, 2 * w), d.zext(b, w, 2 * w));
                    let p = d.bin(Op::Mul, 2 * w, &x, &y);
                    let o = d.cmp(Op::Ult, 2 * w, &V::I(mask(w)), &p);
                    (s, o)
                } else if let V::I(k) = b {
                    let o = if *k == 0 { V::I(0) } else { d.cmp(Op::Ult, w, &V::I(mask(w) / k), a) };
                    (s, o)
                } else {
                    return Err(End::Unsup("umul.overflow".into()));
                }
            }
            Intr::SaddO | Intr::SsubO => {
                let op = if i == Intr::SaddO { Op::Add } else { Op::Sub };
                let s = d.bin(op, w, a, b);
                if w < 64 {
                    let (x, y) = (d.sext(a, w, w + 1), d.sext(b, w, w + 1));
                    let p = d.bin(op, w + 1, &x, &y);
                    let q = d.sext(&s, w, w + 1);
                    let e = d.cmp(Op::Eq, w + 1, &p, &q);
                    (s.clone(), d.not(&e))
                } else {
                    // sign reasoning
                    let na = d.cmp(Op::Slt, w, a, &V::I(0));
                    let nb = d.cmp(Op::Slt, w, b, &V::I(0));
                    let ns = d.cmp(Op::Slt, w, &s, &V::I(0));
                    let nb = if op == Op::Sub { d.not(&nb) } else { nb };
                    let same = d.cmp(Op::Eq, 1, &na, &nb);
                    let diff0 = d.cmp(Op::Eq, 1, &na, &ns);
                    let diff = d.not(&diff0);
                    (s.clone(), d.bin(Op::And, 1, &same, &diff))
                }
            }
            _ => return Err(End::Unsup(format!("overflow {:?}", i))),
        })
    }
}

fn same_edge(f: &Func, a: u32, b: u32) -> bool {
    if a == b {
        return true;
    }
    let (x, y) = (&f.edges[a as usize], &f.edges[b as usize]);
    x.target == y.target
        && x.moves.len() == y.moves.len()
        && x.moves.iter().zip(&y.moves).all(|(p, q)| {
            p.0 == q.0
                && match (p.1, q.1) {
                    (O::R(a), O::R(b)) => a == b,
                    (O::C(a), O::C(b)) => a == b,
                    (O::K(a), O::K(b)) => a == b,
                    _ => false,
                }
        })
}

fn cmp_c(p: Pred, w: u8, x: u64, y: u64) -> u64 {
    (match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx(x, w) > sx(y, w),
        Pred::Sge => sx(x, w) >= sx(y, w),
        Pred::Slt => sx(x, w) < sx(y, w),
        Pred::Sle => sx(x, w) <= sx(y, w),
    }) as u64
}

/// rough demangling of v0 symbols: the identifiers in order
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        // hash disambiguators s<base62>_
        if b[i] == b's' {
            let mut k = i + 1;
            while k < b.len() && b[k].is_ascii_alphanumeric() {
                k += 1;
            }
            if k < b.len() && b[k] == b'_' && k > i + 1 {
                i = k + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize;
            let mut k = i;
            while k < b.len() && b[k].is_ascii_digit() {
                n = n * 10 + (b[k] - b'0') as usize;
                k += 1;
            }
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if k + n <= b.len() && n < 100 {
                let id = &s[k..k + n];
                if !id.is_empty() {
                    out.push(id.to_string());
                }
                i = k + n;
                continue;
            }
        }
        i += 1;
    }
    if out.len() > 5 {
        out.truncate(5);
        out.push("..".into());
    }
    out.join("::")
}
