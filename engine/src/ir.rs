//! Reader for textual LLVM IR: types, constants, globals and functions are
//! decoded (functions lazily) into a compact register form.
use crate::expr::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Arc<Ty>),
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Label,
    Meta,
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        match self {
            Ty::Int(n) => *n <= 64,
            Ty::Ptr | Ty::Double | Ty::Float => true,
            _ => false,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match self {
            Ty::Int(_) | Ty::Vec(..) => up(self.store_size(), self.align()),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        o = up(o, t.align());
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn zero(&self) -> V {
        match self {
            Ty::Struct(f, _) => V::X(Arc::new(Ext::Agg(f.iter().map(|t| t.zero()).collect()))),
            Ty::Arr(n, t) => V::X(Arc::new(Ext::Agg((0..*n).map(|_| t.zero()).collect()))),
            Ty::Vec(n, t) => V::X(Arc::new(Ext::Vec((0..*n).map(|_| t.zero()).collect()))),
            Ty::Int(n) if *n > 64 => V::X(Arc::new(Ext::Wide(V::I(0), V::I(0)))),
            _ => V::I(0),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    C(u64),
    K(u32),
}
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Debug)]
pub enum Callee {
    F(u32),
    Ind(O),
    B(Bi),
    Intr(Intr),
    Unknown(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bi {
    SymBytes,
    SymDom,
    SymAssume,
    SymAssert,
    SymFail,
    SymOut,
    SymCover,
    SymEq,
    SymSame,
    SymStop,
    SymConcretize,
    Alloc,
    Dealloc,
    Realloc,
    AllocZ,
    Memcmp,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    Panic,
    Abort,
    Zero,
    MemchrAligned,
    Random,
    /// a file system in memory
    Open,
    Read,
    Write,
    Errno,
    Strerror,
    /// a system call that is not there
    Nosys,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Trap,
    Expect,
    IsConst,
    Ucmp,
    Scmp,
    Tls,
    LoadRel,
    RedOr,
    RedAnd,
    RedAdd,
    RedUmax,
    Pause,
    ObjSize,
    Ptrmask,
    Unsupported,
}

#[derive(Debug)]
pub struct CallI {
    pub f: Callee,
    pub args: Vec<O>,
    pub tys: Vec<Ty>,
    pub ret: Ty,
    pub d: u32,
    /// invoke: continue at this edge
    pub cont: u32,
}
#[derive(Debug)]
pub struct SwI {
    pub w: u8,
    pub a: O,
    pub def: u32,
    pub cases: Vec<(u64, u32)>,
    pub map: HashMap<u64, u32>,
}
#[derive(Debug)]
pub enum GenI {
    Bin(Op, Ty, u32, O, O),
    Cmp(Pred, Ty, u32, O, O),
    Cast(CastK, Ty, Ty, u32, O),
    Sel(Ty, Ty, u32, O, O, O),
    Ld(Ty, u32, O),
    St(Ty, O, O),
    ExtV(u32, O, Vec<usize>),
    InsV(u32, O, O, Vec<usize>),
    ExtE(u32, O, O),
    InsE(u32, O, O, O),
    Shuf(u32, O, O, Vec<i32>),
    Rmw(String, u8, u32, O, O),
    CmpXchg(u8, u32, O, O, O),
    AllocaDyn(u32, u64, O, u64),
    Unsup(String),
}
pub enum I {
    Bin(Op, u8, u32, O, O),
    Cmp(Pred, u8, u32, O, O),
    Zext(u8, u8, u32, O),
    Sext(u8, u8, u32, O),
    Trunc(u8, u8, u32, O),
    Copy(u32, O),
    Sel(u8, u32, O, O, O),
    Ld(u8, u8, u32, O),
    St(u8, u8, O, O),
    Gep0(u32, O, u64),
    Gep1(u32, O, u64, O, u8, u64),
    Gep(u32, O, u64, Box<[(O, u8, u64)]>),
    Alloca(u32, u64),
    Call(Box<CallI>),
    Br(u32),
    CBr(O, u32, u32),
    Sw(Box<SwI>),
    Ret(O),
    RetVoid,
    Unreach,
    Gen(Box<GenI>),
}

#[derive(Clone)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, O)>,
    pub simple: bool,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: usize,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub pool: Vec<V>,
    pub frame: u64,
    pub params: Vec<u32>,
}

pub struct FSrc {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the define in text
    pub bi: Option<Bi>,
    pub dec: OnceLock<Arc<Func>>,
}
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub addr: u64,
    pub init: (usize, usize),
    pub external: bool,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub funcs: Vec<FSrc>,
    pub fidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub gend: u64,
}

pub const FBASE: u64 = 0x1000_0000; // function addresses: above the memory space
pub const GBASE: u64 = 0x1_0000;

pub fn builtin_of(name: &str) -> Option<Bi> {
    let b = match name {
        "sym_bytes" => Bi::SymBytes,
        "sym_dom" => Bi::SymDom,
        "sym_assume" => Bi::SymAssume,
        "sym_assert" => Bi::SymAssert,
        "sym_fail" => Bi::SymFail,
        "sym_out" => Bi::SymOut,
        "sym_cover" => Bi::SymCover,
        "sym_eq" => Bi::SymEq,
        "sym_same" => Bi::SymSame,
        "sym_stop" => Bi::SymStop,
        "sym_concretize" => Bi::SymConcretize,
        "sym_alloc" => Bi::Alloc,
        "sym_alloc_zeroed" => Bi::AllocZ,
        "sym_dealloc" => Bi::Dealloc,
        "sym_realloc" => Bi::Realloc,
        "memcmp" => Bi::Memcmp,
        "bcmp" => Bi::Bcmp,
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "strlen" => Bi::Strlen,
        "abort" => Bi::Abort,
        "getrandom" => Bi::Random,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "writev" | "close" => Bi::Zero,
        "open64" | "open" => Bi::Open,
        "read" => Bi::Read,
        "write" => Bi::Write,
        "__errno_location" => Bi::Errno,
        "__xpg_strerror_r" => Bi::Strerror,
        "statx" | "stat64" | "fstat64" | "lstat64" | "lseek64" | "lseek" => Bi::Nosys,
        _ => {
            if name.starts_with("_R") || name.starts_with("_ZN") {
                let p = [
                    "4core9panicking",
                    "rust_begin_unwind",
                    "slice_error_fail",
                    "unwrap_failed",
                    "expect_failed",
                    "handle_alloc_error",
                    "capacity_overflow",
                    "7raw_vec12handle_error",
                    "slice_start_index_len_fail",
                    "slice_end_index_len_fail",
                    "slice_index_order_fail",
                    "slice_index_fail",
                    "panic_already_borrowed",
                    "panic_already_mutably_borrowed",
                    "panic_access_error",
                    "begin_panic",
                    "panic_display",
                    "panic_nounwind",
                    "panic_bounds_check",
                    "assert_failed",
                ];
                if p.iter().any(|x| name.contains(x)) {
                    return Some(Bi::Panic);
                }
                // a keyed hash is any number: the same one for all keys
                if name.contains("4hash6random11RandomState") && name.contains("11BuildHasher8hash_one") {
                    return Some(Bi::Zero);
                }
                if name.contains("5slice6memchr14memchr_aligned") {
                    return Some(Bi::MemchrAligned);
                }
            }
            return None;
        }
    };
    Some(b)
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0, m }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else if c.is_ascii_whitespace() {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    fn fail(&self, msg: &str) -> ! {
        let s = self.i.saturating_sub(80);
        let e = (self.i + 120).min(self.s.len());
        panic!(
            "IR parse: {} at ...{}<<HERE>>{}",
            msg,
            String::from_utf8_lossy(&self.s[s..self.i.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..e])
        )
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[s..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let s = self.i;
        if self.word() == w {
            true
        } else {
            self.i = s;
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let s = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[s..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let s = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[s..self.i]).into_owned()
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        self.ws();
        let w = self.word();
        w.parse::<u64>().unwrap_or_else(|_| self.fail(&format!("number, got {:?}", w)))
    }
    fn ty(&mut self) -> Ty {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}');
                Ty::Struct(Arc::new(f), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}');
                    self.expect(b'>');
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.num();
                    if !self.eat_word("x") {
                        self.fail("x");
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Arc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num();
                if !self.eat_word("x") {
                    self.fail("x");
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Arc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                self.m.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" | "half" | "fp128" | "x86_fp80" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => self.fail(&format!("type {:?}", w)),
                }
            }
        };
        // function type suffix
        t
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(b',') {
                continue;
            }
            self.expect(end);
            return v;
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.expect(b'"');
        let mut v = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => return v,
                b'\\' if self.s[self.i] == b'\\' => {
                    v.push(b'\\');
                    self.i += 1;
                }
                b'\\' => {
                    let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 2;
                }
                c => v.push(c),
            }
        }
    }
    /// Skip parameter attributes between a type and its operand.
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.cstr();
                if self.eat(b'=') {
                    self.cstr();
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let s = self.i;
            let w = self.word();
            match w {
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "c" | "none" | "getelementptr"
                | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "and"
                | "or" | "shl" | "lshr" | "icmp" | "select" | "asm" | "splat" | "blockaddress" | "metadata"
                | "ptrtoaddr" => {
                    self.i = s;
                    return;
                }
                "align" => {
                    if self.peek() == b'(' {
                        self.skip_parens()
                    } else {
                        self.num();
                    }
                }
                "i1" | "i8" | "i16" | "i32" | "i64" | "ptr" => {
                    self.i = s;
                    return;
                }
                _ => {
                    if self.i < self.s.len() && self.s[self.i] == b'(' {
                        self.skip_parens();
                    }
                }
            }
        }
    }
    fn global_addr(&mut self, n: &str) -> u64 {
        self.m.addr_of(n)
    }
    /// constant of a given type
    fn konst(&mut self, t: &Ty) -> V {
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.name();
                V::I(self.global_addr(&n))
            }
            b'[' | b'<' | b'{' => {
                let open = self.s[self.i];
                self.i += 1;
                let packed = open == b'<' && self.eat(b'{');
                let end = match open {
                    b'[' => b']',
                    b'{' => b'}',
                    _ if packed => b'}',
                    _ => b'>',
                };
                let mut v = vec![];
                if !self.eat(end) {
                    loop {
                        let et = self.ty();
                        v.push(self.konst(&et));
                        if self.eat(b',') {
                            continue;
                        }
                        self.expect(end);
                        break;
                    }
                }
                if packed {
                    self.expect(b'>');
                }
                V::X(Arc::new(if matches!(t, Ty::Vec(..)) { Ext::Vec(v) } else { Ext::Agg(v) }))
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let w = self.word();
                if matches!(t, Ty::Double | Ty::Float) {
                    if let Some(h) = w.strip_prefix("0x") {
                        let b = u64::from_str_radix(h, 16).unwrap();
                        return if *t == Ty::Float { V::I((f64::from_bits(b) as f32).to_bits() as u64) } else { V::I(b) };
                    }
                    // 1.000000e+00
                    let mut s = w.to_string();
                    if self.s.get(self.i) == Some(&b'+') {
                        self.i += 1;
                        s.push_str(self.word());
                    }
                    let f: f64 = s.parse().unwrap();
                    return if *t == Ty::Float { V::I((f as f32).to_bits() as u64) } else { V::I(f.to_bits()) };
                }
                let bits = t.bits();
                if bits <= 64 {
                    let v: i128 = w.parse().unwrap();
                    V::I(v as u64 & mask(bits as u8))
                } else {
                    let v: u128 = if let Some(n) = w.strip_prefix('-') {
                        (n.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        w.parse().unwrap()
                    };
                    V::X(Arc::new(Ext::Wide(V::I(v as u64), V::I((v >> 64) as u64 & mask((bits - 64).min(64) as u8)))))
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" | "false" | "none" => V::I(0),
                    "true" => V::I(1),
                    "undef" | "poison" | "zeroinitializer" => t.zero(),
                    "c" => {
                        let b = self.cstr();
                        V::X(Arc::new(Ext::Agg(b.into_iter().map(|x| V::I(x as u64)).collect())))
                    }
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        self.expect(b')');
                        match t {
                            Ty::Vec(n, _) => V::X(Arc::new(Ext::Vec(vec![v; *n as usize]))),
                            _ => v,
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            let w = self.word();
                            if w == "inrange" {
                                self.skip_parens();
                                continue;
                            }
                            if w.is_empty() {
                                self.fail("gep");
                            }
                        }
                        self.expect(b'(');
                        let bt = self.ty();
                        self.expect(b',');
                        let _pt = self.ty();
                        let base = self.konst(&Ty::Ptr);
                        let mut a = match base {
                            V::I(x) => x,
                            _ => panic!(),
                        };
                        let mut cur = bt;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let V::I(k) = self.konst(&it) else { panic!() };
                            let k = sx(k, it.bits() as u8);
                            if first {
                                a = a.wrapping_add((k as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                match &cur {
                                    Ty::Struct(..) => {
                                        let (o, t) = cur.field(k as usize);
                                        a = a.wrapping_add(o);
                                        cur = t;
                                    }
                                    Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                        a = a.wrapping_add((k as u64).wrapping_mul(t.size()));
                                        cur = (**t).clone();
                                    }
                                    _ => self.fail("gep const"),
                                }
                            }
                        }
                        self.expect(b')');
                        V::I(a)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let ft = self.ty();
                        let v = self.konst(&ft);
                        if !self.eat_word("to") {
                            self.fail("to");
                        }
                        let tt = self.ty();
                        self.expect(b')');
                        match v {
                            V::I(x) => V::I(x & mask(tt.bits().min(64) as u8)),
                            v => v,
                        }
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                        while self.peek() != b'(' {
                            self.word();
                        }
                        self.expect(b'(');
                        let t1 = self.ty();
                        let V::I(a) = self.konst(&t1) else { panic!() };
                        self.expect(b',');
                        let t2 = self.ty();
                        let V::I(b) = self.konst(&t2) else { panic!() };
                        self.expect(b')');
                        let op = bin_op(w).unwrap();
                        V::I(fold(op, t1.bits() as u8, a, b))
                    }
                    _ => self.fail(&format!("constant {:?}", w)),
                }
            }
        }
    }
}

fn bin_op(w: &str) -> Option<Op> {
    Some(match w {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        _ => return None,
    })
}

impl Module {
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(f) = self.fidx.get(n) {
            return FBASE + *f as u64 * 16;
        }
        if let Some(a) = self.aliases.get(n) {
            return self.addr_of(a);
        }
        panic!("unknown symbol @{}", n)
    }
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            types: HashMap::new(),
            globals: vec![],
            gaddr: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            aliases: HashMap::new(),
            gend: 0,
        };
        // pass 1: line scan for top-level entities
        let b = text.as_bytes();
        let mut i = 0;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tylines: Vec<(usize, usize)> = vec![];
        while i < b.len() {
            let e = b[i..].iter().position(|c| *c == b'\n').map_or(b.len(), |p| i + p);
            let line = &text[i..e];
            if line.starts_with("define ") {
                // find end of body
                let close = text[e..].find("\n}").map(|p| e + p + 2).expect("function body");
                let n = fname(line);
                let id = m.funcs.len() as u32;
                m.fidx.insert(n.clone(), id);
                let bi = builtin_of(&n);
                m.funcs.push(FSrc { name: n, body: Some((i, close)), bi, dec: OnceLock::new() });
                i = close;
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
                i += 1;
                continue;
            } else if line.starts_with("declare ") {
                let n = fname(line);
                let id = m.funcs.len() as u32;
                if !m.fidx.contains_key(&n) {
                    m.fidx.insert(n.clone(), id);
                    let bi = builtin_of(&n);
                    m.funcs.push(FSrc { name: n, body: None, bi, dec: OnceLock::new() });
                }
            } else if line.starts_with('@') {
                glines.push((i, e));
            } else if line.starts_with('%') {
                tylines.push((i, e));
            }
            i = e + 1;
        }
        for _ in 0..3 {
            for (s, e) in &tylines {
                let line = &text[*s..*e];
                let (name, ty) = {
                    let mut p = P::new(&m, line);
                    p.expect(b'%');
                    let n = p.name();
                    p.expect(b'=');
                    p.word();
                    let t = p.ty();
                    (n, t)
                };
                m.types.insert(name, ty);
            }
        }
        let mut addr = GBASE;
        let mut gs = vec![];
        for (s, e) in &glines {
            let line = &text[*s..*e];
            let mut p = P::new(&m, line);
            p.expect(b'@');
            let n = p.name();
            p.expect(b'=');
            let mut external = false;
            let mut weak = false;
            let mut alias = false;
            loop {
                let st = p.i;
                let w = p.word();
                match w {
                    "external" => external = true,
                    "extern_weak" => {
                        external = true;
                        weak = true
                    }
                    "global" | "constant" => break,
                    "alias" => {
                        alias = true;
                        break;
                    }
                    "" => p.fail("global"),
                    _ => {
                        if p.i < p.s.len() && p.s[p.i] == b'(' {
                            p.skip_parens();
                        }
                        let _ = st;
                    }
                }
            }
            if alias {
                let _ = p.ty();
                p.expect(b',');
                let _ = p.ty();
                p.expect(b'@');
                let t = p.name();
                m.aliases.insert(n, t);
                continue;
            }
            let t = p.ty();
            if weak {
                m.gaddr.insert(n, 0);
                continue;
            }
            let al = t.align().max(16);
            addr = (addr + al - 1) / al * al;
            gs.push(Global { name: n.clone(), addr, init: (*s + p.i, *e), external, ty: t.clone() });
            m.gaddr.insert(n, addr);
            addr += t.size().max(1) + 16;
        }
        m.globals = gs;
        m.gend = (addr + 0xffff) & !0xffff;
        m.text = text;
        m
    }

    pub fn init_globals(&self, mem: &mut crate::mem::Mem) {
        for g in &self.globals {
            if g.external {
                continue;
            }
            let mut p = P::new(self, &self.text[g.init.0..g.init.1]);
            let v = p.konst(&g.ty);
            let mut buf = vec![0u8; g.ty.size() as usize];
            flat(&g.ty, &v, &mut buf, 0);
            mem.write(g.addr, &buf).unwrap();
        }
    }

    pub fn func(&self, id: u32) -> Arc<Func> {
        let f = &self.funcs[id as usize];
        f.dec
            .get_or_init(|| {
                let (s, e) = f.body.unwrap_or_else(|| panic!("no body for {}", f.name));
                Arc::new(decode(self, id, &f.name, &self.text[s..e]))
            })
            .clone()
    }
}

fn flat(t: &Ty, v: &V, buf: &mut [u8], o: usize) {
    match v {
        V::I(k) => {
            let n = t.store_size() as usize;
            if matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double) {
                buf[o..o + n].copy_from_slice(&k.to_le_bytes()[..n]);
            }
        }
        V::X(x) => match &**x {
            Ext::Agg(f) | Ext::Vec(f) => {
                if let Ty::Arr(_, et) = t {
                    let es = et.size() as usize;
                    for (i, x) in f.iter().enumerate() {
                        flat(et, x, buf, o + i * es);
                    }
                } else {
                    for (i, x) in f.iter().enumerate() {
                        let (fo, ft) = t.field(i);
                        flat(&ft, x, buf, o + fo as usize);
                    }
                }
            }
            Ext::Wide(V::I(l), V::I(h)) => {
                let n = t.store_size() as usize;
                buf[o..o + 8].copy_from_slice(&l.to_le_bytes());
                buf[o + 8..o + n].copy_from_slice(&h.to_le_bytes()[..n - 8]);
            }
            _ => panic!(),
        },
        _ => panic!(),
    }
}

fn fname(line: &str) -> String {
    let at = line.find('@').unwrap() + 1;
    let r = &line[at..];
    if let Some(q) = r.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    let n = n.strip_prefix("llvm.")?;
    let tbl: &[(&str, Intr)] = &[
        ("lifetime.", Intr::Nop),
        ("assume", Intr::Nop),
        ("experimental.noalias.scope.decl", Intr::Nop),
        ("prefetch", Intr::Nop),
        ("dbg.", Intr::Nop),
        ("donothing", Intr::Nop),
        ("invariant.", Intr::Nop),
        ("memcpy.", Intr::Memcpy),
        ("memmove.", Intr::Memcpy),
        ("memset.", Intr::Memset),
        ("umax.", Intr::Umax),
        ("umin.", Intr::Umin),
        ("smax.", Intr::Smax),
        ("smin.", Intr::Smin),
        ("abs.", Intr::Abs),
        ("ctlz.", Intr::Ctlz),
        ("cttz.", Intr::Cttz),
        ("ctpop.", Intr::Ctpop),
        ("bswap.", Intr::Bswap),
        ("bitreverse.", Intr::Bitreverse),
        ("fshl.", Intr::Fshl),
        ("fshr.", Intr::Fshr),
        ("uadd.sat.", Intr::UaddSat),
        ("usub.sat.", Intr::UsubSat),
        ("sadd.sat.", Intr::SaddSat),
        ("ssub.sat.", Intr::SsubSat),
        ("uadd.with.overflow.", Intr::UaddO),
        ("usub.with.overflow.", Intr::UsubO),
        ("umul.with.overflow.", Intr::UmulO),
        ("sadd.with.overflow.", Intr::SaddO),
        ("ssub.with.overflow.", Intr::SsubO),
        ("smul.with.overflow.", Intr::SmulO),
        ("trap", Intr::Trap),
        ("ubsantrap", Intr::Trap),
        ("expect.", Intr::Expect),
        ("is.constant.", Intr::IsConst),
        ("ucmp.", Intr::Ucmp),
        ("scmp.", Intr::Scmp),
        ("threadlocal.address", Intr::Tls),
        ("load.relative.", Intr::LoadRel),
        ("vector.reduce.or.", Intr::RedOr),
        ("vector.reduce.and.", Intr::RedAnd),
        ("vector.reduce.add.", Intr::RedAdd),
        ("vector.reduce.umax.", Intr::RedUmax),
        ("x86.sse2.pause", Intr::Nop),
    ];
    for (p, i) in tbl {
        if n.starts_with(p) {
            return Some(*i);
        }
    }
    Some(Intr::Unsupported)
}

struct Dec<'a> {
    regs: HashMap<String, u32>,
    pool: Vec<V>,
    m: &'a Module,
}
impl<'a> Dec<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn opd(&mut self, p: &mut P, t: &Ty) -> O {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return O::R(self.reg(&n));
        }
        if *t == Ty::Meta {
            // metadata operand: skip to , or )
            let mut d = 0;
            while p.i < p.s.len() {
                match p.s[p.i] {
                    b'(' => d += 1,
                    b')' if d == 0 => break,
                    b')' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            return O::C(0);
        }
        match p.konst(t) {
            V::I(k) => O::C(k),
            v => {
                self.pool.push(v);
                O::K(self.pool.len() as u32 - 1)
            }
        }
    }
    fn topd(&mut self, p: &mut P) -> (Ty, O) {
        let t = p.ty();
        p.attrs();
        let o = self.opd(p, &t);
        (t, o)
    }
}

fn skip_flags(p: &mut P, flags: &[&str]) {
    loop {
        let s = p.i;
        let w = p.word();
        if !flags.contains(&w) {
            p.i = s;
            return;
        }
    }
}

fn decode(m: &Module, id: u32, name: &str, src: &str) -> Func {
    let mut d = Dec { regs: HashMap::new(), pool: vec![], m };
    let hdr_end = src.find('\n').unwrap();
    // params
    let hdr = &src[..hdr_end];
    let mut params = vec![];
    {
        let mut p = P::new(m, hdr);
        p.i = hdr.find('@').unwrap() + 1;
        p.name();
        p.expect(b'(');
        if !p.eat(b')') {
            let mut anon = 0;
            loop {
                if p.peek() == b'.' {
                    break;
                }
                let _t = p.ty();
                p.attrs();
                if p.peek() == b'%' {
                    p.i += 1;
                    let n = p.name();
                    params.push(d.reg(&n));
                } else {
                    params.push(d.reg(&anon.to_string()));
                }
                anon += 1;
                if p.eat(b',') {
                    continue;
                }
                p.expect(b')');
                break;
            }
        }
    }
    // logical lines per block
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut lines = src[hdr_end + 1..].lines().peekable();
    let mut first_label = None;
    while let Some(l) = lines.next() {
        let t = l.trim();
        if t.is_empty() || t.starts_with(';') || t == "}" || t.starts_with("#dbg_") {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let lab = if let Some(q) = t.strip_prefix('"') {
                q[..q.find('"').unwrap()].to_string()
            } else {
                t[..t.find(':').unwrap()].to_string()
            };
            if first_label.is_none() {
                first_label = Some(lab.clone());
            }
            blocks.push((lab, vec![]));
            continue;
        }
        if blocks.is_empty() {
            blocks.push(("<entry>".into(), vec![]));
        }
        let mut s = t.to_string();
        if (s.starts_with("switch ")) && s.ends_with('[') {
            for l2 in lines.by_ref() {
                s.push('\n');
                s.push_str(l2.trim());
                if l2.trim_start().starts_with(']') {
                    break;
                }
            }
        }
        let is_invoke = s.starts_with("invoke ") || s.contains("= invoke ");
        if is_invoke {
            if let Some(l2) = lines.peek() {
                if l2.trim_start().starts_with("to label") {
                    s.push(' ');
                    s.push_str(lines.next().unwrap().trim());
                }
            }
        }
        if s.contains("landingpad ") {
            while let Some(l2) = lines.peek() {
                let t2 = l2.trim_start();
                if t2.starts_with("cleanup") || t2.starts_with("catch") || t2.starts_with("filter") {
                    lines.next();
                } else {
                    break;
                }
            }
        }
        blocks.last_mut().unwrap().1.push(s);
    }
    let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
    // phis: per block list of (dst, ty, incoming label -> operand)
    let mut phis: Vec<Vec<(u32, Vec<(usize, O)>)>> = vec![];
    let mut starts = vec![0usize; blocks.len()];
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        let mut v = vec![];
        let mut k = 0;
        for l in ls {
            let Some(eq) = l.find(" = phi ") else { break };
            let mut p = P::new(m, l);
            p.expect(b'%');
            let n = p.name();
            let dst = d.reg(&n);
            p.i = eq + 7;
            skip_flags(&mut p, &["nnan", "ninf", "nsz", "fast"]);
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.expect(b'[');
                let o = d.opd(&mut p, &t);
                p.expect(b',');
                p.expect(b'%');
                let lab = p.name();
                p.expect(b']');
                let from = bidx.get(&lab).copied().unwrap_or(0);
                inc.push((from, o));
                if !p.eat(b',') {
                    break;
                }
                if p.peek() != b'[' {
                    break;
                }
            }
            v.push((dst, inc));
            k += 1;
        }
        starts[bi] = k;
        phis.push(v);
    }
    let mut code: Vec<I> = vec![];
    let mut edges: Vec<Edge> = vec![];
    let mut block_pc = vec![0u32; blocks.len()];
    let mut frame = 0u64;
    let edge = |edges: &mut Vec<Edge>, from: usize, lab: &str| -> u32 {
        let to = *bidx.get(lab).unwrap_or_else(|| panic!("label {} in {}", lab, name));
        let mut moves = vec![];
        for (dst, inc) in &phis[to] {
            let o = inc.iter().find(|(f, _)| *f == from).unwrap_or_else(|| panic!("phi edge in {}", name)).1;
            moves.push((*dst, o));
        }
        let dsts: Vec<u32> = moves.iter().map(|x| x.0).collect();
        let simple = moves.len() < 2 || !moves.iter().any(|(_, o)| matches!(o, O::R(r) if dsts.contains(r)));
        edges.push(Edge { target: to as u32, moves, simple });
        edges.len() as u32 - 1
    };
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        block_pc[bi] = code.len() as u32;
        for l in &ls[starts[bi]..] {
            let mut p = P::new(m, l);
            let mut dst = NONE;
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                dst = d.reg(&n);
                p.expect(b'=');
            }
            let mut w = p.word();
            if matches!(w, "tail" | "musttail" | "notail") {
                w = p.word();
            }
            match w {
                "ret" => {
                    let t = p.ty();
                    if t == Ty::Void {
                        code.push(I::RetVoid);
                    } else {
                        p.attrs();
                        let o = d.opd(&mut p, &t);
                        code.push(I::Ret(o));
                    }
                }
                "unreachable" | "resume" => code.push(I::Unreach),
                "landingpad" => code.push(I::Unreach),
                "br" => {
                    let t = p.ty();
                    if t == Ty::Label {
                        p.expect(b'%');
                        let n = p.name();
                        let e = edge(&mut edges, bi, &n);
                        code.push(I::Br(e));
                    } else {
                        let c = d.opd(&mut p, &t);
                        p.expect(b',');
                        p.ty();
                        p.expect(b'%');
                        let a = p.name();
                        p.expect(b',');
                        p.ty();
                        p.expect(b'%');
                        let b = p.name();
                        let ea = edge(&mut edges, bi, &a);
                        let eb = edge(&mut edges, bi, &b);
                        code.push(I::CBr(c, ea, eb));
                    }
                }
                "switch" => {
                    let t = p.ty();
                    let a = d.opd(&mut p, &t);
                    p.expect(b',');
                    p.ty();
                    p.expect(b'%');
                    let dl = p.name();
                    p.expect(b'[');
                    let mut cache: HashMap<String, u32> = HashMap::new();
                    let def = edge(&mut edges, bi, &dl);
                    cache.insert(dl, def);
                    let mut cases = vec![];
                    let mut wide: Vec<O> = vec![];
                    while !p.eat(b']') {
                        let ct = p.ty();
                        let k = match p.konst(&ct) {
                            V::I(k) => k,
                            // wider than a word: numbered, and compared beforehand
                            v => {
                                d.pool.push(v);
                                wide.push(O::K(d.pool.len() as u32 - 1));
                                wide.len() as u64
                            }
                        };
                        p.expect(b',');
                        p.ty();
                        p.expect(b'%');
                        let n = p.name();
                        let e = match cache.get(&n) {
                            Some(e) => *e,
                            None => {
                                let e = edge(&mut edges, bi, &n);
                                cache.insert(n, e);
                                e
                            }
                        };
                        cases.push((k, e));
                    }
                    let map = cases.iter().copied().collect();
                    if t.bits() > 64 {
                        let (hit, num) = (d.reg(&format!("switch hit {bi}")), d.reg(&format!("switch case {bi}")));
                        code.push(I::Copy(num, O::C(0)));
                        for (j, c) in wide.into_iter().enumerate() {
                            code.push(I::Gen(Box::new(GenI::Cmp(Pred::Eq, t.clone(), hit, a, c))));
                            code.push(I::Sel(64, num, O::R(hit), O::C(j as u64 + 1), O::R(num)));
                        }
                        code.push(I::Sw(Box::new(SwI { w: 64, a: O::R(num), def, cases, map })));
                        continue;
                    }
                    code.push(I::Sw(Box::new(SwI { w: t.bits() as u8, a, def, cases, map })));
                }
                "call" | "invoke" => {
                    // fast-math flags, calling conv, ret attrs
                    loop {
                        let s = p.i;
                        let c = p.peek();
                        if !c.is_ascii_alphabetic() {
                            break;
                        }
                        let w2 = p.word();
                        let is_ty = matches!(w2, "void" | "ptr" | "float" | "double" | "metadata" | "token")
                            || (w2.starts_with('i') && w2.len() > 1 && w2[1..].bytes().all(|c| c.is_ascii_digit()));
                        if is_ty {
                            p.i = s;
                            break;
                        }
                        if w2 == "align" {
                            p.num();
                            continue;
                        }
                        if p.i < p.s.len() && p.s[p.i] == b'(' {
                            p.skip_parens();
                        }
                    }
                    let ret = p.ty();
                    // optional function type (...)
                    if p.peek() == b'(' {
                        p.skip_parens();
                    }
                    p.attrs();
                    let f = match p.peek() {
                        b'@' => {
                            p.i += 1;
                            let mut n = p.name();
                            while let Some(a) = m.aliases.get(&n) {
                                n = a.clone();
                            }
                            if let Some(i) = intrinsic(&n) {
                                if i == Intr::Unsupported {
                                    Callee::Unknown(n)
                                } else {
                                    Callee::Intr(i)
                                }
                            } else {
                                let id = m.fidx[&n];
                                let fs = &m.funcs[id as usize];
                                match fs.bi {
                                    Some(b) => Callee::B(b),
                                    None if fs.body.is_none() => Callee::Unknown(n),
                                    None => Callee::F(id),
                                }
                            }
                        }
                        b'%' => {
                            p.i += 1;
                            let n = p.name();
                            Callee::Ind(O::R(d.reg(&n)))
                        }
                        _ => {
                            if p.peek_word() == "asm" {
                                // inline asm: skip strings
                                let start = p.i;
                                p.word();
                                while p.peek() != b'(' {
                                    if p.peek() == b'"' {
                                        p.cstr();
                                    } else if p.peek() == b',' {
                                        p.i += 1;
                                    } else {
                                        p.word();
                                    }
                                }
                                let code = String::from_utf8_lossy(&p.s[start..p.i]);
                                if code.contains("\"\"") && ret == Ty::Void {
                                    // std::hint::black_box
                                    Callee::Intr(Intr::Nop)
                                } else if code.contains("cpuid") {
                                    // a processor without optional features
                                    Callee::Unknown("cpuid".into())
                                } else {
                                    Callee::Unknown("asm".into())
                                }
                            } else {
                                match p.konst(&Ty::Ptr) {
                                    V::I(a) => Callee::Ind(O::C(a)),
                                    _ => panic!(),
                                }
                            }
                        }
                    };
                    p.expect(b'(');
                    let mut args = vec![];
                    let mut tys = vec![];
                    if !p.eat(b')') {
                        loop {
                            let (t, o) = d.topd(&mut p);
                            args.push(o);
                            tys.push(t);
                            if p.eat(b',') {
                                continue;
                            }
                            p.expect(b')');
                            break;
                        }
                    }
                    let mut cont = NONE;
                    if w == "invoke" {
                        let at = l.rfind("to label %").unwrap() + 10;
                        p.i = at;
                        let n = p.name();
                        cont = edge(&mut edges, bi, &n);
                    }
                    let nop = matches!(f, Callee::Intr(Intr::Nop));
                    if matches!(&f, Callee::Unknown(n) if n == "cpuid") {
                        d.pool.push(ret.zero());
                        code.push(I::Copy(dst, O::K(d.pool.len() as u32 - 1)));
                    } else if !nop {
                        code.push(I::Call(Box::new(CallI { f, args, tys, ret, d: dst, cont })));
                    } else if cont != NONE {
                        code.push(I::Br(cont));
                    }
                }
                "alloca" => {
                    skip_flags(&mut p, &["inalloca"]);
                    let t = p.ty();
                    let mut n = O::C(1);
                    let mut al = t.align();
                    while p.eat(b',') {
                        if p.eat_word("align") {
                            al = p.num();
                        } else if p.peek() == b'!' {
                            break;
                        } else {
                            let (_t, o) = d.topd(&mut p);
                            n = o;
                        }
                    }
                    let al = al.max(8);
                    match n {
                        O::C(k) if bi == 0 => {
                            frame = (frame + al - 1) / al * al;
                            code.push(I::Alloca(dst, frame));
                            frame += (t.size() * k).max(1);
                        }
                        n => code.push(I::Gen(Box::new(GenI::AllocaDyn(dst, t.size(), n, al)))),
                    }
                }
                "load" => {
                    skip_flags(&mut p, &["atomic", "volatile"]);
                    let t = p.ty();
                    p.expect(b',');
                    let (_, a) = d.topd(&mut p);
                    if t.is_scalar() {
                        code.push(I::Ld(t.store_size() as u8, t.bits() as u8, dst, a));
                    } else {
                        code.push(I::Gen(Box::new(GenI::Ld(t, dst, a))));
                    }
                }
                "store" => {
                    skip_flags(&mut p, &["atomic", "volatile"]);
                    let (t, v) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, a) = d.topd(&mut p);
                    if t.is_scalar() {
                        code.push(I::St(t.store_size() as u8, t.bits() as u8, a, v));
                    } else {
                        code.push(I::Gen(Box::new(GenI::St(t, a, v))));
                    }
                }
                "fence" => {}
                "getelementptr" => {
                    skip_flags(&mut p, &["inbounds", "nuw", "nusw"]);
                    if p.peek_word() == "inrange" {
                        p.word();
                        p.skip_parens();
                    }
                    let bt = p.ty();
                    p.expect(b',');
                    let (pt, base) = d.topd(&mut p);
                    if matches!(pt, Ty::Vec(..)) {
                        code.push(I::Gen(Box::new(GenI::Unsup("vector gep".into()))));
                        continue;
                    }
                    let mut off = 0u64;
                    let mut idx: Vec<(O, u8, u64)> = vec![];
                    let mut cur = bt;
                    let mut first = true;
                    while p.eat(b',') {
                        if p.peek() == b'!' {
                            break;
                        }
                        let (it, o) = d.topd(&mut p);
                        let iw = it.bits() as u8;
                        let scale;
                        if first {
                            scale = cur.size();
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let O::C(k) = o else { panic!("struct gep") };
                                    let (fo, ft) = cur.field(k as usize);
                                    off = off.wrapping_add(fo);
                                    cur = ft;
                                    continue;
                                }
                                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                    scale = t.size();
                                    let t2 = (**t).clone();
                                    cur = t2;
                                }
                                _ => p.fail("gep"),
                            }
                        }
                        match o {
                            O::C(k) => off = off.wrapping_add((sx(k, iw) as u64).wrapping_mul(scale)),
                            o => idx.push((o, iw, scale)),
                        }
                    }
                    match idx.len() {
                        0 => code.push(I::Gep0(dst, base, off)),
                        1 => code.push(I::Gep1(dst, base, off, idx[0].0, idx[0].1, idx[0].2)),
                        _ => code.push(I::Gep(dst, base, off, idx.into_boxed_slice())),
                    }
                }
                "icmp" => {
                    skip_flags(&mut p, &["samesign"]);
                    let pr = match p.word() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        x => panic!("pred {}", x),
                    };
                    let t = p.ty();
                    let a = d.opd(&mut p, &t);
                    p.expect(b',');
                    let b = d.opd(&mut p, &t);
                    if t.is_scalar() {
                        code.push(I::Cmp(pr, t.bits() as u8, dst, a, b));
                    } else {
                        code.push(I::Gen(Box::new(GenI::Cmp(pr, t, dst, a, b))));
                    }
                }
                "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    skip_flags(&mut p, &["nneg", "nuw", "nsw"]);
                    let ft = p.ty();
                    let a = d.opd(&mut p, &ft);
                    if !p.eat_word("to") {
                        p.fail("to");
                    }
                    let tt = p.ty();
                    if ft.is_scalar() && tt.is_scalar() {
                        let (fw, tw) = (ft.bits() as u8, tt.bits() as u8);
                        code.push(match w {
                            "zext" => I::Zext(fw, tw, dst, a),
                            "sext" => I::Sext(fw, tw, dst, a),
                            "trunc" => I::Trunc(fw, tw, dst, a),
                            _ => {
                                if fw == tw {
                                    I::Copy(dst, a)
                                } else if fw < tw {
                                    I::Zext(fw, tw, dst, a)
                                } else {
                                    I::Trunc(fw, tw, dst, a)
                                }
                            }
                        });
                    } else {
                        let k = match w {
                            "zext" => CastK::Zext,
                            "sext" => CastK::Sext,
                            "trunc" => CastK::Trunc,
                            _ => CastK::Bit,
                        };
                        code.push(I::Gen(Box::new(GenI::Cast(k, ft, tt, dst, a))));
                    }
                }
                "select" => {
                    skip_flags(&mut p, &["nnan", "ninf", "nsz", "fast"]);
                    let (ct, c) = d.topd(&mut p);
                    p.expect(b',');
                    let (t, a) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, b) = d.topd(&mut p);
                    if t.is_scalar() {
                        code.push(I::Sel(t.bits() as u8, dst, c, a, b));
                    } else {
                        code.push(I::Gen(Box::new(GenI::Sel(ct, t, dst, c, a, b))));
                    }
                }
                "freeze" => {
                    let (_, a) = d.topd(&mut p);
                    code.push(I::Copy(dst, a));
                }
                "extractvalue" | "insertvalue" => {
                    let (_, a) = d.topd(&mut p);
                    let mut v = None;
                    if w == "insertvalue" {
                        p.expect(b',');
                        v = Some(d.topd(&mut p).1);
                    }
                    let mut ix = vec![];
                    while p.eat(b',') {
                        if p.peek() == b'!' {
                            break;
                        }
                        ix.push(p.num() as usize);
                    }
                    code.push(I::Gen(Box::new(match v {
                        None => GenI::ExtV(dst, a, ix),
                        Some(v) => GenI::InsV(dst, a, v, ix),
                    })));
                }
                "extractelement" => {
                    let (_, a) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, i) = d.topd(&mut p);
                    code.push(I::Gen(Box::new(GenI::ExtE(dst, a, i))));
                }
                "insertelement" => {
                    let (_, a) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, v) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, i) = d.topd(&mut p);
                    code.push(I::Gen(Box::new(GenI::InsE(dst, a, v, i))));
                }
                "shufflevector" => {
                    let (_, a) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, b) = d.topd(&mut p);
                    p.expect(b',');
                    let mt = p.ty();
                    let mk = match p.peek_word() {
                        "zeroinitializer" => match mt {
                            Ty::Vec(n, _) => vec![0; n as usize],
                            _ => panic!(),
                        },
                        _ => match p.konst(&mt) {
                            V::X(x) => match &*x {
                                Ext::Vec(v) | Ext::Agg(v) => v
                                    .iter()
                                    .map(|x| match x {
                                        V::I(k) => *k as i32,
                                        _ => panic!(),
                                    })
                                    .collect(),
                                _ => panic!(),
                            },
                            _ => panic!(),
                        },
                    };
                    code.push(I::Gen(Box::new(GenI::Shuf(dst, a, b, mk))));
                }
                "atomicrmw" => {
                    skip_flags(&mut p, &["volatile"]);
                    let op = p.word().to_string();
                    let (_, a) = d.topd(&mut p);
                    p.expect(b',');
                    let (t, v) = d.topd(&mut p);
                    code.push(I::Gen(Box::new(GenI::Rmw(op, t.bits() as u8, dst, a, v))));
                }
                "cmpxchg" => {
                    skip_flags(&mut p, &["volatile", "weak"]);
                    let (_, a) = d.topd(&mut p);
                    p.expect(b',');
                    let (t, c) = d.topd(&mut p);
                    p.expect(b',');
                    let (_, n) = d.topd(&mut p);
                    code.push(I::Gen(Box::new(GenI::CmpXchg(t.bits() as u8, dst, a, c, n))));
                }
                _ => {
                    if let Some(op) = bin_op(w) {
                        skip_flags(&mut p, &["nuw", "nsw", "exact", "disjoint"]);
                        let t = p.ty();
                        let a = d.opd(&mut p, &t);
                        p.expect(b',');
                        let b = d.opd(&mut p, &t);
                        if t.is_scalar() {
                            code.push(I::Bin(op, t.bits() as u8, dst, a, b));
                        } else {
                            code.push(I::Gen(Box::new(GenI::Bin(op, t, dst, a, b))));
                        }
                    } else {
                        code.push(I::Gen(Box::new(GenI::Unsup(l.clone()))));
                    }
                }
            }
        }
    }
    for e in &mut edges {
        e.target = block_pc[e.target as usize];
    }
    let _ = d.m;
    Func {
        name: name.to_string(),
        id,
        nregs: d.regs.len(),
        code,
        edges,
        pool: d.pool,
        frame: (frame + 15) & !15,
        params,
    }
}
