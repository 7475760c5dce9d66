//! The interface to the symbolic executor (and, natively, to the replayer).
macro_rules! api {
    ($($t:tt)*) => {
        #[cfg(not(feature = "native"))]
        extern "C" { $($t)* }
        #[cfg(feature = "native")]
        extern "C-unwind" { $($t)* }
    };
}
api! {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_dom(p: *const u8, m: *const u64);
    fn sym_assume(c: u32);
    fn sym_assert(c: u32, m: *const u8, n: usize);
    fn sym_fail(m: *const u8, n: usize) -> !;
    fn sym_out(p: *const u8, n: usize);
    fn sym_cover(k: u32);
    fn sym_eq(a: *const u8, b: *const u8, n: usize) -> u32;
    fn sym_same(a: *const u8, n: usize, b: *const u8, k: usize, m: *const u8, l: usize);
    fn sym_stop() -> !;
}

pub type Mask = [u64; 4];

pub const fn m(s: &[u8]) -> Mask {
    let mut r = [0u64; 4];
    let mut i = 0;
    while i < s.len() {
        r[(s[i] >> 6) as usize] |= 1 << (s[i] & 63);
        i += 1;
    }
    r
}
pub const fn range(lo: u8, hi: u8) -> Mask {
    let mut r = [0u64; 4];
    let mut i = lo as usize;
    while i <= hi as usize {
        r[i >> 6] |= 1 << (i & 63);
        i += 1;
    }
    r
}
pub const fn or(a: Mask, b: Mask) -> Mask {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub const fn minus(a: Mask, b: Mask) -> Mask {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}

pub const ASCII: Mask = range(0, 127);
pub const LETTER: Mask = or(range(b'a', b'z'), range(b'A', b'Z'));
pub const LOWER: Mask = range(b'a', b'z');
pub const DIGIT: Mask = range(b'0', b'9');
/// every printable ASCII byte, space, tab, newline and carriage return
pub const TEXT: Mask = or(range(32, 126), m(b"\n\r\t"));

/// n fresh symbolic bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sym_bytes(v.as_mut_ptr(), n) };
    v
}
/// one fresh symbolic byte in a set
pub fn byte(d: &Mask) -> u8 {
    let mut b = [0u8; 1];
    unsafe {
        sym_bytes(b.as_mut_ptr(), 1);
        sym_dom(b.as_ptr(), d.as_ptr());
    }
    b[0]
}
/// a fresh symbolic choice in 0..n
pub fn choose(n: u8) -> u8 {
    byte(&range(0, n - 1))
}
pub fn flag() -> bool {
    choose(2) == 1
}
/// k as a concrete value on every path (one path per value)
#[inline(never)]
pub fn split(k: u8, n: u8) -> u8 {
    let mut i = 0;
    // volatile: the compiler must not find out that this is min(k, n - 1)
    while i + 1 < n && unsafe { std::ptr::read_volatile(&i) } != k {
        i += 1;
    }
    i
}
/// one of the items
pub fn pick<T: Copy>(l: &[T]) -> T {
    l[split(choose(l.len() as u8), l.len() as u8) as usize]
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u32) }
}
pub fn check(c: bool, what: &str) {
    unsafe { sym_assert(c as u32, what.as_ptr(), what.len()) }
}
pub fn fail(what: &str) -> ! {
    unsafe { sym_fail(what.as_ptr(), what.len()) }
}
pub fn out(b: &[u8]) {
    unsafe { sym_out(b.as_ptr(), b.len()) }
}
pub fn cover(k: u32) {
    unsafe { sym_cover(k) }
}
pub fn stop() -> ! {
    unsafe { sym_stop() }
}
/// equality as one term (no branch per byte)
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_eq(a.as_ptr(), b.as_ptr(), a.len()) } != 0
}
pub fn check_same(a: &[u8], b: &[u8], what: &str) {
    unsafe { sym_same(a.as_ptr(), a.len(), b.as_ptr(), b.len(), what.as_ptr(), what.len()) }
}
/// the bytes as a string; the caller guarantees UTF-8
pub fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

/// Builder of partly symbolic input text.
pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B {
        B(Vec::with_capacity(64))
    }
    pub fn s(mut self, t: &str) -> B {
        self.0.extend_from_slice(t.as_bytes());
        self
    }
    pub fn b(mut self, t: &[u8]) -> B {
        self.0.extend_from_slice(t);
        self
    }
    /// one symbolic byte of the class
    pub fn h(mut self, d: &Mask) -> B {
        let b = byte(d);
        self.0.push(b);
        self
    }
    pub fn hn(mut self, d: &Mask, n: u64) -> B {
        for _ in 0..n {
            let b = byte(d);
            self.0.push(b);
        }
        self
    }
    pub fn str(&self) -> &str {
        text(&self.0)
    }
}
