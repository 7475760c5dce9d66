//! Copy-on-write paged memory with per-byte symbolic overlay.
use crate::expr::*;
use std::sync::Arc;

pub const PB: u32 = 9; // 512-byte pages
pub const PS: usize = 1 << PB;
const L2B: u32 = 8;
const L2N: usize = 1 << L2B;
pub const MEM_MAX: u64 = 1 << 28; // 256 MB address space

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub nsym: u32,
    /// sorted by offset
    pub sym: Vec<(u16, E)>,
    pub bits: [u64; PS / 64],
}
impl Page {
    fn new() -> Page {
        Page { d: [0; PS], nsym: 0, sym: vec![], bits: [0; PS / 64] }
    }
    #[inline]
    fn is_sym(&self, o: usize) -> bool {
        self.bits[o >> 6] >> (o & 63) & 1 != 0
    }
    fn get_sym(&self, o: usize) -> &E {
        let i = self.sym.binary_search_by_key(&(o as u16), |x| x.0).unwrap();
        &self.sym[i].1
    }
    fn clear_sym(&mut self, o: usize, n: usize) {
        if self.nsym == 0 {
            return;
        }
        for i in o..o + n {
            if self.is_sym(i) {
                self.bits[i >> 6] &= !(1 << (i & 63));
                let j = self.sym.binary_search_by_key(&(i as u16), |x| x.0).unwrap();
                self.sym.remove(j);
                self.nsym -= 1;
            }
        }
    }
    fn set_sym(&mut self, o: usize, e: E) {
        match self.sym.binary_search_by_key(&(o as u16), |x| x.0) {
            Ok(i) => self.sym[i].1 = e,
            Err(i) => {
                self.sym.insert(i, (o as u16, e));
                self.bits[o >> 6] |= 1 << (o & 63);
                self.nsym += 1;
            }
        }
    }
}

#[derive(Clone)]
struct L2 {
    p: Vec<Option<Arc<Page>>>,
}

#[derive(Clone)]
pub struct Mem {
    l1: Vec<Option<Arc<L2>>>,
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Mem {
        Mem { l1: vec![None; (MEM_MAX >> (PB + L2B)) as usize] }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        if a >= MEM_MAX {
            return None;
        }
        let l2 = self.l1[(a >> (PB + L2B)) as usize].as_ref()?;
        l2.p[(a >> PB) as usize & (L2N - 1)].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        if a >= MEM_MAX || a < 4096 {
            return None;
        }
        let l2 = &mut self.l1[(a >> (PB + L2B)) as usize];
        let l2 = l2.get_or_insert_with(|| Arc::new(L2 { p: vec![None; L2N] }));
        let l2 = Arc::make_mut(l2);
        let p = &mut l2.p[(a >> PB) as usize & (L2N - 1)];
        let p = p.get_or_insert_with(|| Arc::new(Page::new()));
        Some(Arc::make_mut(p))
    }
    /// concrete fast path, n <= 8; None when some byte is symbolic
    #[inline]
    pub fn load_c(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = (a & (PS as u64 - 1)) as usize;
        if o + n <= PS {
            let Some(p) = self.page(a) else {
                if a < 4096 || a >= MEM_MAX {
                    return Err(Fault(a));
                }
                return Ok(Some(0));
            };
            if p.nsym != 0 {
                for i in o..o + n {
                    if p.is_sym(i) {
                        return Ok(None);
                    }
                }
            }
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&p.d[o..o + n]);
            Ok(Some(u64::from_le_bytes(b)))
        } else {
            let mut r = 0u64;
            for i in 0..n as u64 {
                match self.load_c(a + i, 1)? {
                    Some(x) => r |= x << (8 * i),
                    None => return Ok(None),
                }
            }
            Ok(Some(r))
        }
    }
    pub fn byte(&self, a: u64) -> Result<V, Fault> {
        let Some(p) = self.page(a) else {
            if a < 4096 || a >= MEM_MAX {
                return Err(Fault(a));
            }
            return Ok(V::I(0));
        };
        let o = (a & (PS as u64 - 1)) as usize;
        if p.nsym != 0 && p.is_sym(o) {
            Ok(V::S(p.get_sym(o).clone()))
        } else {
            Ok(V::I(p.d[o] as u64))
        }
    }
    #[inline]
    pub fn store_c(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = (a & (PS as u64 - 1)) as usize;
        if o + n <= PS {
            let p = self.page_mut(a).ok_or(Fault(a))?;
            if p.nsym != 0 {
                p.clear_sym(o, n);
            }
            let b = v.to_le_bytes();
            p.d[o..o + n].copy_from_slice(&b[..n]);
            Ok(())
        } else {
            for i in 0..n {
                self.store_c(a + i as u64, 1, v >> (8 * i))?;
            }
            Ok(())
        }
    }
    pub fn store_byte(&mut self, a: u64, v: V) -> Result<(), Fault> {
        match v {
            V::I(k) => self.store_c(a, 1, k & 0xff),
            V::S(e) => {
                debug_assert!(e.w == 8);
                let p = self.page_mut(a).ok_or(Fault(a))?;
                p.set_sym((a & (PS as u64 - 1)) as usize, e);
                Ok(())
            }
            _ => panic!("store_byte"),
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 {
            return Ok(());
        }
        if n > (1 << 26) {
            return Err(Fault(dst));
        }
        // read everything first (memmove semantics)
        let mut buf: Vec<u8> = vec![0; n as usize];
        let mut syms: Vec<(u64, E)> = vec![];
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min((n - i) as usize);
            match self.page(a) {
                Some(p) => {
                    buf[i as usize..i as usize + k].copy_from_slice(&p.d[o..o + k]);
                    if p.nsym != 0 {
                        for (so, e) in &p.sym {
                            let so = *so as usize;
                            if so >= o && so < o + k {
                                syms.push((i + (so - o) as u64, e.clone()));
                            }
                        }
                    }
                }
                None => {
                    if a < 4096 || a >= MEM_MAX {
                        return Err(Fault(a));
                    }
                }
            }
            i += k as u64;
        }
        self.write(dst, &buf)?;
        for (o, e) in syms {
            self.store_byte(dst + o, V::S(e))?;
        }
        Ok(())
    }
    pub fn write(&mut self, dst: u64, buf: &[u8]) -> Result<(), Fault> {
        let n = buf.len() as u64;
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min((n - i) as usize);
            let p = self.page_mut(a).ok_or(Fault(a))?;
            if p.nsym != 0 {
                p.clear_sym(o, k);
            }
            p.d[o..o + k].copy_from_slice(&buf[i as usize..i as usize + k]);
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, n: u64, v: V) -> Result<(), Fault> {
        match v {
            V::I(k) => {
                if n > (1 << 26) {
                    return Err(Fault(dst));
                }
                let mut i = 0u64;
                while i < n {
                    let a = dst + i;
                    let o = (a & (PS as u64 - 1)) as usize;
                    let c = (PS - o).min((n - i) as usize);
                    let p = self.page_mut(a).ok_or(Fault(a))?;
                    if p.nsym != 0 {
                        p.clear_sym(o, c);
                    }
                    p.d[o..o + c].fill(k as u8);
                    i += c as u64;
                }
                Ok(())
            }
            v => {
                for i in 0..n {
                    self.store_byte(dst + i, v.clone())?;
                }
                Ok(())
            }
        }
    }
    pub fn bytes(&self, a: u64, n: u64) -> Result<Vec<V>, Fault> {
        (0..n).map(|i| self.byte(a + i)).collect()
    }
}
