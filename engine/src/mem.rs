//! Paged copy-on-write memory with an optional symbolic overlay per page.
use crate::expr::E;
use std::rc::Rc;

pub const PAGE: usize = 512;
const PSH: u32 = 9;
const CHUNK: usize = 64;
const CSH: u32 = 6;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE],
    pub sym: Option<Box<[E; PAGE]>>,
}
#[derive(Clone)]
pub struct Chunk(pub [Option<Rc<Page>>; CHUNK]);

#[derive(Clone)]
pub struct Mem {
    regions: Vec<Rc<Vec<Option<Rc<Chunk>>>>>,
}

#[derive(Debug)]
pub struct MemErr(pub u64);

const NREG: u64 = 8;
const REGION_MAX: u64 = 1 << 31;

impl Mem {
    pub fn new() -> Mem {
        Mem { regions: (0..NREG).map(|_| Rc::new(vec![])).collect() }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let r = a >> 32;
        if r >= NREG {
            return None;
        }
        let pg = ((a & 0xffff_ffff) >> PSH) as usize;
        let c = self.regions[r as usize].get(pg >> CSH)?.as_ref()?;
        c.0[pg & (CHUNK - 1)].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, MemErr> {
        let r = a >> 32;
        if r == 0 || r >= NREG || (a & 0xffff_ffff) >= REGION_MAX {
            return Err(MemErr(a));
        }
        let pg = ((a & 0xffff_ffff) >> PSH) as usize;
        let reg = Rc::make_mut(&mut self.regions[r as usize]);
        if reg.len() <= pg >> CSH {
            reg.resize((pg >> CSH) + 1, None);
        }
        let c = reg[pg >> CSH].get_or_insert_with(|| Rc::new(Chunk(std::array::from_fn(|_| None))));
        let c = Rc::make_mut(c);
        let p = c.0[pg & (CHUNK - 1)].get_or_insert_with(|| Rc::new(Page { data: [0; PAGE], sym: None }));
        Ok(Rc::make_mut(p))
    }
    pub fn check(&self, a: u64) -> Result<(), MemErr> {
        let r = a >> 32;
        if r == 0 || r >= NREG || (a & 0xffff_ffff) >= REGION_MAX {
            Err(MemErr(a))
        } else {
            Ok(())
        }
    }
    /// concrete read of up to 8 bytes; None if any byte is symbolic
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Result<Option<u64>, MemErr> {
        let off = (a as usize) & (PAGE - 1);
        if off + n <= PAGE {
            match self.page(a) {
                None => {
                    self.check(a)?;
                    Ok(Some(0))
                }
                Some(p) => {
                    if let Some(s) = &p.sym {
                        for i in 0..n {
                            if s[off + i] != 0 {
                                return Ok(None);
                            }
                        }
                    }
                    if n == 8 {
                        let mut b = [0u8; 8];
                        b.copy_from_slice(&p.data[off..off + 8]);
                        return Ok(Some(u64::from_le_bytes(b)));
                    }
                    let mut v = 0u64;
                    for i in 0..n {
                        v |= (p.data[off + i] as u64) << (8 * i);
                    }
                    Ok(Some(v))
                }
            }
        } else {
            let mut v = 0u64;
            for i in 0..n {
                match self.byte(a + i as u64)? {
                    Ok(b) => v |= (b as u64) << (8 * i),
                    Err(_) => return Ok(None),
                }
            }
            Ok(Some(v))
        }
    }
    /// Ok(byte) or Err(expr)
    #[inline]
    pub fn byte(&self, a: u64) -> Result<Result<u8, E>, MemErr> {
        match self.page(a) {
            None => {
                self.check(a)?;
                Ok(Ok(0))
            }
            Some(p) => {
                let off = (a as usize) & (PAGE - 1);
                if let Some(s) = &p.sym {
                    if s[off] != 0 {
                        return Ok(Err(s[off]));
                    }
                }
                Ok(Ok(p.data[off]))
            }
        }
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, v: u64, n: usize) -> Result<(), MemErr> {
        let off = (a as usize) & (PAGE - 1);
        if off + n <= PAGE {
            let p = self.page_mut(a)?;
            let b = v.to_le_bytes();
            p.data[off..off + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym {
                for i in 0..n {
                    s[off + i] = 0;
                }
            }
            Ok(())
        } else {
            for i in 0..n {
                self.set_byte(a + i as u64, Ok((v >> (8 * i)) as u8))?;
            }
            Ok(())
        }
    }
    pub fn set_byte(&mut self, a: u64, v: Result<u8, E>) -> Result<(), MemErr> {
        let off = (a as usize) & (PAGE - 1);
        let p = self.page_mut(a)?;
        match v {
            Ok(b) => {
                p.data[off] = b;
                if let Some(s) = &mut p.sym {
                    s[off] = 0;
                }
            }
            Err(e) => {
                let s = p.sym.get_or_insert_with(|| Box::new([0; PAGE]));
                s[off] = e;
            }
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) -> Result<(), MemErr> {
        let mut i = 0;
        while i < b.len() {
            let off = ((a + i as u64) as usize) & (PAGE - 1);
            let n = (PAGE - off).min(b.len() - i);
            let p = self.page_mut(a + i as u64)?;
            p.data[off..off + n].copy_from_slice(&b[i..i + n]);
            if let Some(s) = &mut p.sym {
                for k in 0..n {
                    s[off + k] = 0;
                }
            }
            i += n;
        }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, v: u8, n: u64) -> Result<(), MemErr> {
        let mut i = 0;
        while i < n {
            let off = ((a + i) as usize) & (PAGE - 1);
            let k = ((PAGE - off) as u64).min(n - i) as usize;
            let p = self.page_mut(a + i)?;
            for x in p.data[off..off + k].iter_mut() {
                *x = v;
            }
            if let Some(s) = &mut p.sym {
                for x in s[off..off + k].iter_mut() {
                    *x = 0;
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 || dst == src {
            return Ok(());
        }
        if n <= 8 {
            if let Some(v) = self.read_c(src, n as usize)? {
                return self.write_c(dst, v, n as usize);
            }
        }
        // gather then scatter (handles overlap)
        let mut data = vec![0u8; n as usize];
        let mut syms: Vec<(u32, E)> = vec![];
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let off = (a as usize) & (PAGE - 1);
            let k = ((PAGE - off) as u64).min(n - i) as usize;
            match self.page(a) {
                None => self.check(a)?,
                Some(p) => {
                    data[i as usize..i as usize + k].copy_from_slice(&p.data[off..off + k]);
                    if let Some(s) = &p.sym {
                        for j in 0..k {
                            if s[off + j] != 0 {
                                syms.push((i as u32 + j as u32, s[off + j]));
                            }
                        }
                    }
                }
            }
            i += k as u64;
        }
        self.write_bytes(dst, &data)?;
        for (o, e) in syms {
            self.set_byte(dst + o as u64, Err(e))?;
        }
        Ok(())
    }
}
