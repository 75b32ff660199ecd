//! Paged copy-on-write byte memory with optional symbolic bytes.
use crate::expr::E;
use std::rc::Rc;

pub const PB: u64 = 10; // 1 KiB pages
pub const PS: usize = 1 << PB;
pub const G: u64 = 0x1_0000_0000;
pub const S: u64 = 0x2_0000_0000;
pub const H: u64 = 0x3_0000_0000;
pub const F: u64 = 0x8_0000_0000;

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PS],
    pub s: Option<Box<[E; PS]>>,
}

#[derive(Clone)]
pub struct Mem {
    pub r: [Rc<Vec<Option<Rc<Page>>>>; 3],
    pub top: [u64; 3], // first invalid offset in each region
}

#[derive(Debug)]
pub struct BadAddr(pub u64);

impl Mem {
    pub fn new(globals: &[u8]) -> Mem {
        let mut g = vec![];
        for ch in globals.chunks(PS) {
            let mut p = Page { b: [0; PS], s: None };
            p.b[..ch.len()].copy_from_slice(ch);
            g.push(Some(Rc::new(p)));
        }
        Mem { r: [Rc::new(g), Rc::new(vec![]), Rc::new(vec![])], top: [globals.len() as u64, 0, 0] }
    }
    #[inline]
    pub fn locate(&self, a: u64, n: u64) -> Result<(usize, u64), BadAddr> {
        let r = (a >> 32) as usize;
        if r == 0 || r > 3 {
            return Err(BadAddr(a));
        }
        let off = a & 0xffff_ffff;
        if off + n > self.top[r - 1] {
            return Err(BadAddr(a));
        }
        Ok((r - 1, off))
    }
    #[inline]
    pub fn page(&self, r: usize, off: u64) -> Option<&Page> {
        self.r[r].get((off >> PB) as usize).and_then(|p| p.as_deref())
    }
    #[inline]
    pub fn page_mut(&mut self, r: usize, off: u64) -> &mut Page {
        let i = (off >> PB) as usize;
        let v = Rc::make_mut(&mut self.r[r]);
        if v.len() <= i {
            v.resize(i + 1, None);
        }
        let p = v[i].get_or_insert_with(|| Rc::new(Page { b: [0; PS], s: None }));
        Rc::make_mut(p)
    }
    /// Concrete read (None when some byte is symbolic).
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Result<Option<u64>, BadAddr> {
        let (r, off) = self.locate(a, n as u64)?;
        let i = off as usize & (PS - 1);
        if i + n <= PS {
            let p = match self.page(r, off) {
                Some(p) => p,
                None => return Ok(Some(0)),
            };
            if let Some(s) = &p.s {
                if s[i..i + n].iter().any(|e| *e != 0) {
                    return Ok(None);
                }
            }
            let mut x = 0u64;
            for k in (0..n).rev() {
                x = x << 8 | p.b[i + k] as u64;
            }
            Ok(Some(x))
        } else {
            let mut x = 0u64;
            for k in (0..n).rev() {
                let (v, s) = self.byte_at(r, off + k as u64);
                if s != 0 {
                    return Ok(None);
                }
                x = x << 8 | v as u64;
            }
            Ok(Some(x))
        }
    }
    #[inline]
    pub fn byte_at(&self, r: usize, off: u64) -> (u8, E) {
        match self.page(r, off) {
            None => (0, 0),
            Some(p) => {
                let i = off as usize & (PS - 1);
                (p.b[i], p.s.as_ref().map(|s| s[i]).unwrap_or(0))
            }
        }
    }
    pub fn byte(&self, a: u64) -> Result<(u8, E), BadAddr> {
        let (r, off) = self.locate(a, 1)?;
        Ok(self.byte_at(r, off))
    }
    pub fn write_c(&mut self, a: u64, v: u64, n: usize) -> Result<(), BadAddr> {
        let (r, off) = self.locate(a, n as u64)?;
        let i = off as usize & (PS - 1);
        if i + n <= PS {
            let p = self.page_mut(r, off);
            let b = v.to_le_bytes();
            p.b[i..i + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.s {
                s[i..i + n].fill(0);
            }
        } else {
            for k in 0..n {
                self.set(r, off + k as u64, (v >> (8 * k)) as u8, 0);
            }
        }
        Ok(())
    }
    #[inline]
    pub fn set(&mut self, r: usize, off: u64, v: u8, e: E) {
        let p = self.page_mut(r, off);
        let i = off as usize & (PS - 1);
        p.b[i] = v;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PS]))[i] = e;
        } else if let Some(s) = &mut p.s {
            s[i] = 0;
        }
    }
    pub fn set_byte(&mut self, a: u64, v: u8, e: E) -> Result<(), BadAddr> {
        let (r, off) = self.locate(a, 1)?;
        self.set(r, off, v, e);
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), BadAddr> {
        if n == 0 {
            return Ok(());
        }
        let (rs, os) = self.locate(s, n)?;
        let (rd, od) = self.locate(d, n)?;
        // gather then scatter (handles overlap)
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sy: Vec<(u64, E)> = vec![];
        let mut k = 0u64;
        while k < n {
            let o = os + k;
            let i = o as usize & (PS - 1);
            let m = (PS - i).min((n - k) as usize);
            match self.page(rs, o) {
                None => buf.resize(buf.len() + m, 0),
                Some(p) => {
                    buf.extend_from_slice(&p.b[i..i + m]);
                    if let Some(s) = &p.s {
                        for j in 0..m {
                            if s[i + j] != 0 {
                                sy.push((k + j as u64, s[i + j]));
                            }
                        }
                    }
                }
            }
            k += m as u64;
        }
        let mut k = 0u64;
        while k < n {
            let o = od + k;
            let i = o as usize & (PS - 1);
            let m = (PS - i).min((n - k) as usize);
            let p = self.page_mut(rd, o);
            p.b[i..i + m].copy_from_slice(&buf[k as usize..k as usize + m]);
            if let Some(s) = &mut p.s {
                s[i..i + m].fill(0);
            }
            k += m as u64;
        }
        for (k, e) in sy {
            let v = buf[k as usize];
            self.set(rd, od + k, v, e);
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, e: E, n: u64) -> Result<(), BadAddr> {
        if n == 0 {
            return Ok(());
        }
        let (r, od) = self.locate(d, n)?;
        let mut k = 0u64;
        while k < n {
            let o = od + k;
            let i = o as usize & (PS - 1);
            let m = (PS - i).min((n - k) as usize);
            if e == 0 {
                let p = self.page_mut(r, o);
                p.b[i..i + m].fill(v);
                if let Some(s) = &mut p.s {
                    s[i..i + m].fill(0);
                }
            } else {
                for j in 0..m as u64 {
                    self.set(r, o + j, v, e);
                }
            }
            k += m as u64;
        }
        Ok(())
    }
}
