//! Copy-on-write paged memory with symbolic shadow bytes.

use crate::expr::Id;
use std::rc::Rc;

pub const PS: u64 = 1024;
pub const GLOBAL_BASE: u64 = 0x0001_0000;
pub const STACK_BASE: u64 = 0x4000_0000;
pub const HEAP_BASE: u64 = 0x8000_0000;
pub const FN_BASE: u64 = 0x1_0000_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS as usize],
    pub sym: Option<Box<[Id; PS as usize]>>,
}

type Chunk = [Option<Rc<Page>>; 64];

#[derive(Clone)]
pub struct Mem {
    /// three regions of 1 GiB, each a vector of chunks of 64 pages
    reg: [Vec<Option<Rc<Chunk>>>; 3],
}

const NONE: Option<Rc<Page>> = None;

impl Mem {
    pub fn new() -> Mem {
        Mem { reg: [vec![], vec![], vec![]] }
    }
    #[inline]
    fn loc(addr: u64) -> Option<(usize, usize)> {
        let r = (addr >> 30) as usize;
        if r > 2 || addr < 4096 {
            return None;
        }
        Some((r, ((addr & 0x3fff_ffff) / PS) as usize))
    }
    #[inline]
    pub fn page(&self, addr: u64) -> Option<&Page> {
        let (r, p) = Self::loc(addr)?;
        let c = self.reg[r].get(p / 64)?.as_ref()?;
        c[p % 64].as_deref()
    }
    #[inline]
    pub fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        let (r, p) = Self::loc(addr)?;
        let c = Rc::make_mut(self.reg[r].get_mut(p / 64)?.as_mut()?);
        let q = c[p % 64].as_mut()?;
        Some(Rc::make_mut(q))
    }
    pub fn map(&mut self, from: u64, to: u64) {
        let mut a = from / PS * PS;
        while a < to {
            let (r, p) = Self::loc(a).expect("map");
            let v = &mut self.reg[r];
            while v.len() <= p / 64 {
                v.push(None);
            }
            let c = v[p / 64].get_or_insert_with(|| Rc::new([NONE; 64]));
            if c[p % 64].is_none() {
                Rc::make_mut(c)[p % 64] = Some(Rc::new(Page { d: [0; PS as usize], sym: None }));
            }
            a += PS;
        }
    }
    /// Drop whole pages inside the range.
    pub fn unmap(&mut self, from: u64, to: u64) {
        let mut a = (from + PS - 1) / PS * PS;
        while a + PS <= to {
            if let Some((r, p)) = Self::loc(a) {
                if let Some(Some(c)) = self.reg[r].get_mut(p / 64) {
                    Rc::make_mut(c)[p % 64] = None;
                }
            }
            a += PS;
        }
    }
    /// Concrete read of n <= 8 bytes inside one page.
    #[inline]
    pub fn fast_read(&self, addr: u64, n: u64) -> Option<u64> {
        let o = (addr % PS) as usize;
        if o as u64 + n > PS {
            return None;
        }
        let p = self.page(addr)?;
        if p.sym.is_some() {
            if let Some(s) = &p.sym {
                for i in 0..n as usize {
                    if s[o + i] != 0 {
                        return None;
                    }
                }
            }
        }
        Some(match n {
            1 => p.d[o] as u64,
            8 => u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(p.d[o..o + 4].try_into().unwrap()) as u64,
            2 => u16::from_le_bytes(p.d[o..o + 2].try_into().unwrap()) as u64,
            _ => {
                let mut v = 0u64;
                for i in 0..n as usize {
                    v |= (p.d[o + i] as u64) << (8 * i);
                }
                v
            }
        })
    }
    #[inline]
    pub fn fast_write(&mut self, addr: u64, n: u64, v: u64) -> bool {
        let o = (addr % PS) as usize;
        if o as u64 + n > PS {
            return false;
        }
        let p = match self.page_mut(addr) {
            Some(p) => p,
            None => return false,
        };
        p.d[o..o + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]);
        if let Some(s) = &mut p.sym {
            for i in 0..n as usize {
                s[o + i] = 0;
            }
        }
        true
    }
    /// (concrete byte, symbolic id or 0)
    pub fn read_byte(&self, addr: u64) -> Option<(u8, Id)> {
        let p = self.page(addr)?;
        let o = (addr % PS) as usize;
        Some((p.d[o], p.sym.as_ref().map_or(0, |s| s[o])))
    }
    pub fn write_byte(&mut self, addr: u64, b: u8, id: Id) -> bool {
        let p = match self.page_mut(addr) {
            Some(p) => p,
            None => return false,
        };
        let o = (addr % PS) as usize;
        p.d[o] = b;
        if id != 0 {
            p.sym.get_or_insert_with(|| Box::new([0; PS as usize]))[o] = id;
        } else if let Some(s) = &mut p.sym {
            s[o] = 0;
        }
        true
    }
    /// memmove semantics
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> bool {
        let mut d = Vec::with_capacity(n as usize);
        let mut syms: Vec<(usize, Id)> = vec![];
        let mut a = src;
        let end = src + n;
        while a < end {
            let o = (a % PS) as usize;
            let k = (PS as usize - o).min((end - a) as usize);
            let p = match self.page(a) {
                Some(p) => p,
                None => return false,
            };
            if let Some(s) = &p.sym {
                for i in 0..k {
                    if s[o + i] != 0 {
                        syms.push((d.len() + i, s[o + i]));
                    }
                }
            }
            d.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
        }
        let mut a = dst;
        let end = dst + n;
        let mut i = 0usize;
        while a < end {
            let o = (a % PS) as usize;
            let k = (PS as usize - o).min((end - a) as usize);
            let p = match self.page_mut(a) {
                Some(p) => p,
                None => return false,
            };
            p.d[o..o + k].copy_from_slice(&d[i..i + k]);
            if let Some(s) = &mut p.sym {
                for j in 0..k {
                    s[o + j] = 0;
                }
            }
            a += k as u64;
            i += k;
        }
        for (i, id) in syms {
            let b = d[i];
            if !self.write_byte(dst + i as u64, b, id) {
                return false;
            }
        }
        true
    }
    pub fn set(&mut self, dst: u64, n: u64, b: u8) -> bool {
        let mut a = dst;
        let end = dst + n;
        while a < end {
            let o = (a % PS) as usize;
            let k = (PS as usize - o).min((end - a) as usize);
            let p = match self.page_mut(a) {
                Some(p) => p,
                None => return false,
            };
            p.d[o..o + k].fill(b);
            if let Some(s) = &mut p.sym {
                for j in 0..k {
                    s[o + j] = 0;
                }
            }
            a += k as u64;
        }
        true
    }
}
