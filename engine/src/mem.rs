//! Byte-granular copy-on-write memory holding concrete or symbolic bytes.
use crate::expr::*;
use std::rc::Rc;

pub const PAGE: usize = 256;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Val {
    C(u64),
    S(E), // width 64
}
impl Val {
    pub fn e(self) -> E {
        match self {
            Val::C(v) => k64(v),
            Val::S(e) => e,
        }
    }
    pub fn of(e: E) -> Val {
        match as_const(e) {
            Some(v) => Val::C(v as u64),
            None => Val::S(e),
        }
    }
    pub fn is_c(self) -> bool {
        matches!(self, Val::C(_))
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::C(v) => write!(f, "0x{:x}", v),
            Val::S(e) => write!(f, "{:?}", e),
        }
    }
}

#[derive(Clone)]
pub struct Page {
    pub b: [u8; PAGE],
    pub s: Option<Box<[E; PAGE]>>,
}
impl Page {
    fn zero() -> Page {
        Page { b: [0; PAGE], s: None }
    }
}

#[derive(Clone)]
pub struct Region {
    pub base: u64,
    pub len: u64,
    pub pages: Vec<Rc<Page>>,
    pub writable: bool,
}

impl Region {
    pub fn new(base: u64, len: u64, writable: bool) -> Region {
        let n = (len as usize).div_ceil(PAGE);
        let z = Rc::new(Page::zero());
        Region { base, len, pages: vec![z; n], writable }
    }
    pub fn get(&self, off: u64) -> Result<u8, E> {
        let p = &self.pages[off as usize / PAGE];
        let i = off as usize % PAGE;
        if let Some(s) = &p.s {
            if s[i] != NONE {
                return Err(s[i]);
            }
        }
        Ok(p.b[i])
    }
    pub fn get_e(&self, off: u64) -> E {
        match self.get(off) {
            Ok(b) => k8(b),
            Err(e) => e,
        }
    }
    pub fn set_c(&mut self, off: u64, v: u8) {
        let p = Rc::make_mut(&mut self.pages[off as usize / PAGE]);
        let i = off as usize % PAGE;
        p.b[i] = v;
        if let Some(s) = &mut p.s {
            s[i] = NONE;
        }
    }
    pub fn set_e(&mut self, off: u64, e: E) {
        debug_assert_eq!(width(e), 8);
        if let Some(v) = as_const(e) {
            return self.set_c(off, v as u8);
        }
        let p = Rc::make_mut(&mut self.pages[off as usize / PAGE]);
        let i = off as usize % PAGE;
        if p.s.is_none() {
            p.s = Some(Box::new([NONE; PAGE]));
        }
        p.s.as_mut().unwrap()[i] = e;
    }
    pub fn load(&self, off: u64, n: usize) -> Val {
        let pi = off as usize / PAGE;
        let i = off as usize % PAGE;
        if i + n <= PAGE {
            let p = &self.pages[pi];
            let conc = match &p.s {
                None => true,
                Some(s) => s[i..i + n].iter().all(|e| *e == NONE),
            };
            if conc {
                let mut v = 0u64;
                for k in 0..n {
                    v |= (p.b[i + k] as u64) << (8 * k);
                }
                return Val::C(v);
            }
        }
        let bs: Vec<E> = (0..n as u64).map(|k| self.get_e(off + k)).collect();
        Val::of(zext(64, from_bytes(&bs)))
    }
    pub fn store(&mut self, off: u64, n: usize, v: Val) {
        match v {
            Val::C(v) => {
                for k in 0..n {
                    self.set_c(off + k as u64, (v >> (8 * k)) as u8);
                }
            }
            Val::S(e) => {
                for k in 0..n {
                    let b = extract(8 * k as u16 + 7, 8 * k as u16, e);
                    self.set_e(off + k as u64, b);
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Memory {
    pub ro: Rc<Region>,
    pub stack: Region,
    pub heap: Region,
    pub input: Region,
}

pub const RO: u64 = 0x1_0000_0000;
pub const STACK: u64 = 0x2_0000_0000;
pub const HEAP: u64 = 0x3_0000_0000;
pub const INPUT: u64 = 0x4_0000_0000;
pub const FRAME: u64 = 4096;

#[derive(Debug, Clone)]
pub struct Fault(pub String);

impl Memory {
    /// (region selector, offset)
    pub fn xlate(&self, addr: u64, n: u64, write: bool) -> Result<(u8, u64), Fault> {
        let bad = || Err(Fault(format!("access violation at 0x{:x} len {} write {}", addr, n, write)));
        match addr >> 32 {
            1 => {
                let r = &self.ro;
                if write || addr < r.base || addr + n > r.base + r.len {
                    return bad();
                }
                Ok((1, addr - r.base))
            }
            2 => {
                let off = addr - STACK;
                // frames of 4096 bytes separated by gaps of 4096 bytes
                if (off / FRAME) % 2 == 1 {
                    return bad();
                }
                let in_frame = off % FRAME;
                if in_frame + n > FRAME {
                    return bad();
                }
                let off = (off / (2 * FRAME)) * FRAME + in_frame;
                if off + n > self.stack.len {
                    return bad();
                }
                Ok((2, off))
            }
            3 => {
                let off = addr - HEAP;
                if off + n > self.heap.len {
                    return bad();
                }
                Ok((3, off))
            }
            4 => {
                let off = addr - INPUT;
                if off + n > self.input.len {
                    return bad();
                }
                Ok((4, off))
            }
            _ => bad(),
        }
    }
    pub fn region(&self, r: u8) -> &Region {
        match r {
            1 => &self.ro,
            2 => &self.stack,
            3 => &self.heap,
            _ => &self.input,
        }
    }
    pub fn region_mut(&mut self, r: u8) -> &mut Region {
        match r {
            2 => &mut self.stack,
            3 => &mut self.heap,
            4 => &mut self.input,
            _ => panic!("write to ro"),
        }
    }
    pub fn load(&self, addr: u64, n: usize) -> Result<Val, Fault> {
        let (r, o) = self.xlate(addr, n as u64, false)?;
        Ok(self.region(r).load(o, n))
    }
    pub fn store(&mut self, addr: u64, n: usize, v: Val) -> Result<(), Fault> {
        let (r, o) = self.xlate(addr, n as u64, true)?;
        self.region_mut(r).store(o, n, v);
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: u64) -> Result<Vec<E>, Fault> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (r, o) = self.xlate(addr, n, false)?;
        let reg = self.region(r);
        Ok((0..n).map(|i| reg.get_e(o + i)).collect())
    }
    pub fn write_bytes(&mut self, addr: u64, b: &[E]) -> Result<(), Fault> {
        if b.is_empty() {
            return Ok(());
        }
        let (r, o) = self.xlate(addr, b.len() as u64, true)?;
        let reg = self.region_mut(r);
        for (i, e) in b.iter().enumerate() {
            reg.set_e(o + i as u64, *e);
        }
        Ok(())
    }
}
