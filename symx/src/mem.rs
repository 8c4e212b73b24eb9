//! Flat, paged, copy-on-write memory with a per-byte symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

pub const PB: u32 = 11;
pub const PS: usize = 1 << PB;
const LB: u32 = 8;
const LS: usize = 1 << LB;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<[E; PS]>> }
#[derive(Clone)]
struct L2 { p: [Option<Rc<Page>>; LS] }

#[derive(Clone)]
pub struct Mem { top: Vec<Option<Rc<L2>>>, zero: Rc<Page> }

pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Self { Mem { top: vec![], zero: Rc::new(Page { d: [0; PS], s: None }) } }
    #[inline] fn page(&self, a: u64) -> Option<&Page> {
        let i = (a >> (PB + LB)) as usize;
        match self.top.get(i) { Some(Some(l)) => l.p[(a >> PB) as usize & (LS - 1)].as_deref(), _ => None }
    }
    #[inline] fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let i = (a >> (PB + LB)) as usize;
        match self.top.get_mut(i) {
            Some(Some(l)) => { let l = Rc::make_mut(l); match &mut l.p[(a >> PB) as usize & (LS - 1)] { Some(p) => Some(Rc::make_mut(p)), None => None } }
            _ => None,
        }
    }
    pub fn map(&mut self, a: u64, n: u64) {
        if n == 0 { return; }
        let zero = self.zero.clone();
        for pg in (a >> PB)..=((a + n - 1) >> PB) {
            let i = (pg >> LB) as usize;
            if self.top.len() <= i { self.top.resize(i + 1, None); }
            let l = self.top[i].get_or_insert_with(|| Rc::new(L2 { p: std::array::from_fn(|_| None) }));
            let l = Rc::make_mut(l);
            let s = &mut l.p[pg as usize & (LS - 1)];
            if s.is_none() { *s = Some(zero.clone()); }
        }
    }
    #[inline] pub fn mapped(&self, a: u64) -> bool { self.page(a).is_some() }
    /// concrete fast-path read; None if any byte is symbolic
    #[inline] pub fn read(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let off = a as usize & (PS - 1);
        if off + n <= PS {
            let p = self.page(a).ok_or(Fault(a))?;
            if let Some(s) = &p.s { for i in 0..n { if s[off + i] != 0 { return Ok(None); } } }
            let mut v = 0u64;
            match n {
                8 => v = u64::from_le_bytes(p.d[off..off + 8].try_into().unwrap()),
                4 => v = u32::from_le_bytes(p.d[off..off + 4].try_into().unwrap()) as u64,
                1 => v = p.d[off] as u64,
                2 => v = u16::from_le_bytes(p.d[off..off + 2].try_into().unwrap()) as u64,
                _ => for i in (0..n).rev() { v = v << 8 | p.d[off + i] as u64 },
            }
            Ok(Some(v))
        } else {
            let mut v = 0u64;
            for i in (0..n).rev() { let (b, e) = self.byte(a + i as u64)?; if e != 0 { return Ok(None); } v = v << 8 | b as u64; }
            Ok(Some(v))
        }
    }
    #[inline] pub fn byte(&self, a: u64) -> Result<(u8, E), Fault> {
        let p = self.page(a).ok_or(Fault(a))?;
        let off = a as usize & (PS - 1);
        Ok((p.d[off], p.s.as_ref().map_or(0, |s| s[off])))
    }
    #[inline] pub fn write(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let off = a as usize & (PS - 1);
        if off + n <= PS {
            let p = self.page_mut(a).ok_or(Fault(a))?;
            p.d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s { for i in 0..n { s[off + i] = 0; } }
            Ok(())
        } else {
            for i in 0..n { self.wbyte(a + i as u64, (v >> (8 * i)) as u8, 0)?; }
            Ok(())
        }
    }
    pub fn wbyte(&mut self, a: u64, b: u8, e: E) -> Result<(), Fault> {
        let p = self.page_mut(a).ok_or(Fault(a))?;
        let off = a as usize & (PS - 1);
        p.d[off] = b;
        if e != 0 && p.s.is_none() { p.s = Some(Box::new([0; PS])); }
        if let Some(s) = &mut p.s { s[off] = e; }
        Ok(())
    }
    pub fn read_bytes(&self, a: u64, n: u64, d: &mut Vec<u8>, s: &mut Vec<E>) -> Result<bool, Fault> {
        d.clear(); s.clear();
        let mut any = false;
        let mut i = 0u64;
        while i < n {
            let off = (a + i) as usize & (PS - 1);
            let k = ((PS - off) as u64).min(n - i) as usize;
            let p = self.page(a + i).ok_or(Fault(a + i))?;
            d.extend_from_slice(&p.d[off..off + k]);
            match &p.s { Some(x) => { if x[off..off + k].iter().any(|e| *e != 0) { any = true; s.resize(i as usize, 0); s.extend_from_slice(&x[off..off + k]); } } None => {} }
            i += k as u64;
        }
        if any { s.resize(n as usize, 0); }
        Ok(any)
    }
    pub fn write_bytes(&mut self, a: u64, d: &[u8], s: Option<&[E]>) -> Result<(), Fault> {
        let n = d.len() as u64;
        let mut i = 0u64;
        while i < n {
            let off = (a + i) as usize & (PS - 1);
            let k = ((PS - off) as u64).min(n - i) as usize;
            let p = self.page_mut(a + i).ok_or(Fault(a + i))?;
            p.d[off..off + k].copy_from_slice(&d[i as usize..i as usize + k]);
            match s {
                Some(s) if s[i as usize..i as usize + k].iter().any(|e| *e != 0) => {
                    p.s.get_or_insert_with(|| Box::new([0; PS]))[off..off + k].copy_from_slice(&s[i as usize..i as usize + k]);
                }
                _ => if let Some(x) = &mut p.s { x[off..off + k].iter_mut().for_each(|e| *e = 0); }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, b: u8, e: E, n: u64) -> Result<(), Fault> {
        if e == 0 {
            let mut i = 0u64;
            while i < n {
                let off = (a + i) as usize & (PS - 1);
                let k = ((PS - off) as u64).min(n - i) as usize;
                let p = self.page_mut(a + i).ok_or(Fault(a + i))?;
                p.d[off..off + k].fill(b);
                if let Some(x) = &mut p.s { x[off..off + k].fill(0); }
                i += k as u64;
            }
            Ok(())
        } else { for i in 0..n { self.wbyte(a + i, b, e)?; } Ok(()) }
    }
}
