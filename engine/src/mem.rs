//! Copy-on-write byte memory with symbolic overlay.
use crate::expr::*;
use crate::ir::V;
use std::rc::Rc;

#[derive(Clone)]
pub struct Page { pub d: [u8; 4096], pub s: Option<Box<[u32; 4096]>> }
#[derive(Clone)]
pub struct Mid { p: [Option<Rc<Page>>; 64] }
#[derive(Clone, Default)]
pub struct Mem { top: Vec<Option<Rc<Mid>>> }

pub struct Fault(pub u64);

impl Mem {
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> { match self.top.get((a >> 18) as usize) { Some(Some(m)) => m.p[(a >> 12 & 63) as usize].as_deref(), _ => None } }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let t = (a >> 18) as usize;
        if t >= 65536 || a < 4096 { return Err(Fault(a)); }
        if t >= self.top.len() { self.top.resize(t + 1, None); }
        let m = self.top[t].get_or_insert_with(|| Rc::new(Mid { p: std::array::from_fn(|_| None) }));
        let m = Rc::make_mut(m);
        let p = m.p[(a >> 12 & 63) as usize].get_or_insert_with(|| Rc::new(Page { d: [0; 4096], s: None }));
        Ok(Rc::make_mut(p))
    }
    #[inline]
    pub fn get(&self, a: u64) -> (u8, u32) { match self.page(a) { Some(p) => { let o = (a & 4095) as usize; (p.d[o], p.s.as_ref().map_or(0, |s| s[o])) } None => (0, 0) } }
    pub fn set(&mut self, a: u64, v: u8, s: u32) -> Result<(), Fault> { let p = self.page_mut(a)?; let o = (a & 4095) as usize; p.d[o] = v; if s != 0 { p.s.get_or_insert_with(|| Box::new([0; 4096]))[o] = s; } else if let Some(x) = &mut p.s { x[o] = 0; } Ok(()) }
    pub fn write(&mut self, a: u64, b: &[u8]) -> Result<(), Fault> { let mut i = 0; while i < b.len() { let aa = a + i as u64; let o = (aa & 4095) as usize; let n = (4096 - o).min(b.len() - i); let p = self.page_mut(aa)?; p.d[o..o + n].copy_from_slice(&b[i..i + n]); if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = 0; } } i += n; } Ok(()) }
    #[inline]
    pub fn load64(&self, a: u64, n: usize) -> Option<u64> { // concrete fast path
        let o = (a & 4095) as usize;
        if o + n > 4096 { return None; }
        let p = self.page(a)?;
        if let Some(s) = &p.s { for k in 0..n { if s[o + k] != 0 { return None; } } }
        Some(match n { 8 => u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()), 4 => u32::from_le_bytes(p.d[o..o + 4].try_into().unwrap()) as u64, 1 => p.d[o] as u64, 2 => u16::from_le_bytes(p.d[o..o + 2].try_into().unwrap()) as u64, _ => { let mut x = 0u64; for k in 0..n { x |= (p.d[o + k] as u64) << (8 * k); } x } })
    }
    #[inline]
    pub fn store64(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = (a & 4095) as usize;
        if o + n > 4096 { for k in 0..n { self.set(a + k as u64, (v >> (8 * k)) as u8, 0)?; } return Ok(()); }
        let p = self.page_mut(a)?;
        p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut p.s { for x in &mut s[o..o + n] { *x = 0; } }
        Ok(())
    }
    pub fn load(&self, ex: &mut Exprs, a: u64, w: u32) -> Result<V, Fault> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 { if let Some(x) = self.load64(a, n) { return Ok(V::C(crate::ir::mask64(x, w))); } }
        if a < 4096 { return Err(Fault(a)); }
        let mut sym = false; let mut bs = [(0u8, 0u32); 32]; let mut cv = 0u128;
        if n > 16 { return Err(Fault(a)); }
        for k in 0..n { bs[k] = self.get(a + k as u64); if bs[k].1 != 0 { sym = true; } cv |= (bs[k].0 as u128) << (8 * k); }
        if !sym { let cv = crate::ir::mask128(cv, w); return Ok(if w <= 64 { V::C(cv as u64) } else { V::W(Rc::new(cv)) }); }
        let mut e: Option<E> = None;
        for k in (0..n).rev() { let b = if bs[k].1 != 0 { bs[k].1 } else { ex.cst(bs[k].0 as u128, 8) }; e = Some(match e { None => b, Some(h) => ex.concat(h, b) }); }
        let mut e = e.unwrap(); if (n as u32) * 8 != w { e = ex.extract(e, w - 1, 0); }
        Ok(from_e(ex, e))
    }
    pub fn store(&mut self, ex: &mut Exprs, a: u64, w: u32, v: &V) -> Result<(), Fault> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(x) if n <= 8 => self.store64(a, n, *x),
            V::C(x) => { let b = (*x as u128).to_le_bytes(); self.write(a, &b[..n]) }
            V::W(x) => { let b = x.to_le_bytes(); self.write(a, &b[..n]) }
            V::S(e) => { let mut e = *e; if (n as u32) * 8 != w { e = ex.zext(e, n as u32 * 8); } for k in 0..n { let b = if n == 1 { e } else { ex.extract(e, 8 * k as u32 + 7, 8 * k as u32) }; match ex.is_const(b) { Some(c) => self.set(a + k as u64, c as u8, 0)?, None => self.set(a + k as u64, 0, b)? } } Ok(()) }
            V::A(_) => unreachable!(),
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src { return Ok(()); }
        if src < 4096 { return Err(Fault(src)); }
        let mut buf = vec![0u8; n as usize]; let mut sy: Option<Vec<u32>> = None;
        let mut i = 0u64;
        while i < n { let a = src + i; let o = (a & 4095) as usize; let k = (4096 - o).min((n - i) as usize); if let Some(p) = self.page(a) { buf[i as usize..i as usize + k].copy_from_slice(&p.d[o..o + k]); if let Some(s) = &p.s { if s[o..o + k].iter().any(|x| *x != 0) { sy.get_or_insert_with(|| vec![0; n as usize])[i as usize..i as usize + k].copy_from_slice(&s[o..o + k]); } } } i += k as u64; }
        self.write(dst, &buf)?;
        if let Some(sy) = sy { for (k, s) in sy.iter().enumerate() { if *s != 0 { self.set(dst + k as u64, 0, *s)?; } } }
        Ok(())
    }
}
pub fn from_e(ex: &Exprs, e: E) -> V { match ex.is_const(e) { Some(c) => if ex.w(e) <= 64 { V::C(c as u64) } else { V::W(Rc::new(c)) }, None => V::S(e) } }
