//! Hash-consed bit-vector / IEEE-754 terms over symbolic bytes, with simplification,
//! concrete evaluation, per-byte truth tables and interval bounds.
use crate::ir::{mask128, sext128, sext64};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, SiToFp, UiToFp, FpToSi, FpToUi, FpExt, FpTrunc, FSqrt, FFloor, FCeil, FTrunc, FRound, FRint }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32, pub k: u64 }

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_has(d: &Dom, v: u8) -> bool { d[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_first(d: &Dom) -> Option<u8> { for i in 0..4 { if d[i] != 0 { return Some((i * 64) as u8 + d[i].trailing_zeros() as u8); } } None }
pub fn dom_last(d: &Dom) -> Option<u8> { for i in (0..4).rev() { if d[i] != 0 { return Some((i * 64) as u8 + 63 - d[i].leading_zeros() as u8); } } None }
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }

#[derive(Default)]
pub struct Exprs {
    pub n: Vec<Node>,
    pub sup: Vec<u128>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    tt: HashMap<E, Rc<Vec<u64>>>,
    memo: Vec<u128>, epoch: Vec<u32>, cur_epoch: u32, cur_model: u64,
}
#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = 0u64; for (i, y) in c.iter().enumerate() { x |= (*y as u64) << (8 * i); } self.write_u64(x); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

fn fbin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    if w == 64 { let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64)); (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128 }
    else { let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32)); (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128 }
}
fn f_of(w: u16, a: u128) -> f64 { if w == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 } }
fn of_f(w: u16, x: f64) -> u128 { if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 } }

pub fn apply(op: Op, w: u16, ow: u16, k: u64, a: u128, b: u128, c: u128) -> u128 {
    let wu = w as u32;
    let r = match op {
        Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { u128::MAX } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext128(a, wu), sext128(b, wu)); if y == 0 { if x < 0 { 1 } else { u128::MAX } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sext128(a, wu), sext128(b, wu)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b }, Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { wu - 1 } else { b as u32 }; (sext128(a, wu) >> s) as u128 }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, ow as u32) < sext128(b, ow as u32)) as u128, Op::Sle => (sext128(a, ow as u32) <= sext128(b, ow as u32)) as u128,
        Op::Ite => if a & 1 == 1 { b } else { c },
        Op::Concat => (a << k) | b, Op::Extract => a >> k, Op::ZExt => a, Op::SExt => sext128(a, ow as u32) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => fbin(op, w, a, b),
        Op::FEq => (f_of(ow, a) == f_of(ow, b)) as u128, Op::FLt => (f_of(ow, a) < f_of(ow, b)) as u128, Op::FLe => (f_of(ow, a) <= f_of(ow, b)) as u128,
        Op::SiToFp => { let x = sext128(a, ow as u32); if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        Op::UiToFp => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::FpToSi => { let x = f_of(ow, a); (x as i128) as u128 }
        Op::FpToUi => { let x = f_of(ow, a); x as u128 }
        Op::FpExt | Op::FpTrunc => of_f(w, f_of(ow, a)),
        Op::FSqrt => if w == 64 { f64::from_bits(a as u64).sqrt().to_bits() as u128 } else { f32::from_bits(a as u32).sqrt().to_bits() as u128 },
        Op::FFloor => of_f(w, f_of(w, a).floor()), Op::FCeil => of_f(w, f_of(w, a).ceil()), Op::FTrunc => of_f(w, f_of(w, a).trunc()), Op::FRound => of_f(w, f_of(w, a).round()), Op::FRint => of_f(w, f_of(w, a).round_ties_even()),
        Op::Const | Op::Var => unreachable!(),
    };
    mask128(r, wu)
}

impl Exprs {
    pub fn new() -> Self { let mut e = Exprs::default(); e.n.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }); e.sup.push(0); e.memo.push(0); e.epoch.push(0); e.cur_epoch = 1; e }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    fn raw(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) { return e; }
        let s = match nd.op { Op::Const => 0, Op::Var => 1u128 << nd.k, Op::Ite => self.sup[nd.a as usize] | self.sup[nd.b as usize] | self.sup[nd.c as usize],
            Op::Extract | Op::ZExt | Op::SExt | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint => self.sup[nd.a as usize],
            _ => self.sup[nd.a as usize] | self.sup[nd.b as usize] };
        let e = self.n.len() as E; self.n.push(nd); self.sup.push(s); self.memo.push(0); self.epoch.push(0); self.map.insert(nd, e); e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E { let v = mask128(v, w); let h = (v >> 64) as u64; self.raw(Node { op: Op::Const, w: w as u16, a: h as u32, b: (h >> 32) as u32, c: 0, k: v as u64 }) }
    pub fn var(&mut self, i: u32) -> E { self.raw(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u64 }) }
    pub fn is_const(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.k as u128 | (n.a as u128) << 64 | (n.b as u128) << 96) } else { None } }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u64) -> E { self.raw(Node { op, w: w as u16, a, b, c, k }) }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.cst(u128::MAX, w); self.bin(Op::Xor, a, m) }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a); let (ca, cb) = (self.is_const(a), self.is_const(b));
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = apply(op, w as u16, w as u16, 0, x, y, 0); return self.cst(v, w); }
        let ones = mask128(u128::MAX, w);
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor => if ca.is_some() || (cb.is_none() && a > b) { return self.bin2(op, b, a, w, cb, ca, ones); },
            _ => {}
        }
        self.bin2(op, a, b, w, ca, cb, ones)
    }
    fn bin2(&mut self, op: Op, a: E, b: E, w: u32, ca: Option<u128>, cb: Option<u128>, ones: u128) -> E {
        let na = self.n[a as usize];
        match op {
            Op::Add => { if cb == Some(0) { return a; } if let Some(y) = cb { if na.op == Op::Add { if let Some(x) = self.is_const(na.b) { let k = self.cst(x.wrapping_add(y), w); return self.bin(Op::Add, na.a, k); } } } }
            Op::Sub => { if a == b { return self.cst(0, w); } if let Some(y) = cb { let k = self.cst(y.wrapping_neg(), w); return self.bin(Op::Add, a, k); } }
            Op::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; } }
            Op::UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); } } }
            Op::URem => { if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(y - 1, w); return self.bin(Op::And, a, k); } } }
            Op::And => {
                if cb == Some(0) { return b; } if cb == Some(ones) { return a; } if a == b { return a; }
                if let Some(y) = cb {
                    // mask of low bits over a zero-extension / concat: narrow it
                    if na.op == Op::And { if let Some(x) = self.is_const(na.b) { let k = self.cst(x & y, w); return self.bin(Op::And, na.a, k); } }
                    if y & (y + 1) == 0 { let n = 128 - y.leading_zeros(); if n < w { let x = self.extract(a, n - 1, 0); return self.zext(x, w); } }
                    if na.op == Op::ZExt { let iw = self.w(na.a); let k = self.cst(y, iw); let x = self.bin(Op::And, na.a, k); return self.zext(x, w); }
                    if na.op == Op::Ite { if let (Some(_), Some(_)) = (self.is_const(na.b), self.is_const(na.c)) { let t = self.bin(op, na.b, b); let f = self.bin(op, na.c, b); return self.ite(na.a, t, f); } }
                }
                if w == 1 { let nb = self.not(b); if nb == a { return self.cst(0, 1); } }
            }
            Op::Or => {
                if cb == Some(0) { return a; } if cb == Some(ones) { return b; } if a == b { return a; }
                if let Some(e) = self.or_concat(a, b, w) { return e; }
                if let Some(e) = self.or_concat(b, a, w) { return e; }
                if w == 1 { let nb = self.not(b); if nb == a { return self.cst(1, 1); } }
            }
            Op::Xor => {
                if cb == Some(0) { return a; } if a == b { return self.cst(0, w); }
                if let Some(y) = cb { if na.op == Op::Xor { if let Some(x) = self.is_const(na.b) { let k = self.cst(x ^ y, w); return self.bin(Op::Xor, na.a, k); } }
                    if w == 1 && y == 1 { match na.op { Op::Ult => return self.mk(Op::Ule, 1, na.b, na.a, 0, 0), Op::Ule => return self.mk(Op::Ult, 1, na.b, na.a, 0, 0), Op::Slt => return self.mk(Op::Sle, 1, na.b, na.a, 0, 0), Op::Sle => return self.mk(Op::Slt, 1, na.b, na.a, 0, 0), _ => {} } }
                    // sign flip of a float through its top byte
                    if w > 1 && w < 64 && na.op == Op::Extract && y == 1u128 << (w - 1) { let f = self.n[na.a as usize]; if f.w as u64 == na.k + w as u64 && matches!(f.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::SiToFp | Op::UiToFp | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::Ite) { let t = self.extract(a, w - 1, w - 1); let t = self.not(t); let l = self.extract(a, w - 2, 0); return self.concat(t, l); } }
                    if na.op == Op::ZExt { let iw = self.w(na.a); if y >> iw == 0 { let k = self.cst(y, iw); let x = self.bin(Op::Xor, na.a, k); return self.zext(x, w); } }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { if op != Op::AShr { return self.cst(0, w); } }
                    else {
                        let s = y as u32;
                        match op {
                            Op::Shl => { let lo = self.extract(a, w - s - 1, 0); let z = self.cst(0, s); return self.concat(lo, z); }
                            Op::LShr => { let hi = self.extract(a, w - 1, s); return self.zext(hi, w); }
                            _ => { let hi = self.extract(a, w - 1, s); return self.sext(hi, w); }
                        }
                    }
                }
                if ca == Some(0) { return a; }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// a | b where a occupies the high bits (low bits known zero) and b only low bits
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let na = self.n[a as usize];
        if na.op != Op::Concat { return None; }
        let lw = na.k as u32;
        if self.is_const(na.b) != Some(0) { return None; }
        let bb = self.bits(b);
        if bb <= lw { let lo = self.extract(b, lw - 1, 0); return Some(self.concat(na.a, lo)); }
        let _ = w; None
    }
    /// upper bound on the number of significant bits
    pub fn bits(&self, e: E) -> u32 { let n = &self.n[e as usize]; match n.op { Op::Const => { let v = self.is_const(e).unwrap(); 128 - v.leading_zeros() } Op::ZExt => self.bits(n.a), Op::Concat => { let h = self.bits(n.a); if h == 0 { self.bits(n.b) } else { h + n.k as u32 } } Op::Ite => self.bits(n.b).max(self.bits(n.c)), Op::And => self.bits(n.a).min(self.bits(n.b)), Op::Or | Op::Xor => self.bits(n.a).max(self.bits(n.b)), Op::UDiv => self.bits(n.a), Op::URem => self.bits(n.b).min(self.bits(n.a)).max(if self.is_const(n.b).is_none() { self.bits(n.a) } else { 0 }), Op::Add => (self.bits(n.a).max(self.bits(n.b)) + 1).min(n.w as u32), Op::Mul => (self.bits(n.a) + self.bits(n.b)).min(n.w as u32), _ => n.w as u32 } }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let w = self.w(a); let nw = hi - lo + 1;
        if nw == w { return a; }
        let na = self.n[a as usize];
        if let Some(x) = self.is_const(a) { return self.cst(x >> lo, nw); }
        match na.op {
            Op::Extract => { let l = na.k as u32; return self.extract(na.a, hi + l, lo + l); }
            Op::Concat => { let lw = na.k as u32; if lo >= lw { return self.extract(na.a, hi - lw, lo - lw); } if hi < lw { return self.extract(na.b, hi, lo); } let h = self.extract(na.a, hi - lw, 0); let l = self.extract(na.b, lw - 1, lo); return self.concat(h, l); }
            Op::ZExt => { let iw = self.w(na.a); if lo >= iw { return self.cst(0, nw); } if hi < iw { return self.extract(na.a, hi, lo); } let x = self.extract(na.a, iw - 1, lo); return self.zext(x, nw); }
            Op::SExt => { let iw = self.w(na.a); if hi < iw { return self.extract(na.a, hi, lo); } if lo < iw { let x = self.extract(na.a, iw - 1, lo); return self.sext(x, nw); } }
            Op::Ite => { if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() { let t = self.extract(na.b, hi, lo); let f = self.extract(na.c, hi, lo); return self.ite(na.a, t, f); } }
            Op::And | Op::Or | Op::Xor => { if self.is_const(na.b).is_some() || lo > 0 || true { let t = self.extract(na.a, hi, lo); let f = self.extract(na.b, hi, lo); return self.bin(na.op, t, f); } }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && nw == 1 => { let t = self.extract(na.a, hi, 0); let f = self.extract(na.b, hi, 0); return self.bin(na.op, t, f); }
            _ => {}
        }
        self.mk(Op::Extract, nw, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, a: E, b: E) -> E { // a high
        let (wa, wb) = (self.w(a), self.w(b));
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.cst(x << wb | y, wa + wb); }
        if self.is_const(a) == Some(0) { return self.zext(b, wa + wb); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Ite && self.is_const(b).is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() { let t = self.concat(na.b, b); let f = self.concat(na.c, b); return self.ite(na.a, t, f); }
        if na.op == Op::Extract { // merge adjacent extracts
            if nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u64 { return self.extract(na.a, na.k as u32 + wa - 1, nb.k as u32); }
            if na.a == b && na.k == wb as u64 && false { return b; }
            if nb.op == Op::Concat { let x = self.n[nb.a as usize]; if x.op == Op::Extract && x.a == na.a && na.k == x.k + x.w as u64 { let m = self.concat(a, nb.a); return self.concat(m, nb.b); } }
        }
        // (h ++ X[hi..k]) ++ X[k-1..lo]
        if na.op == Op::Concat && nb.op == Op::Extract { let x = self.n[na.b as usize]; if x.op == Op::Extract && x.a == nb.a && x.k == nb.k + wb as u64 { let m = self.concat(na.b, b); return self.concat(na.a, m); } }
        if na.op == Op::Concat && nb.op == Op::Concat { let x = self.n[na.b as usize]; let y = self.n[nb.a as usize]; if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a && x.k == y.k + y.w as u64 { let m = self.concat(na.b, nb.a); let m = self.concat(m, nb.b); return self.concat(na.a, m); } }
        // sign/zero bits over a zero-extended value
        if na.op == Op::Concat && self.is_const(na.b).is_some() && self.is_const(b).is_some() { let l = self.concat(na.b, b); return self.concat(na.a, l); }
        self.mk(Op::Concat, wa + wb, a, b, 0, wb as u64)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E { let wa = self.w(a); if wa == w { return a; } if let Some(x) = self.is_const(a) { return self.cst(x, w); } let na = self.n[a as usize]; if na.op == Op::ZExt { return self.zext(na.a, w); } if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() { let t = self.zext(na.b, w); let f = self.zext(na.c, w); return self.ite(na.a, t, f); } self.mk(Op::ZExt, w, a, 0, 0, 0) }
    pub fn sext(&mut self, a: E, w: u32) -> E { let wa = self.w(a); if wa == w { return a; } if let Some(x) = self.is_const(a) { return self.cst(sext128(x, wa) as u128, w); } let na = self.n[a as usize]; if na.op == Op::ZExt { return self.zext(na.a, w); } if na.op == Op::SExt { return self.sext(na.a, w); } if wa == 1 { let t = self.cst(u128::MAX, w); let f = self.cst(0, w); return self.ite(a, t, f); } if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() { let t = self.sext(na.b, w); let f = self.sext(na.c, w); return self.ite(na.a, t, f); } self.mk(Op::SExt, w, a, 0, 0, 0) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(x) = self.is_const(c) { return if x == 1 { a } else { b }; }
        let w = self.w(a); let nc = self.n[c as usize];
        if nc.op == Op::Xor && self.is_const(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        if w == 1 { match (self.is_const(a), self.is_const(b)) { (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return self.not(c), (Some(1), None) => return self.bin(Op::Or, c, b), (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); } (None, Some(0)) => return self.bin(Op::And, c, a), (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); } _ => {} } }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.cst(1, 1); }
        let (mut a, mut b) = (a, b);
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        let w = self.w(a);
        let na = self.n[a as usize];
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst((x == y) as u128, 1); }
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            match na.op {
                Op::ZExt => { let iw = self.w(na.a); if y >> iw != 0 { return self.cst(0, 1); } let k = self.cst(y, iw); return self.eq(na.a, k); }
                Op::SExt => { let iw = self.w(na.a); let t = mask128(y, iw); if mask128(sext128(t, iw) as u128, w) != y { return self.cst(0, 1); } let k = self.cst(t, iw); return self.eq(na.a, k); }
                Op::Add => if let Some(x) = self.is_const(na.b) { let k = self.cst(y.wrapping_sub(x), w); return self.eq(na.a, k); },
                Op::Xor => if let Some(x) = self.is_const(na.b) { let k = self.cst(y ^ x, w); return self.eq(na.a, k); },
                Op::Concat => { let lw = na.k as u32; let hk = self.cst(y >> lw, w - lw); let lk = self.cst(y, lw); let h = self.eq(na.a, hk); let l = self.eq(na.b, lk); return self.bin(Op::And, h, l); }
                Op::Ite => { let (cb, cc) = (self.is_const(na.b), self.is_const(na.c)); if cb.is_some() || cc.is_some() { let t = self.eq(na.b, b); let f = self.eq(na.c, b); return self.ite(na.a, t, f); } }
                _ => {}
            }
        } else {
            let nb = self.n[b as usize];
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
            if na.op == Op::Concat && nb.op == Op::Concat && na.k == nb.k { let h = self.eq(na.a, nb.a); let l = self.eq(na.b, nb.b); return self.bin(Op::And, h, l); }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.eq(na.a, nb.a); }
        }
        if a > b && self.is_const(b).is_none() { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E { // Ult Ule Slt Sle
        let w = self.w(a);
        if a == b { return self.cst(matches!(op, Op::Ule | Op::Sle) as u128, 1); }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(apply(op, 1, w as u16, 0, x, y, 0), 1); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        // signed comparison of values whose sign bit is known clear
        let op = match op { Op::Slt | Op::Sle if self.bits(a) < w && self.bits(b) < w => if op == Op::Slt { Op::Ult } else { Op::Ule }, o => o };
        match op {
            Op::Ult => { if cb == Some(0) { return self.cst(0, 1); } if cb == Some(1) { let z = self.cst(0, w); return self.eq(a, z); } if ca == Some(mask128(u128::MAX, w)) { return self.cst(0, 1); } if ca == Some(0) { let e = self.eq(b, a); return self.not(e); } }
            Op::Ule => { if ca == Some(0) { return self.cst(1, 1); } if cb == Some(mask128(u128::MAX, w)) { return self.cst(1, 1); } if cb == Some(0) { return self.eq(a, b); } }
            _ => {}
        }
        if matches!(op, Op::Ult | Op::Ule) {
            if let Some(y) = cb { let ba = self.bits(a); if ba < 128 && (y >> ba) != 0 { return self.cst(1, 1); }
                if na.op == Op::ZExt { let iw = self.w(na.a); let k = self.cst(y, iw); return self.cmp(op, na.a, k); } }
            if let Some(x) = ca { let bb = self.bits(b); if bb < 128 && (x >> bb) != 0 { return self.cst(0, 1); }
                if nb.op == Op::ZExt { let iw = self.w(nb.a); let k = self.cst(x, iw); return self.cmp(op, k, nb.a); } }
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.cmp(op, na.a, nb.a); }
        }
        if na.op == Op::Ite && cb.is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() { let t = self.cmp(op, na.b, b); let f = self.cmp(op, na.c, b); return self.ite(na.a, t, f); }
        if nb.op == Op::Ite && ca.is_some() && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() { let t = self.cmp(op, a, nb.b); let f = self.cmp(op, a, nb.c); return self.ite(nb.a, t, f); }
        self.mk(op, 1, a, b, 0, 0)
    }
    /// IEEE operations; operands are the bit patterns
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.cst(fbin(op, w as u16, x, y), w); }
        let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
        match op { Op::FMul => { if self.is_const(b) == Some(one) { return a; } if self.is_const(a) == Some(one) { return b; } } Op::FDiv => if self.is_const(b) == Some(one) { return a; }, _ => {} }
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && a > b { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E { let w = self.w(a); if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.cst(apply(op, 1, w as u16, 0, x, y, 0), 1); } let (a, b) = if op == Op::FEq && a > b { (b, a) } else { (a, b) }; self.mk(op, 1, a, b, 0, 0) }
    pub fn un(&mut self, op: Op, a: E, w: u32) -> E { let ow = self.w(a); if let Some(x) = self.is_const(a) { return self.cst(apply(op, w as u16, ow as u16, 0, x, 0, 0), w); } self.mk(op, w, a, 0, 0, 0) }

    // ---- evaluation ----
    pub fn eval(&mut self, e: E, model: &[u8], model_id: u64) -> u128 {
        if model_id != self.cur_model { self.cur_model = model_id; self.cur_epoch = self.cur_epoch.wrapping_add(1); if self.cur_epoch == 0 { self.cur_epoch = 1; for x in self.epoch.iter_mut() { *x = 0; } } }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, m: &[u8]) -> u128 {
        let ei = e as usize;
        let n = self.n[ei];
        match n.op { Op::Const => return n.k as u128 | (n.a as u128) << 64 | (n.b as u128) << 96, Op::Var => return m[n.k as usize] as u128, _ => {} }
        if self.epoch[ei] == self.cur_epoch { return self.memo[ei]; }
        let a = self.eval_rec(n.a, m); let ow = self.n[n.a as usize].w;
        let v = match n.op { Op::Ite => if a == 1 { self.eval_rec(n.b, m) } else { self.eval_rec(n.c, m) },
            Op::Extract | Op::ZExt | Op::SExt | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint => apply(n.op, n.w, ow, n.k, a, 0, 0),
            _ => { let b = self.eval_rec(n.b, m); apply(n.op, n.w, ow, n.k, a, b, 0) } };
        self.memo[ei] = v; self.epoch[ei] = self.cur_epoch; v
    }
    /// table of a term over one symbolic byte (width <= 64)
    pub fn table(&mut self, e: E) -> Option<Rc<Vec<u64>>> {
        if let Some(t) = self.tt.get(&e) { return Some(t.clone()); }
        let n = self.n[e as usize];
        if n.w > 64 { return None; }
        let mut out = vec![0u64; 256];
        let un = matches!(n.op, Op::Extract | Op::ZExt | Op::SExt | Op::SiToFp | Op::UiToFp | Op::FpToSi | Op::FpToUi | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint);
        match n.op {
            Op::Const => { for x in out.iter_mut() { *x = n.k; } return Some(Rc::new(out)); }
            Op::Var => { for (i, x) in out.iter_mut().enumerate() { *x = i as u64; } return Some(Rc::new(out)); }
            _ => {
                let ow = self.n[n.a as usize].w;
                let ta = self.table(n.a)?;
                if un { for i in 0..256 { out[i] = apply(n.op, n.w, ow, n.k, ta[i] as u128, 0, 0) as u64; } }
                else { let tb = self.table(n.b)?; let tc = if n.op == Op::Ite { self.table(n.c)? } else { tb.clone() }; for i in 0..256 { out[i] = apply(n.op, n.w, ow, n.k, ta[i] as u128, tb[i] as u128, tc[i] as u128) as u64; } }
            }
        }
        let r = Rc::new(out); if self.tt.len() > 200_000 { self.tt.clear(); } self.tt.insert(e, r.clone()); Some(r)
    }
    /// unsigned interval under byte domains
    pub fn interval(&self, e: E, dom: &[Dom], memo: &mut HashMap<E, (u128, u128)>) -> (u128, u128) {
        let n = self.n[e as usize];
        let full = (0u128, mask128(u128::MAX, n.w as u32));
        match n.op { Op::Const => { let v = self.is_const(e).unwrap(); return (v, v); } Op::Var => { let d = &dom[n.k as usize]; return (dom_first(d).unwrap_or(0) as u128, dom_last(d).unwrap_or(255) as u128); } _ => {} }
        if let Some(r) = memo.get(&e) { return *r; }
        if n.w > 64 && !matches!(n.op, Op::ZExt | Op::Add | Op::Mul | Op::Ite | Op::UDiv | Op::Concat | Op::And) { return full; }
        let ow = self.n[n.a as usize].w as u32;
        let r = match n.op {
            Op::Add => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if n.w < 128 && a.1 + b.1 <= full.1 { (a.0 + b.0, a.1 + b.1) } else if n.w < 127 { // constant wrap-around (x - k)
                    let m = full.1 + 1; if a.0 + b.0 >= m { (a.0 + b.0 - m, a.1 + b.1 - m) } else { full } } else { full } }
            Op::Sub => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full } }
            Op::Mul => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); match a.1.checked_mul(b.1) { Some(h) if h <= full.1 => (a.0 * b.0, h), _ => full } }
            Op::UDiv => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full } }
            Op::URem => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if b.0 > 0 { if a.1 < b.0 { a } else { (0, b.1 - 1) } } else { full } }
            Op::And => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); (0, a.1.min(b.1)) }
            Op::Or => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); let h = a.1 | b.1; let bits = 128 - h.leading_zeros(); (a.0.max(b.0), mask128(u128::MAX, bits.max(1)).min(full.1)) }
            Op::ZExt => self.interval(n.a, dom, memo),
            Op::SExt => { let a = self.interval(n.a, dom, memo); if a.1 < (1u128 << (ow - 1)) { a } else { full } }
            Op::Concat => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); ((a.0 << n.k) + b.0, (a.1 << n.k) + b.1) }
            Op::Extract => { let a = self.interval(n.a, dom, memo); let sh = n.k as u32; if a.1 >> sh <= full.1 { (a.0 >> sh, a.1 >> sh) } else { full } }
            Op::Ite => { let c = self.interval(n.a, dom, memo); if c.0 == 1 { self.interval(n.b, dom, memo) } else if c.1 == 0 { self.interval(n.c, dom, memo) } else { let (a, b) = (self.interval(n.b, dom, memo), self.interval(n.c, dom, memo)); (a.0.min(b.0), a.1.max(b.1)) } }
            Op::Ult => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } }
            Op::Ule => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { full } }
            Op::Slt | Op::Sle => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); let s = 1u128 << (ow - 1); let strict = n.op == Op::Slt;
                let sg = |x: (u128, u128)| -> Option<(i128, i128)> { if x.1 < s || x.0 >= s { Some((sext128(x.0, ow), sext128(x.1, ow))) } else { None } };
                match (sg(a), sg(b)) { (Some(a), Some(b)) => if strict { if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { full } } else if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { full }, _ => full } }
            Op::Eq => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if a.1 < b.0 || b.1 < a.0 { (0, 0) } else if a.0 == a.1 && a == b { (1, 1) } else { full } }
            Op::Xor if n.w == 1 => { let (a, b) = (self.interval(n.a, dom, memo), self.interval(n.b, dom, memo)); if a.0 == a.1 && b.0 == b.1 { (a.0 ^ b.0, a.0 ^ b.0) } else { full } }
            _ => full,
        };
        memo.insert(e, r); r
    }
    pub fn show(&self, e: E, depth: u32) -> String { let n = self.n[e as usize]; match n.op { Op::Const => format!("{:#x}:{}", self.is_const(e).unwrap(), n.w), Op::Var => format!("b{}", n.k), _ if depth == 0 => "..".into(), Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)), Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w), Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)), _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), if n.b == 0 { String::new() } else { self.show(n.b, depth - 1) }) } }
    pub fn sext_val(x: u64, w: u32) -> i64 { sext64(x, w) }
}
