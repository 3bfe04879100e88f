//! Linear-arithmetic over-approximation of bit-vector / IEEE terms, decided by z3 (QF_LIRA).
//! Every term becomes an affine form over integer atoms (bytes, quotients) and bounded real error
//! atoms (one per inexact rounding). What cannot be expressed becomes an unconstrained bounded atom,
//! so "unsat" is a proof; a model is only a candidate and is evaluated on the exact terms.
use crate::expr::*;
use crate::z3::{Ops, Z3};
use std::collections::HashMap;
use std::ffi::c_void;
type P = *mut c_void;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rat { n: i128, d: i128 }
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a as i128 }
impl Rat {
    fn int(n: i128) -> Rat { Rat { n, d: 1 } }
    fn mk(n: i128, d: i128) -> Option<Rat> { if n == i128::MIN || d == i128::MIN || d == 0 { return None; } let g = gcd(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; Some(Rat { n: s * n / g, d: s * d / g }) }
    fn add(self, o: Rat) -> Option<Rat> { let g = gcd(self.d, o.d); let x = self.n.checked_mul(o.d / g)?; let y = o.n.checked_mul(self.d / g)?; Rat::mk(x.checked_add(y)?, self.d.checked_mul(o.d / g)?) }
    fn mul(self, o: Rat) -> Option<Rat> { let g = gcd(self.n, o.d).max(1); let h = gcd(o.n, self.d).max(1); Rat::mk((self.n / g).checked_mul(o.n / h)?, (self.d / h).checked_mul(o.d / g)?) }
    fn inv(self) -> Option<Rat> { Rat::mk(self.d, self.n) }
    fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } }
    fn f(self) -> f64 { self.n as f64 / self.d as f64 }
    fn is_int(self) -> bool { self.d == 1 }
    fn zero(self) -> bool { self.n == 0 }
    pub fn of_f64(x: f64) -> Option<Rat> { if !x.is_finite() { return None; } if x == 0.0 { return Some(Rat::int(0)); } let b = x.to_bits(); let e = ((b >> 52) & 0x7ff) as i32; let m = (b & ((1 << 52) - 1)) | if e == 0 { 0 } else { 1 << 52 }; let mut e2 = e.max(1) - 1075; let mut m = m as i128; while m & 1 == 0 { m >>= 1; e2 += 1; } if b >> 63 == 1 { m = -m; }
        if e2 >= 0 { if e2 > 60 { return None; } Rat::mk(m.checked_mul(1i128 << e2)?, 1) } else { if e2 < -120 { return None; } Rat::mk(m, 1i128 << -e2) } }
    fn pow2(e: i32) -> Rat { if e >= 0 { Rat::int(1i128 << e.min(100)) } else { Rat { n: 1, d: 1i128 << (-e).min(120) } } }
}
#[derive(Clone, Debug, Default)]
struct Lin { t: Vec<(u32, Rat)>, c: Rat }
impl Default for Rat { fn default() -> Rat { Rat::int(0) } }
impl Lin {
    fn con(c: Rat) -> Lin { Lin { t: vec![], c } }
    fn atom(a: u32) -> Lin { Lin { t: vec![(a, Rat::int(1))], c: Rat::int(0) } }
    fn add(&self, o: &Lin, k: Rat) -> Option<Lin> {
        let mut out = vec![]; let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { out.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { out.push((o.t[j].0, o.t[j].1.mul(k)?)); j += 1; }
            else { let r = self.t[i].1.add(o.t[j].1.mul(k)?)?; if !r.zero() { out.push((self.t[i].0, r)); } i += 1; j += 1; }
        }
        Some(Lin { t: out, c: self.c.add(o.c.mul(k)?)? })
    }
    fn scale(&self, k: Rat) -> Option<Lin> { if k.zero() { return Some(Lin::con(Rat::int(0))); } let mut t = vec![]; for (a, r) in &self.t { t.push((*a, r.mul(k)?)); } Some(Lin { t, c: self.c.mul(k)? }) }
}
struct Atom { int: bool, lo: f64, hi: f64, z: P }
#[derive(Clone)]
struct Iv { lin: Lin, lo: i128, hi: i128 }
#[derive(Clone)]
struct Fv { lin: Lin, lo: f64, hi: f64, grid: Option<i32> }
#[derive(Clone, Copy)]
enum B { T, F, Z(P) }
pub struct Ar<'a> { o: Ops, x: &'a Exprs, dom: HashMap<u32, Dom>, at: Vec<Atom>, side: Vec<P>, iv: HashMap<E, Iv>, sg: HashMap<E, Iv>, fv: HashMap<E, Option<Fv>>, bo: HashMap<E, Option<B>>, va: HashMap<u32, u32>, qa: HashMap<(E, u128), (Iv, Iv)>, tr: HashMap<(E, u8), Option<Fv>>, pub fresh: u64, pub fresh_log: Vec<String>, pub model_log: Vec<(E, f64)> }
pub enum ArRes { Unsat, Model(Vec<(u32, u8)>), Unknown }
const P53: f64 = 9007199254740992.0;
fn dn(x: f64) -> f64 { if x.is_infinite() { x } else { x - x.abs() * 4e-16 - 1e-300 } }
fn up(x: f64) -> f64 { if x.is_infinite() { x } else { x + x.abs() * 4e-16 + 1e-300 } }
fn sat(f: f64) -> i128 { if f >= 1e37 { i128::MAX / 4 } else if f <= -1e37 { i128::MIN / 4 } else { f as i128 } }
impl<'a> Ar<'a> {
    pub fn new(z: &Z3, x: &'a Exprs, doms: &[(u32, Dom)]) -> Ar<'a> { Ar { o: z.ops(), x, dom: doms.iter().cloned().collect(), at: vec![], side: vec![], iv: HashMap::new(), sg: HashMap::new(), fv: HashMap::new(), bo: HashMap::new(), va: HashMap::new(), qa: HashMap::new(), tr: HashMap::new(), fresh: 0, fresh_log: vec![], model_log: vec![] } }
    fn atom(&mut self, int: bool, lo: f64, hi: f64, assert_bounds: bool) -> u32 { let z = self.o.fresh(int); let i = self.at.len() as u32; self.at.push(Atom { int, lo, hi, z });
        if assert_bounds { if let Some(l) = Rat::of_f64(if int { lo.floor() } else { lo }) { let k = self.o.rat(l.n, l.d, int); let b = self.o.ge(z, k); self.side.push(b); } if let Some(h) = Rat::of_f64(if int { hi.ceil() } else { hi }) { let k = self.o.rat(h.n, h.d, int); let b = self.o.ge(k, z); self.side.push(b); } } i }
    fn bounds(&self, l: &Lin) -> (f64, f64) { let c = l.c.f(); let (mut lo, mut hi, mut ab) = (c, c, 0.0f64); if l.t.is_empty() { return (c, c); } ab += c.abs(); for (a, r) in &l.t { let t = &self.at[*a as usize]; let k = r.f(); let (p, q) = if k >= 0.0 { (k * t.lo, k * t.hi) } else { (k * t.hi, k * t.lo) }; lo += p; hi += q; ab += p.abs().max(q.abs()); } let s = ab * 1e-14; 
        // exact when everything is a small integer
        if ab < P53 && l.c.is_int() && l.t.iter().all(|(a, r)| r.is_int() && self.at[*a as usize].int) { return (lo, hi); }
        (lo - s, hi + s) }
    fn zlin(&self, l: &Lin, int: bool) -> P { let mut v = vec![]; for (a, r) in &l.t { let t = &self.at[*a as usize]; let z = if t.int && !int { self.o.to_real(t.z) } else { t.z }; v.push(if r.n == 1 && r.d == 1 { z } else { let k = self.o.rat(r.n, r.d, int); self.o.mul(k, z) }); } if !l.c.zero() || v.is_empty() { v.push(self.o.rat(l.c.n, l.c.d, int)); } if v.len() == 1 { v[0] } else { self.o.add(&v) } }
    fn all_int(&self, l: &Lin) -> bool { l.c.is_int() && l.t.iter().all(|(a, r)| r.is_int() && self.at[*a as usize].int) }
    /// l >= 0 (or > 0)
    fn nonneg(&self, l: &Lin, strict: bool) -> B { let (lo, hi) = self.bounds(l); if if strict { lo > 0.0 } else { lo >= 0.0 } { return B::T; } if if strict { hi <= 0.0 } else { hi < 0.0 } { return B::F; } let int = self.all_int(l); let z = self.zlin(l, int); let k = self.o.rat(0, 1, int); if strict { B::Z(self.o.gt(z, k)) } else { B::Z(self.o.ge(z, k)) } }
    fn iszero(&self, l: &Lin) -> B { let (lo, hi) = self.bounds(l); if lo > 0.0 || hi < 0.0 { return B::F; } if l.t.is_empty() { return if l.c.zero() { B::T } else { B::F }; } let int = self.all_int(l); let z = self.zlin(l, int); let k = self.o.rat(0, 1, int); B::Z(self.o.eq(z, k)) }
    fn bz(&self, b: B) -> P { match b { B::T => self.o.boolean(true), B::F => self.o.boolean(false), B::Z(p) => p } }
    fn not(&self, b: B) -> B { match b { B::T => B::F, B::F => B::T, B::Z(p) => B::Z(self.o.not(p)) } }
    fn and(&self, a: B, b: B) -> B { match (a, b) { (B::F, _) | (_, B::F) => B::F, (B::T, y) => y, (x, B::T) => x, (B::Z(p), B::Z(q)) => B::Z(self.o.and(&[p, q])) } }
    fn or(&self, a: B, b: B) -> B { let (a, b) = (self.not(a), self.not(b)); let r = self.and(a, b); self.not(r) }
    fn require(&mut self, b: B) { match b { B::T => {} B::F => { let f = self.o.boolean(false); self.side.push(f) } B::Z(p) => self.side.push(p) } }
    fn fresh_iv(&mut self, lo: i128, hi: i128) -> Iv { self.fresh += 1; let a = self.atom(true, lo as f64, hi as f64, true); Iv { lin: Lin::atom(a), lo, hi } }
    fn mkiv(&self, lin: Lin, lo: i128, hi: i128) -> Iv { let (l, h) = self.bounds(&lin); let (l, h) = if l.abs() < P53 && h.abs() < P53 { (sat(l.ceil()), sat(h.floor())) } else { (lo, hi) }; Iv { lin, lo: lo.max(l), hi: hi.min(h) } }
    fn divmod(&mut self, e: E, a: &Iv, k: u128) -> (Iv, Iv) {
        if let Some(r) = self.qa.get(&(e, k)) { return r.clone(); }
        let kk = k as i128;
        // quotients of one value by multiples of each other share one decomposition
        let nn = self.x.n[e as usize];
        if a.lo >= 0 && a.hi >= kk && matches!(nn.op, Op::UDiv | Op::URem) { if let Some(k1) = self.x.is_const(nn.b) { if k1 > 0 && k1 < 1 << 50 && k < 1 << 50 {
            let mid = |l: Lin, m: i128, s: &mut Self, a: &Iv| -> Option<(Iv, Iv)> { let rem = a.lin.add(&l, Rat::int(-m))?; let q = s.mkiv(l, 0, a.hi / m); Some((q, Iv { lin: rem, lo: 0, hi: m - 1 })) };
            let r = if nn.op == Op::UDiv { let base = self.int(nn.a); let (q, _) = self.divmod(nn.a, &base, k1 * k); mid(q.lin, kk, self, a) }
                else if k1 % k == 0 { let base = self.int(nn.a); let (_, r) = self.divmod(nn.a, &base, k); a.lin.add(&r.lin, Rat::int(-1)).and_then(|d| d.scale(Rat::int(kk).inv()?)).and_then(|l| mid(l, kk, self, a)) } else { None };
            if let Some(r) = r { self.qa.insert((e, k), r.clone()); return r; } } } }
        if a.lo >= 0 && a.hi >= kk { 
            let ks: Vec<u128> = self.qa.keys().filter(|(x, _)| *x == e).map(|(_, k)| *k).collect();
            let below = ks.iter().filter(|x| k % **x == 0).max().cloned(); let above = ks.iter().filter(|x| **x % k == 0).min().cloned();
            let q = if let Some(j) = below { let q = self.qa[&(e, j)].0.clone(); let m = k / j; let r = self.split(&q, m as i128); r.map(|r| r.0) }
                else if let Some(j) = above { let q = self.qa[&(e, j)].0.clone(); let m = (j / k) as i128; let s = self.fresh_iv(0, m - 1); q.lin.scale(Rat::int(m)).and_then(|l| l.add(&s.lin, Rat::int(1))).map(|l| self.mkiv(l, 0, a.hi / kk)) } else { None };
            if let Some(q) = q { if let Some(rem) = a.lin.add(&q.lin, Rat::int(-kk)) { let c1 = self.nonneg(&rem, false); self.require(c1); if let Some(x) = Lin::con(Rat::int(kk - 1)).add(&rem, Rat::int(-1)) { let c2 = self.nonneg(&x, false); self.require(c2); } let r = (q, Iv { lin: rem, lo: 0, hi: kk - 1 }); self.qa.insert((e, k), r.clone()); return r; } }
        }
        let r = if a.hi < kk && a.lo >= 0 { (Iv { lin: Lin::con(Rat::int(0)), lo: 0, hi: 0 }, a.clone()) } else {
            // exact split: terms divisible by k leave the quotient directly
            let mut qt = Lin::con(Rat::int(0)); let mut rest = Lin::con(a.lin.c); for (t, r) in &a.lin.t { if r.is_int() && r.n % kk == 0 { qt.t.push((*t, Rat::int(r.n / kk))); } else { rest.t.push((*t, *r)); } }
            if rest.c.is_int() { let cq = rest.c.n.div_euclid(kk); qt.c = Rat::int(cq); rest.c = Rat::int(rest.c.n - cq * kk); }
            let (rl, rh) = { let (l, h) = self.bounds(&rest); if l.abs() < P53 && h.abs() < P53 && rest.c.is_int() { let s = (l / kk as f64).floor(); let si = s as i128; qt.c = qt.c.add(Rat::int(si)).unwrap_or(qt.c); rest.c = rest.c.add(Rat::int(-si * kk)).unwrap_or(rest.c); (l - s * kk as f64, h - s * kk as f64) } else { (l, h) } };
            if rl >= 0.0 && rh < k as f64 && rh < P53 { let (ql, qh) = (a.lo.div_euclid(kk), a.hi.div_euclid(kk)); (self.mkiv(qt, ql, qh), self.mkiv(rest, 0, kk - 1)) }
            else {
                if std::env::var("VPDBG").is_ok() { eprintln!("DIV {kk} rest {:?} bounds {rl} {rh} atoms {:?}", rest, rest.t.iter().map(|(a, _)| (self.at[*a as usize].int, self.at[*a as usize].lo, self.at[*a as usize].hi)).collect::<Vec<_>>()); }
                let (ql, qh) = (a.lo.div_euclid(kk), a.hi.div_euclid(kk)); let q = self.fresh_iv(ql, qh);
                match a.lin.add(&q.lin, Rat::int(-kk)) { Some(rem) => { let c1 = self.nonneg(&rem, false); self.require(c1); if let Some(x) = Lin::con(Rat::int(kk - 1)).add(&rem, Rat::int(-1)) { let c2 = self.nonneg(&x, false); self.require(c2); } (q, Iv { lin: rem, lo: 0, hi: kk - 1 }) } None => (q, self.fresh_iv(0, kk - 1)) }
            } };
        self.qa.insert((e, k), r.clone()); r
    }
    /// quotient of a by k, terms divisible by k leave directly
    fn split(&mut self, a: &Iv, kk: i128) -> Option<(Iv, ())> {
        let mut qt = Lin::con(Rat::int(0)); let mut rest = Lin::con(a.lin.c); for (t, r) in &a.lin.t { if r.is_int() && r.n % kk == 0 { qt.t.push((*t, Rat::int(r.n / kk))); } else { rest.t.push((*t, *r)); } }
        if rest.c.is_int() { let cq = rest.c.n.div_euclid(kk); qt.c = Rat::int(cq); rest.c = Rat::int(rest.c.n - cq * kk); }
        let (ql, qh) = (a.lo.div_euclid(kk), a.hi.div_euclid(kk)); let (rl, rh) = { let (l, h) = self.bounds(&rest); if l.abs() < P53 && h.abs() < P53 && rest.c.is_int() { let s = (l / kk as f64).floor(); let si = s as i128; qt.c = qt.c.add(Rat::int(si)).unwrap_or(qt.c); rest.c = rest.c.add(Rat::int(-si * kk)).unwrap_or(rest.c); (l - s * kk as f64, h - s * kk as f64) } else { (l, h) } };
        if rl >= 0.0 && rh < kk as f64 && rh < P53 { return Some((self.mkiv(qt, ql, qh), ())); }
        let (l, h) = if rl.abs() < P53 && rh.abs() < P53 { ((rl / kk as f64).floor() as i128, (rh / kk as f64).floor() as i128) } else { return None };
        let s = self.fresh_iv(l, h); let rem = rest.add(&s.lin, Rat::int(-kk))?; let c1 = self.nonneg(&rem, false); self.require(c1); let x = Lin::con(Rat::int(kk - 1)).add(&rem, Rat::int(-1))?; let c2 = self.nonneg(&x, false); self.require(c2);
        let q = qt.add(&s.lin, Rat::int(1))?; Some((self.mkiv(q, ql, qh), ()))
    }
    fn wrap(&mut self, lin: Option<Lin>, w: u32, lo: i128, hi: i128) -> Iv {
        let m = 1i128 << w; match lin { None => self.fresh_iv(0, m - 1), Some(l) => { if lo >= 0 && hi < m { return self.mkiv(l, lo, hi); }
            let (ql, qh) = (lo.div_euclid(m), hi.div_euclid(m)); if ql == qh { return match l.add(&Lin::con(Rat::int(m)), Rat::int(-ql)) { Some(x) => self.mkiv(x, lo - ql * m, hi - ql * m), None => self.fresh_iv(0, m - 1) }; }
            let q = self.fresh_iv(ql, qh); match l.add(&q.lin, Rat::int(-m)) { Some(r) => { let c1 = self.nonneg(&r, false); self.require(c1); if let Some(x) = Lin::con(Rat::int(m - 1)).add(&r, Rat::int(-1)) { let c2 = self.nonneg(&x, false); self.require(c2); } Iv { lin: r, lo: 0, hi: m - 1 } } None => self.fresh_iv(0, m - 1) } } }
    }
    pub fn int(&mut self, e: E) -> Iv { if let Some(r) = self.iv.get(&e) { return r.clone(); } let f0 = self.fresh; let r = self.int_(e); if self.fresh > f0 && matches!(r.lin.t.as_slice(), [(a, _)] if *a as usize + 1 == self.at.len()) && std::env::var("VPDBG").is_ok() { let t = self.x.show(e, 6); self.fresh_log.push(t); } self.iv.insert(e, r.clone()); r }
    fn int_(&mut self, e: E) -> Iv {
        let n = self.x.n[e as usize]; let w = n.w as u32; let top = if w >= 120 { i128::MAX / 8 } else { (1i128 << w) - 1 };
        if w > 100 && !matches!(n.op, Op::ZExt | Op::Const | Op::Extract) && !(matches!(n.op, Op::Mul | Op::Add | Op::LShr | Op::Concat | Op::UDiv)) { return self.fresh_iv(0, top); }
        match n.op {
            Op::Const => { let v = self.x.is_const(e).unwrap(); if v > i128::MAX as u128 / 16 { return self.fresh_iv(0, top); } let v = v as i128; Iv { lin: Lin::con(Rat::int(v)), lo: v, hi: v } }
            Op::Var => { let v = n.k as u32; let d = *self.dom.get(&v).unwrap_or(&FULL); let (lo, hi) = (dom_first(&d).unwrap_or(0), dom_last(&d).unwrap_or(255)); let a = if let Some(&a) = self.va.get(&v) { a } else { let a = self.atom(true, lo as f64, hi as f64, true); self.va.insert(v, a);
                    if dom_count(&d) != (hi - lo) as u32 + 1 { let z = self.at[a as usize].z; let mut ors = vec![]; let mut i = 0i32; while i < 256 { if dom_has(&d, i as u8) { let st = i; while i < 256 && dom_has(&d, i as u8) { i += 1; } let (l, h) = (self.o.rat(st as i128, 1, true), self.o.rat((i - 1) as i128, 1, true)); ors.push(self.o.and(&[self.o.ge(z, l), self.o.ge(h, z)])); } else { i += 1; } } let p = self.o.or(&ors); self.side.push(p); } a };
                Iv { lin: Lin::atom(a), lo: lo as i128, hi: hi as i128 } }
            _ if w == 1 && !matches!(n.op, Op::Extract) => { match self.boolean(e) { Some(B::T) => Iv { lin: Lin::con(Rat::int(1)), lo: 1, hi: 1 }, Some(B::F) => Iv { lin: Lin::con(Rat::int(0)), lo: 0, hi: 0 }, Some(B::Z(p)) => { let v = self.fresh_iv(0, 1); let z = self.zlin(&v.lin, true); let one = self.o.rat(1, 1, true); let q = self.o.eq(z, one); let f = self.o.eq(q, p); self.side.push(f); v } None => self.fresh_iv(0, 1) } }
            Op::Add => { let (a, b) = (self.int(n.a), self.int(n.b)); let l = a.lin.add(&b.lin, Rat::int(1)); self.wrap(l, w.min(118), a.lo + b.lo, a.hi + b.hi) }
            Op::Sub => { let (a, b) = (self.int(n.a), self.int(n.b)); let l = a.lin.add(&b.lin, Rat::int(-1)); self.wrap(l, w.min(118), a.lo - b.hi, a.hi - b.lo) }
            Op::Mul => { let (mut a, mut b) = (self.int(n.a), self.int(n.b)); if a.lin.t.is_empty() { std::mem::swap(&mut a, &mut b); } 
                let hi = a.hi.checked_mul(b.hi); match hi { Some(h) if b.lin.t.is_empty() && b.lin.c.is_int() && h < (1i128 << 118) => { let k = b.lin.c.n; 
                        // multiplication by a constant seen as negative number: k - 2^w
                        if w <= 64 && k > (1i128 << (w - 1)) && a.hi < (1i128 << 40) { let k2 = k - (1i128 << w); let l = a.lin.scale(Rat::int(k2)); return self.wrap(l, w, a.hi * k2, a.lo * k2); }
                        let l = a.lin.scale(Rat::int(k)); self.wrap(l, w.min(118), a.lo * k, h) } Some(h) if h <= top => { let l = a.lo * b.lo; self.fresh_iv(l, h) } _ => self.fresh_iv(0, top) } }
            Op::UDiv | Op::URem => { let a = self.int(n.a); match self.x.is_const(n.b) { Some(k) if k > 0 && k < 1 << 100 => { let (q, r) = self.divmod(n.a, &a, k); if n.op == Op::UDiv { q } else { r } } _ => { let b = self.int(n.b); let hi = if n.op == Op::UDiv { a.hi } else { (b.hi - 1).max(a.hi.min(b.hi)) }; let hi = if b.lo == 0 { top } else { hi.min(a.hi) }; self.fresh_iv(0, hi) } } }
            Op::SDiv | Op::SRem => { let a = self.int(n.a); match self.x.is_const(n.b) { Some(k) if k > 0 && w < 100 && k < (1u128 << (w - 1)) && a.hi < (1i128 << (w - 1)) => { let (q, r) = self.divmod(n.a, &a, k); if n.op == Op::SDiv { q } else { r } } _ => self.fresh_iv(0, top) } }
            Op::And => { let (a, b) = (self.int(n.a), self.int(n.b)); if let Some(m) = self.x.is_const(n.b) { // contiguous mask of high bits: a - a mod 2^t
                    let t = m.trailing_zeros(); if t > 0 && t < 100 && w < 118 && m == (((1u128 << w) - 1) >> t) << t { let (q, _) = self.divmod(n.a, &a, 1u128 << t); if let Some(l) = q.lin.scale(Rat::int(1i128 << t)) { return self.mkiv(l, q.lo << t, q.hi << t); } } }
                let h = a.hi.min(b.hi); self.fresh_iv(0, h) }
            Op::Or => { let (a, b) = (self.int(n.a), self.int(n.b)); for (x, y, ye) in [(&a, &b, n.b), (&b, &a, n.a)] { if let Some(m) = self.x.is_const(ye) { if m > 0 && x.hi < 1i128 << m.trailing_zeros().min(100) { if let Some(l) = x.lin.add(&y.lin, Rat::int(1)) { return self.mkiv(l, x.lo + y.lo, x.hi + y.hi); } } } } let bits = 128 - (a.hi | b.hi).leading_zeros(); self.fresh_iv(a.lo.max(b.lo), ((1i128 << bits) - 1).min(top)) }
            Op::Xor => { if let Some(m) = self.x.is_const(n.b) { let a = self.int(n.a); if m as i128 == top { let l = Lin::con(Rat::int(top)).add(&a.lin, Rat::int(-1)); return self.wrap(l, w.min(118), top - a.hi, top - a.lo); }
                    if w < 100 && m == 1u128 << (w - 1) { let h = 1i128 << (w - 1); if a.hi < h { let l = a.lin.add(&Lin::con(Rat::int(h)), Rat::int(1)); return self.wrap(l, w, a.lo + h, a.hi + h); } } }
                self.fresh_iv(0, top) }
            Op::LShr => { let a = self.int(n.a); match self.x.is_const(n.b) { Some(k) if k < 100 => self.divmod(n.a, &a, 1u128 << k).0, _ => { let h = a.hi; self.fresh_iv(0, h) } } }
            Op::Concat => { let (a, b) = (self.int(n.a), self.int(n.b)); let k = n.k as u32; if k > 100 || a.hi.checked_shl(k).is_none() || (a.hi as f64) * 2f64.powi(k as i32) > 1e36 { return self.fresh_iv(0, top); } match a.lin.scale(Rat::int(1i128 << k)).and_then(|l| l.add(&b.lin, Rat::int(1))) { Some(l) => self.mkiv(l, (a.lo << k) + b.lo, (a.hi << k) + b.hi), None => self.fresh_iv((a.lo << k) + b.lo, (a.hi << k) + b.hi) } }
            Op::Extract => {
                if n.k == 63 && w == 1 && self.x.w(n.a) == 64 && self.is_fp(n.a) { if let Some(f) = self.fp(n.a) { if f.lo > 0.0 { return Iv { lin: Lin::con(Rat::int(0)), lo: 0, hi: 0 }; } if f.hi < 0.0 { return Iv { lin: Lin::con(Rat::int(1)), lo: 1, hi: 1 }; }
                    let s = self.fresh_iv(0, 1); let z = self.zlin(&s.lin, true); let one = self.o.rat(1, 1, true); let is1 = self.o.eq(z, one); let neg = self.nonneg(&f.lin.scale(Rat::int(-1)).unwrap_or_default(), true); let pos = self.nonneg(&f.lin, true); let (nz, pz) = (self.bz(neg), self.bz(pos)); let n1 = self.o.implies(nz, is1); let n0 = self.o.implies(pz, self.o.not(is1)); self.side.push(n1); self.side.push(n0); return s; } return self.fresh_iv(0, 1); }
                let a = self.int(n.a); let (q, _) = if n.k == 0 { (a, Iv { lin: Lin::default(), lo: 0, hi: 0 }) } else { if n.k > 100 { return self.fresh_iv(0, top); } self.divmod(n.a, &a, 1u128 << n.k) };
                if q.hi <= top { return q; } if w > 100 { return self.fresh_iv(0, top); }
                // second step keyed on a pseudo-term: no caching across different shifts
                let kk = 1i128 << w; let (ql, qh) = (q.lo.div_euclid(kk), q.hi.div_euclid(kk)); let l = q.lin.clone(); let mut qq = l.clone(); qq.t.retain(|(_, r)| !(r.is_int() && r.n % kk == 0)); if qq.c.is_int() { qq.c = Rat::int(qq.c.n.rem_euclid(kk)); } let (bl, bh) = self.bounds(&qq); if bl >= 0.0 && bh <= top as f64 && bh < P53 { return self.mkiv(qq, 0, top); } let _ = (ql, qh); self.wrap(Some(l), w, q.lo, q.hi) }
            Op::ZExt => self.int(n.a),
            Op::SExt => { let ow = self.x.w(n.a); let s = self.sint(n.a); let _ = ow; if s.lo >= 0 { return s; } let l = Some(s.lin.clone()); self.wrap(l, w.min(118), s.lo, s.hi) }
            Op::Ite => { let c = self.boolean(n.a); let (a, b) = (self.int(n.b), self.int(n.c)); match c { Some(B::T) => a, Some(B::F) => b, c => { let v = self.fresh_iv(a.lo.min(b.lo), a.hi.max(b.hi)); let c = match c { Some(B::Z(p)) => p, _ => self.o.fresh_bool() }; for (s, o) in [(true, &a), (false, &b)] { if let Some(d) = v.lin.add(&o.lin, Rat::int(-1)) { let z = self.bz(self.iszero(&d)); let g = if s { c } else { self.o.not(c) }; let f = self.o.implies(g, z); self.side.push(f); } } v } } }
            Op::FpToSi | Op::FpToUi => { match self.fp(n.a) { Some(_) => { match self.rint(n.a, 2) { Some(t) => { let (lo, hi) = (sat(t.lo.floor()), sat(t.hi.ceil())); let m = if w >= 118 { return self.fresh_iv(0, top) } else { 1i128 << w }; if lo >= 0 { if hi < m { self.mkiv(t.lin, lo, hi) } else { self.fresh_iv(0, top) } } else if n.op == Op::FpToSi && lo >= -(m / 2) && hi < m / 2 { let l = Some(t.lin.clone()); self.wrap(l, w, lo, hi) } else { self.fresh_iv(0, top) } } None => self.fresh_iv(0, top) } } None => self.fresh_iv(0, top) } }
            _ => self.fresh_iv(0, top),
        }
    }
    /// signed value
    fn sint(&mut self, e: E) -> Iv { if let Some(r) = self.sg.get(&e) { return r.clone(); } let w = self.x.w(e).min(118); let a = self.int(e); let h = 1i128 << (w - 1); let r = if a.hi < h { a } else if a.lo >= h { match a.lin.add(&Lin::con(Rat::int(2 * h)), Rat::int(-1)) { Some(l) => self.mkiv(l, a.lo - 2 * h, a.hi - 2 * h), None => self.fresh_iv(-h, h - 1) } } else {
            let s = self.fresh_iv(0, 1); match a.lin.add(&s.lin, Rat::int(-2 * h)) { Some(l) => { let ge = match l.add(&Lin::con(Rat::int(h)), Rat::int(1)) { Some(x) => self.nonneg(&x, false), None => B::T }; self.require(ge); let lt = match Lin::con(Rat::int(h - 1)).add(&l, Rat::int(-1)) { Some(x) => self.nonneg(&x, false), None => B::T }; self.require(lt); Iv { lin: l, lo: -h, hi: h - 1 } } None => self.fresh_iv(-h, h - 1) } };
        self.sg.insert(e, r.clone()); r }
    fn is_fp(&self, e: E) -> bool { matches!(self.x.n[e as usize].op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::SiToFp | Op::UiToFp | Op::FpExt | Op::FpTrunc | Op::FSqrt | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint) }
    pub fn fp(&mut self, e: E) -> Option<Fv> { if let Some(r) = self.fv.get(&e) { return r.clone(); } let r = self.fp_(e).filter(|f| f.lo.is_finite() && f.hi.is_finite() && f.lo > -1e200 && f.hi < 1e200); if let Some(f) = &r { if self.is_fp(e) && f.lo >= 0.0 && self.bounds(&f.lin).0 < 0.0 && self.clear(e) { let c = self.nonneg(&f.lin, false); self.require(c); } } self.fv.insert(e, r.clone()); r }
    fn opaque(&mut self, lo: f64, hi: f64) -> Fv { self.fresh += 1; let a = self.atom(false, lo, hi, true); Fv { lin: Lin::atom(a), lo, hi, grid: None } }
    /// value of an operation whose exact result is `l`; (lo,hi) bounds of the rounded result
    fn rounded(&mut self, l: Option<Lin>, lo: f64, hi: f64, grid: Option<i32>, exact: bool, single: bool) -> Fv {
        let l = match l { Some(l) => l, None => return self.opaque(lo, hi) };
        let (bl, bh) = self.bounds(&l); let m = bl.abs().max(bh.abs()).min(lo.abs().max(hi.abs()) * 1.001);
        let prec = if single { 24 } else { 53 };
        let ex = exact || grid.map_or(false, |g| m <= 2f64.powi(prec + g));
        if ex || m == 0.0 { return Fv { lin: l, lo: lo.max(dn(bl)), hi: hi.min(up(bh)), grid }; }
        let p = (m * 1.01).log2().ceil() as i32 - prec; let k = Rat::pow2(p.max(-119));
        let a = self.atom(false, -1.0, 1.0, true);
        match l.add(&Lin::atom(a), k) { Some(l2) => { let err = k.f(); // keep the rounding-monotone bounds known to the solver
                let f = Fv { lin: l2, lo: lo.max(dn(bl - err)), hi: hi.min(up(bh + err)), grid: None };
                if lo == 0.0 && bl - err < 0.0 { let c = self.nonneg(&f.lin, false); self.require(c); } if hi == 0.0 && bh + err > 0.0 { if let Some(x) = f.lin.scale(Rat::int(-1)) { let c = self.nonneg(&x, false); self.require(c); } }
                f } None => self.opaque(lo, hi) }
    }
    fn fneg(f: Fv) -> Option<Fv> { Some(Fv { lin: f.lin.scale(Rat::int(-1))?, lo: -f.hi, hi: -f.lo, grid: f.grid }) }
    fn fabs(&mut self, f: Fv) -> Option<Fv> { if f.lo >= 0.0 { return Some(f); } if f.hi <= 0.0 { return Self::fneg(f); } let h = f.hi.max(-f.lo); let v = self.opaque(0.0, h); let pos = self.bz(self.nonneg(&f.lin, false)); let d1 = self.bz(self.iszero(&v.lin.add(&f.lin, Rat::int(-1))?)); let d2 = self.bz(self.iszero(&v.lin.add(&f.lin, Rat::int(1))?)); let a = self.o.implies(pos, d1); let b = self.o.implies(self.o.not(pos), d2); self.side.push(a); self.side.push(b); Some(Fv { grid: f.grid, ..v }) }
    fn fite(&mut self, c: Option<B>, a: Fv, b: Fv) -> Option<Fv> { match c { Some(B::T) => Some(a), Some(B::F) => Some(b), c => { let c = match c { Some(B::Z(p)) => p, _ => self.o.fresh_bool() }; let v = self.opaque(a.lo.min(b.lo), a.hi.max(b.hi)); for (s, o) in [(true, &a), (false, &b)] { let z = self.bz(self.iszero(&v.lin.add(&o.lin, Rat::int(-1))?)); let g = if s { c } else { self.o.not(c) }; let f = self.o.implies(g, z); self.side.push(f); } let grid = match (a.grid, b.grid) { (Some(x), Some(y)) => Some(x.min(y)), _ => None }; Some(Fv { grid, ..v }) } } }
    fn fp_(&mut self, e: E) -> Option<Fv> {
        let n = self.x.n[e as usize]; let w = n.w as u32; let single = w == 32;
        match n.op {
            Op::Const => { let v = self.x.is_const(e).unwrap(); let f = if single { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }; if !f.is_finite() { return None; } let r = match Rat::of_f64(f) { Some(r) => r, None => return Some(self.opaque(f, f)) }; let g = if f == 0.0 { 60 } else { -(r.d.trailing_zeros() as i32) + if r.d == 1 { r.n.trailing_zeros() as i32 } else { 0 } }; Some(Fv { lin: Lin::con(r), lo: f, hi: f, grid: Some(g) }) }
            Op::SiToFp | Op::UiToFp => { let a = if n.op == Op::SiToFp { self.sint(n.a) } else { self.int(n.a) }; let (lo, hi) = (a.lo as f64, a.hi as f64); Some(self.rounded(Some(a.lin), lo, hi, Some(0), false, single)) }
            Op::FAdd | Op::FSub => { let (a, b) = (self.fp(n.a)?, self.fp(n.b)?); let sub = n.op == Op::FSub; let l = a.lin.add(&b.lin, Rat::int(if sub { -1 } else { 1 })); let (lo, hi) = if sub { (a.lo - b.hi, a.hi - b.lo) } else { (a.lo + b.lo, a.hi + b.hi) };
                let grid = match (a.grid, b.grid) { (Some(x), Some(y)) => Some(x.min(y)), _ => None };
                let nb = self.x.n[n.b as usize]; let frac = sub && !single && ((matches!(nb.op, Op::FTrunc) && nb.a == n.a) || (nb.op == Op::FFloor && nb.a == n.a && a.lo >= 0.0) || (matches!(nb.op, Op::SiToFp | Op::UiToFp) && { let nn = self.x.n[nb.a as usize]; matches!(nn.op, Op::FpToSi | Op::FpToUi) && nn.a == n.a && a.lo >= 0.0 && a.hi < P53 }));
                let (lo, hi) = if frac && a.lo >= 0.0 { (lo.max(0.0), hi.min(1.0)) } else { (lo, hi) };
                Some(self.rounded(l, lo, hi, grid, frac, single)) }
            Op::FMul => { let (mut a, mut b) = (self.fp(n.a)?, self.fp(n.b)?); if a.lin.t.is_empty() { std::mem::swap(&mut a, &mut b); } let ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]; let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min); let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                if !b.lin.t.is_empty() { return Some(self.opaque(lo, hi)); } let k = b.lin.c; let p2 = k.n.unsigned_abs().is_power_of_two() && (k.d as u128).is_power_of_two(); let grid = match (a.grid, b.grid) { (Some(x), Some(y)) => Some(x + y), _ => None }; let l = a.lin.scale(k); Some(self.rounded(l, lo, hi, grid, p2, single)) }
            Op::FDiv => { let (a, b) = (self.fp(n.a)?, self.fp(n.b)?); if b.lo <= 0.0 && b.hi >= 0.0 { return None; } let ps = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]; let lo = ps.iter().cloned().fold(f64::INFINITY, f64::min); let hi = ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                if !b.lin.t.is_empty() { return Some(self.opaque(lo, hi)); } let k = b.lin.c.inv()?; let p2 = k.n.unsigned_abs().is_power_of_two() && (k.d as u128).is_power_of_two(); let l = a.lin.scale(k); Some(self.rounded(l, lo, hi, None, p2, single)) }
            Op::FFloor => self.rint(n.a, 0), Op::FCeil => self.rint(n.a, 1), Op::FTrunc => self.rint(n.a, 2), Op::FRound | Op::FRint => self.rint(n.a, 3),
            Op::FpExt => self.fp(n.a), Op::FpTrunc => { let a = self.fp(n.a)?; if a.hi > 1e38 || a.lo < -1e38 { return None; } let (lo, hi) = (a.lo as f32 as f64, a.hi as f32 as f64); Some(self.rounded(Some(a.lin), lo, hi, a.grid, false, true)) }
            Op::FSqrt => { let a = self.fp(n.a)?; if a.lo < 0.0 { return None; } Some(self.opaque(a.lo.sqrt(), a.hi.sqrt())) }
            Op::Ite => { let c = self.boolean(n.a); if matches!(c, Some(B::T)) { return self.fp(n.b); } if matches!(c, Some(B::F)) { return self.fp(n.c); } let (a, b) = (self.fp(n.b)?, self.fp(n.c)?); self.fite(c, a, b) }
            Op::ZExt => { let m = self.x.n[n.a as usize]; if m.op == Op::Extract && m.k == 0 && m.w as u32 == w - 1 { let f = self.fp(m.a)?; return self.fabs(f); } None }
            Op::Xor => { if self.x.is_const(n.b) == Some(1u128 << (w - 1)) { let f = self.fp(n.a)?; return Self::fneg(f); } None }
            Op::Concat => { let (h, l) = (n.a, self.x.n[n.b as usize]); if n.k as u32 == w - 1 && l.op == Op::Extract && l.k == 0 { let f = self.fp(l.a)?; let nh = self.x.n[h as usize];
                    if nh.op == Op::Xor && self.x.is_const(nh.b) == Some(1) { let s = self.x.n[nh.a as usize]; if s.op == Op::Extract && s.k == (w - 1) as u64 && s.a == l.a { return Self::fneg(f); } }
                    let c = self.boolean(h); let a = self.fabs(f)?; let ng = Self::fneg(a.clone())?; return self.fite(c, ng, a); } None }
            Op::Or => { for (p, q) in [(n.a, n.b), (n.b, n.a)] { let (x, y) = (self.x.n[p as usize], self.x.n[q as usize]); if x.op == Op::ZExt && self.x.w(x.a) == w - 1 && y.op == Op::And && self.x.is_const(y.b) == Some(1u128 << (w - 1)) { let a = self.fp(p)?; let s = self.fp(y.a); let ng = Self::fneg(a.clone())?; let c = match s { Some(s) if s.lo > 0.0 => Some(B::F), Some(s) if s.hi < 0.0 => Some(B::T), Some(s) => { // sign of zero is free
                        let b = self.o.fresh_bool(); let neg = self.bz(self.nonneg(&s.lin.scale(Rat::int(-1))?, true)); let pos = self.bz(self.nonneg(&s.lin, true)); let f1 = self.o.implies(neg, b); let f2 = self.o.implies(pos, self.o.not(b)); self.side.push(f1); self.side.push(f2); Some(B::Z(b)) } None => None }; return self.fite(c, ng, a); } } None }
            _ => None,
        }
    }
    /// rounding to an integer: 0 floor, 1 ceil, 2 trunc, 3 nearest
    fn rint(&mut self, a: E, mode: u8) -> Option<Fv> { if let Some(r) = self.tr.get(&(a, mode)) { return r.clone(); } let r = self.rint_(a, mode); self.tr.insert((a, mode), r.clone()); r }
    fn rint_(&mut self, a: E, mode: u8) -> Option<Fv> {
        let f = self.fp(a)?; if f.lo.abs() >= P53 || f.hi.abs() >= P53 { return None; }
        let mode = if mode == 2 { if f.lo >= 0.0 { 0 } else if f.hi <= 0.0 { 1 } else { 2 } } else { mode };
        let (lo, hi) = match mode { 0 => (f.lo.floor(), f.hi.floor()), 1 => (f.lo.ceil(), f.hi.ceil()), 2 => (f.lo.trunc(), f.hi.trunc()), _ => (f.lo.round(), f.hi.round()) };
        let mut ip = Lin::con(Rat::int(0)); let mut rs = Lin::con(Rat::int(0)); for (t, r) in &f.lin.t { if r.is_int() && self.at[*t as usize].int { ip.t.push((*t, *r)); } else { rs.t.push((*t, *r)); } }
        // near-integer coefficients over integer atoms (products of rounded constants) are not split; constant part
        let c = f.lin.c; let ci = c.n.div_euclid(c.d); ip.c = Rat::int(ci); rs.c = c.add(Rat::int(-ci))?; if rs.c.f() > 0.5 && mode == 3 { ip.c = Rat::int(ci + 1); rs.c = rs.c.add(Rat::int(-1))?; }
        if rs.t.is_empty() && rs.c.zero() { return Some(Fv { lin: ip, lo, hi, grid: Some(0) }); }
        let (rl, rh) = self.bounds(&rs);
        let m = match mode { 0 => (rl.floor(), rh.floor()), 1 => (rl.ceil(), rh.ceil()), 2 => ((rl - 1.0).floor(), (rh + 1.0).ceil()), _ => { if rl > -0.5 && rh < 0.5 { (0.0, 0.0) } else { ((rl - 0.5).ceil(), (rh + 0.5).floor()) } } };
        if m.0 == m.1 && mode != 2 { let lin = ip.add(&Lin::con(Rat::int(m.0 as i128)), Rat::int(1))?; return Some(Fv { lin, lo, hi, grid: Some(0) }); }
        let at = self.atom(true, m.0, m.1, true); let ml = Lin::atom(at); let d = rs.add(&ml, Rat::int(-1))?; // rs - m
        let one = Lin::con(Rat::int(1));
        match mode { 0 => { let c1 = self.nonneg(&d, false); self.require(c1); let x = one.add(&d, Rat::int(-1))?; let c2 = self.nonneg(&x, true); self.require(c2); }
            1 => { let nd = d.scale(Rat::int(-1))?; let c1 = self.nonneg(&nd, false); self.require(c1); let x = one.add(&d, Rat::int(1))?; let c2 = self.nonneg(&x, true); self.require(c2); }
            2 => { let x = one.add(&d, Rat::int(-1))?; let c1 = self.nonneg(&x, true); self.require(c1); let y = one.add(&d, Rat::int(1))?; let c2 = self.nonneg(&y, true); self.require(c2); let pos = self.bz(self.nonneg(&f.lin, false)); let dge = self.bz(self.nonneg(&d, false)); let nd = d.scale(Rat::int(-1))?; let dle = self.bz(self.nonneg(&nd, false)); let a1 = self.o.implies(pos, dge); let a2 = self.o.implies(self.o.not(pos), dle); self.side.push(a1); self.side.push(a2); }
            _ => { let h = Lin::con(Rat { n: 1, d: 2 }); let x = h.add(&d, Rat::int(-1))?; let c1 = self.nonneg(&x, false); self.require(c1); let y = h.add(&d, Rat::int(1))?; let c2 = self.nonneg(&y, false); self.require(c2); } }
        let lin = ip.add(&ml, Rat::int(1))?; Some(Fv { lin, lo, hi, grid: Some(0) })
    }
    fn fplike(&self, e: E) -> bool { let n = self.x.n[e as usize]; self.is_fp(e) || match n.op { Op::Concat => { let l = self.x.n[n.b as usize]; n.k as u32 == n.w as u32 - 1 && l.op == Op::Extract && l.k == 0 && self.fplike(l.a) } Op::ZExt => { let l = self.x.n[n.a as usize]; l.op == Op::Extract && l.k == 0 && l.w == n.w - 1 && self.fplike(l.a) } Op::Xor => self.x.is_const(n.b) == Some(1u128 << (n.w - 1)) && self.fplike(n.a), Op::Ite => self.fplike(n.b) || self.fplike(n.c), Op::Or => true, _ => false } }
    /// the sign bit is clear whatever the rounding
    fn clear(&mut self, e: E) -> bool { let n = self.x.n[e as usize]; match n.op { Op::UiToFp => true, Op::SiToFp => self.sint(n.a).lo >= 0, Op::FAdd | Op::FMul | Op::FDiv => self.clear(n.a) && self.clear(n.b), Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FSqrt | Op::FpExt | Op::FpTrunc => self.clear(n.a), Op::ZExt => true, Op::Const => self.x.is_const(e).unwrap() >> (n.w - 1) & 1 == 0, Op::Ite => self.clear(n.b) && self.clear(n.c), _ => false } }
    /// negation of a value whose sign bit is clear
    fn negclear(&mut self, e: E) -> bool { let n = self.x.n[e as usize]; if n.op != Op::Concat { return false; } let l = self.x.n[n.b as usize]; let nh = self.x.n[n.a as usize]; n.k as u32 == n.w as u32 - 1 && l.op == Op::Extract && l.k == 0 && nh.op == Op::Xor && self.x.is_const(nh.b) == Some(1) && { let s = self.x.n[nh.a as usize]; s.op == Op::Extract && s.k == (n.w - 1) as u64 && s.a == l.a } && self.clear(l.a) }
    /// sign bit of a float (free for zero)
    fn fsign(&mut self, s: &Fv) -> Option<B> { if s.lo > 0.0 { return Some(B::F); } if s.hi < 0.0 { return Some(B::T); } let b = self.o.fresh_bool(); let neg = self.bz(self.nonneg(&s.lin.scale(Rat::int(-1))?, true)); let pos = self.bz(self.nonneg(&s.lin, true)); let f1 = self.o.implies(neg, b); let f2 = self.o.implies(pos, self.o.not(b)); self.side.push(f1); self.side.push(f2); Some(B::Z(b)) }
    /// None: not expressible (any value)
    fn boolean(&mut self, e: E) -> Option<B> { if let Some(r) = self.bo.get(&e) { return *r; } let r = self.boolean_(e); let r = match r { None => { self.fresh += 1; if std::env::var("VPDBG").is_ok() { let t = self.x.show(e, 6); self.fresh_log.push(format!("BOOL {t}")); } Some(B::Z(self.o.fresh_bool())) } r => r }; self.bo.insert(e, r); r }
    fn boolean_(&mut self, e: E) -> Option<B> {
        let n = self.x.n[e as usize]; let ow = if matches!(n.op, Op::Const | Op::Var) { 0 } else { self.x.w(n.a) };
        Some(match n.op {
            Op::Const => if n.k & 1 == 1 { B::T } else { B::F },
            Op::And | Op::Or | Op::Xor => { let (a, b) = (self.boolean(n.a)?, self.boolean(n.b)?); match n.op { Op::And => self.and(a, b), Op::Or => self.or(a, b), _ => match (a, b) { (B::T, x) | (x, B::T) => self.not(x), (B::F, x) | (x, B::F) => x, (B::Z(p), B::Z(q)) => B::Z(self.o.not(self.o.eq(p, q))) } } }
            Op::Ite => { let (c, a, b) = (self.boolean(n.a)?, self.boolean(n.b)?, self.boolean(n.c)?); match c { B::T => a, B::F => b, c => { let p = self.and(c, a); let nc = self.not(c); let q = self.and(nc, b); self.or(p, q) } } }
            Op::Eq if ow == 1 => { let (a, b) = (self.boolean(n.a)?, self.boolean(n.b)?); match (a, b) { (B::T, x) | (x, B::T) => x, (B::F, x) | (x, B::F) => self.not(x), (B::Z(p), B::Z(q)) => B::Z(self.o.eq(p, q)) } }
            Op::Eq if self.is_fp(n.a) || self.is_fp(n.b) => { // equality of bit patterns implies equality of values
                let (a, b) = (self.fp(n.a)?, self.fp(n.b)?); match self.iszero(&a.lin.add(&b.lin, Rat::int(-1))?) { B::F => B::F, z => { let f = self.o.fresh_bool(); let z = self.bz(z); let i = self.o.implies(f, z); self.side.push(i); B::Z(f) } } }
            Op::Eq | Op::Ult | Op::Ule => { let (a, b) = (self.int(n.a), self.int(n.b)); let d = b.lin.add(&a.lin, Rat::int(-1))?; if a.hi < b.lo { return Some(if n.op == Op::Eq { B::F } else { B::T }); } if a.lo > b.hi { return Some(B::F); } match n.op { Op::Eq => self.iszero(&d), Op::Ult => self.nonneg(&d, true), _ => self.nonneg(&d, false) } }
            Op::Slt | Op::Sle if (ow == 64 || ow == 32) && (self.fplike(n.a) || self.fplike(n.b)) => { // sign-bit tests on a float's bits
                let m1 = (1u128 << ow) - 1; let (ca, cb) = (self.x.is_const(n.a), self.x.is_const(n.b)); let (f, neg) = match (n.op, ca, cb) { (Op::Slt, Some(k), _) if k == m1 => (n.b, false), (Op::Sle, Some(0), _) => (n.b, false), (Op::Slt, _, Some(0)) => (n.a, true), (Op::Sle, _, Some(k)) if k == m1 => (n.a, true), _ => return None }; let b = if self.clear(f) { B::F } else if self.negclear(f) { B::T } else { let v = self.fp(f)?; self.fsign(&v)? }; if neg { b } else { self.not(b) } }
            Op::Slt | Op::Sle => { let (a, b) = (self.sint(n.a), self.sint(n.b)); let d = b.lin.add(&a.lin, Rat::int(-1))?; self.nonneg(&d, n.op == Op::Slt) }
            Op::FEq | Op::FLt | Op::FLe => { let (a, b) = (self.fp(n.a)?, self.fp(n.b)?); let d = b.lin.add(&a.lin, Rat::int(-1))?; match n.op { Op::FEq => { if a.hi < b.lo || b.hi < a.lo { B::F } else { self.iszero(&d) } } Op::FLt => if a.hi < b.lo { B::T } else if a.lo >= b.hi { B::F } else { self.nonneg(&d, true) }, _ => if a.hi <= b.lo { B::T } else if a.lo > b.hi { B::F } else { self.nonneg(&d, false) } } }
            Op::Extract if n.w == 1 => { let a = self.int(e); let z = a.lin.add(&Lin::con(Rat::int(1)), Rat::int(-1))?; self.iszero(&z) }
            _ => return None,
        })
    }
    pub fn decide(&mut self, conj: &[E], vars: &[u32]) -> ArRes {
        let mut cs = vec![];
        for &e in conj { match self.boolean(e) { Some(B::F) => return ArRes::Unsat, Some(B::T) | None => {} Some(B::Z(p)) => cs.push(p) } }
        cs.extend_from_slice(&self.side);
        match self.o.solve(&cs) { -1 => ArRes::Unsat, 1 => { let mut out = vec![]; for &v in vars { if let Some(&a) = self.va.get(&v) { if let Some(k) = self.o.value(self.at[a as usize].z) { out.push((v, k as u8)); } } } if std::env::var("VPDBG").is_ok() { let av: Vec<f64> = self.at.iter().map(|a| self.o.value_f(a.z)).collect(); let ev = |l: &Lin| l.t.iter().map(|(a, r)| r.f() * av[*a as usize]).sum::<f64>() + l.c.f(); let mut o: Vec<(E, f64)> = self.iv.iter().map(|(e, i)| (*e, ev(&i.lin))).collect(); for (e, f) in &self.fv { if let Some(f) = f { o.push((*e, ev(&f.lin))); } } for (e, b) in &self.bo { if let Some(B::Z(p)) = b { o.push((*e, if self.o.truth(*p) { 1.0 } else { 0.0 })); } } self.model_log = o; } self.o.done(); ArRes::Model(out) } _ => ArRes::Unknown }
    }
}
