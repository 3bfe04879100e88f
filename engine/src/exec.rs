//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub fidx: usize, pub blk: u32, pub ip: u32, pub regs: Vec<V>, pub ret: u32, pub sp: u64 }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>, pub mem: Mem, pub sp: u64, pub heap: u64,
    pub dom: Rc<Vec<Dom>>, pub nvars: u32, pub multi: u128, pub single: u128, pub cons: Rc<Vec<E>>,
    pub model: Rc<Vec<u8>>, pub model_id: u64, pub steps: u64, pub forks: u32,
    pub files: Rc<Vec<(Vec<u8>, u64, u64)>>, pub fds: Rc<Vec<(usize, u64)>>,
    pub notes: Rc<Vec<(u64, Vec<V>)>>, pub allowed_panic: bool, pub hash_mode: u64,
}

#[derive(Debug, Clone)]
pub struct Violation { pub kind: String, pub msg: String, pub loc: String, pub trace: Vec<String>, pub input: Vec<u8>, pub notes: Vec<String> }

#[derive(Debug)]
pub enum End { Done, Assumed, Violated, Incomplete(String) }

#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub done: u64, pub assumed: u64, pub violated: u64, pub instrs: u64, pub forks: u64, pub dom_decided: u64, pub iv_decided: u64, pub z3_calls: u64, pub z3_time: f64, pub z3_sat: u64, pub z3_unsat: u64, pub asserts: u64, pub assert_z3: u64, pub assert_struct: u64, pub max_forks: u32, pub max_path_instrs: u64, pub cache_hits: u64 }

pub struct Cfg { pub max_steps: u64, pub max_paths: u64, pub deadline: Instant, pub max_viol: usize, pub trace: bool, pub profile: bool, pub dbg_forks: bool }

pub struct Engine {
    pub m: Module, pub ex: Exprs, pub z3: Z3, pub work: Vec<State>, pub st: Stats, pub cfg: Cfg,
    pub violations: BTreeMap<String, (Violation, u64)>, pub incomplete: BTreeMap<String, u64>, pub covers: BTreeMap<u32, (u64, Vec<u8>)>, pub assert_ids: BTreeMap<u32, u64>,
    pub fexec: HashSet<usize>, next_model: u64, bks: Vec<Option<Bk>>, base: Mem, heap0: u64, tmp: Vec<V>, qcache: HashMap<Vec<u64>, Option<Vec<(u32, u8)>>>, pub fork_prof: HashMap<String, u64>, pub samples: Vec<String>, pub unk: u64, pub last_notes: Vec<String>, pub fixed_input: Vec<u8>, pub concrete: bool, intr_cache: HashMap<String, (String, Vec<(u32, u32, bool)>)>,
}

#[derive(Clone, Debug)]
pub enum Bk { Symbolic, Assert, Assume, Cover, Note, File, Conc, AllowPanic, Malloc, Calloc, Realloc, Free, Memalign, Memcpy, Memset, Memcmp(bool), Strlen, Panic, Abort, GetRandom, Syscall, Errno, Zero, Open, Read, Close, Lseek, Fstat, Stat, Realpath, Getcwd, Getenv, Write, CxaAtexit, TlsAddr,
    Intr(String, u32), Fmath(String, u32), Unknown(String), IgnoreUnit, KeyCreate, MemchrFwd, MemchrRev, Mmap, DebugState, Root, Statx, HashSet, HashGet }

impl Engine {
    pub fn new(m: Module, cfg: Cfg, rlimit: u32) -> Engine {
        let mut e = Engine { m, ex: Exprs::new(), z3: Z3::new(rlimit), work: vec![], st: Stats::default(), cfg, violations: BTreeMap::new(), incomplete: BTreeMap::new(), covers: BTreeMap::new(), assert_ids: BTreeMap::new(), fexec: HashSet::new(), next_model: 1, bks: vec![], base: Mem::default(), heap0: 0, tmp: vec![], qcache: HashMap::new(), fork_prof: HashMap::new(), samples: vec![], unk: 0, last_notes: vec![], fixed_input: vec![], concrete: false, intr_cache: HashMap::new() };
        let img = std::mem::take(&mut e.m.image);
        for (a, b) in &img { let _ = e.base.write(*a, b); }
        e.heap0 = (e.m.gend + 0x100000) & !0xfffff;
        // hooks on defined functions
        let mut hooks: Vec<(usize, String)> = vec![];
        for (i, f) in e.m.funcs.iter().enumerate() {
            let n = &f.name;
            if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") || n.contains("3std9panicking15panic_with_hook") || n.contains("5alloc5alloc18handle_alloc_error") || n.contains("4core9panicking16panic_in_cleanup") || n.contains("4core9panicking19panic_cannot_unwind") { hooks.push((i, "!panic".into())); }
            else if !f.is_decl && matches!(n.as_str(), "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen") { hooks.push((i, n.clone())); }
        }
        for (i, n) in hooks { let b = e.m.builtin(&n); e.m.funcs[i].hook = b + 1; }
        e
    }
    pub fn dummy() -> Engine { let m = Module { text: Rc::new(vec![]), types: Types::new(), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(), globals: HashMap::new(), aliases: HashMap::new(), image: vec![], gend: GLOBAL_BASE, builtins: vec![], bmap: HashMap::new(), ctors: vec![] }; Engine::new(m, Cfg { max_steps: 0, max_paths: 0, deadline: Instant::now(), max_viol: 0, trace: false, profile: false, dbg_forks: false }, 0) }
    pub fn init_state(&mut self, entry: &str) -> Option<State> {
        let idx = *self.m.fmap.get(entry)?;
        let f = self.m.func(idx);
        let regs = vec![V::C(0); f.nregs as usize];
        self.next_model += 1;
        Some(State { frames: vec![Rc::new(Frame { f, fidx: idx, blk: 0, ip: 0, regs, ret: u32::MAX, sp: 0x100000 })], mem: self.base.clone(), sp: 0x100000, heap: self.heap0, dom: Rc::new(vec![]), nvars: 0, multi: 0, single: 0, cons: Rc::new(vec![]), model: Rc::new(vec![]), model_id: self.next_model, steps: 0, forks: 0, files: Rc::new(vec![]), fds: Rc::new(vec![]), notes: Rc::new(vec![]), allowed_panic: false, hash_mode: 0 })
    }

    // ---------- constraints ----------
    fn eval(&mut self, st: &State, e: E) -> u128 { self.ex.eval(e, &st.model, st.model_id) }
    fn set_model(&mut self, st: &mut State, ch: &[(u32, u8)]) { let mut chg = false; for &(v, x) in ch { if st.model[v as usize] != x { chg = true; Rc::make_mut(&mut st.model)[v as usize] = x; } } if chg { self.next_model += 1; st.model_id = self.next_model; } }
    /// conjunction of the path's multi-variable constraints connected to `sup`
    fn slice(&self, st: &State, sup: u128) -> (Vec<E>, u128) {
        let mut vs = sup; let mut out: Vec<E> = vec![]; let mut used = vec![false; st.cons.len()];
        if vs & st.multi == 0 { return (out, vs); }
        loop { let mut ch = false; for (i, &c) in st.cons.iter().enumerate() { if !used[i] { let s = self.ex.sup[c as usize]; if s & vs & !st.single != 0 { used[i] = true; ch = true; out.push(c); vs |= s; } } } if !ch { break; } }
        (out, vs)
    }
    fn z3_query(&mut self, st: &State, extra: &[E]) -> Result<Option<Vec<(u32, u8)>>, String> {
        let mut sup = 0u128; for &e in extra { sup |= self.ex.sup[e as usize]; }
        let (mut conj, vs) = self.slice(st, sup);
        conj.extend_from_slice(extra);
        let vars: Vec<u32> = (0..128).filter(|i| vs >> i & 1 == 1).collect();
        let doms: Vec<(u32, Dom)> = vars.iter().map(|&v| (v, st.dom[v as usize])).collect();
        let mut key: Vec<u64> = conj.iter().map(|x| *x as u64).collect(); key.sort(); key.dedup(); key.push(u64::MAX);
        for (v, d) in &doms { key.push(*v as u64); key.extend_from_slice(d); }
        if let Some(r) = self.qcache.get(&key) { self.st.cache_hits += 1; return Ok(r.clone()); }
        let t = Instant::now();
        let r = self.z3.check(&mut self.ex, &conj, &doms, &vars, &st.model);
        let dt = t.elapsed().as_secs_f64();
        self.st.z3_calls += 1; self.st.z3_time += dt;
        if self.cfg.dbg_forks { let k = format!("Z3 {}", st.frames.iter().rev().take(3).map(|f| demangle(&f.f.name)).collect::<Vec<_>>().join(" <- ")); *self.fork_prof.entry(k.clone()).or_insert(0) += 1; *self.fork_prof.entry(format!("us {}", k)).or_insert(0) += (dt * 1e6) as u64; if self.st.z3_calls % 199 == 0 { eprintln!("q {:.4}s n={} {}", dt, conj.len(), self.ex.show(*extra.last().unwrap(), 7)); } }
        if dt > 1.0 && self.cfg.trace { eprintln!("slow query {:.1}s: {}", dt, self.ex.show(*extra.last().unwrap(), 6)); }
        let out = match r { Res::Sat(m) => { self.st.z3_sat += 1; Some(m) } Res::Unsat => { self.st.z3_unsat += 1; None } Res::Unknown(w) => { self.unk += 1; return Err(format!("solver gave no answer ({})", w)); } };
        if self.qcache.len() > 100_000 { self.qcache.clear(); }
        self.qcache.insert(key, out.clone());
        Ok(out)
    }
    /// is cond satisfiable together with the path? Returns model changes.
    fn solve(&mut self, st: &State, cond: E) -> Result<Option<Vec<(u32, u8)>>, String> {
        if let Some(c) = self.ex.is_const(cond) { return Ok(if c == 1 { Some(vec![]) } else { None }); }
        let sup = self.ex.sup[cond as usize];
        if sup & !st.single == 0 { self.st.dom_decided += 1; return Ok(if self.eval(st, cond) == 1 { Some(vec![]) } else { None }); }
        let free = sup & !st.single;
        if sup.count_ones() == 1 {
            let v = sup.trailing_zeros();
            if let Some(t) = self.ex.table(cond) {
                let d = st.dom[v as usize]; let mut cand = None;
                for i in 0..256usize { if t[i] == 1 && dom_has(&d, i as u8) { cand = Some(i as u8); break; } }
                match cand { None => { self.st.dom_decided += 1; return Ok(None); } Some(c) => if st.multi >> v & 1 == 0 { self.st.dom_decided += 1; return Ok(Some(vec![(v, c)])); } }
            }
        }
        let _ = free;
        let mut memo = HashMap::new();
        let iv = self.ex.interval(cond, &st.dom, &mut memo);
        if iv.1 == 0 { self.st.iv_decided += 1; return Ok(None); }
        self.z3_query(st, &[cond])
    }
    /// add a constraint known to hold in the current model
    fn add(&mut self, st: &mut State, cond: E) {
        if self.ex.is_const(cond).is_some() { return; }
        let sup = self.ex.sup[cond as usize];
        if sup & !st.single == 0 { return; }
        let n = self.ex.n[cond as usize];
        if n.op == Op::And { self.add(st, n.a); self.add(st, n.b); return; }
        if sup.count_ones() == 1 {
            let v = sup.trailing_zeros() as usize;
            if let Some(t) = self.ex.table(cond) { let mut d: Dom = [0; 4]; for i in 0..256 { if t[i] == 1 { d[i >> 6] |= 1 << (i & 63); } } let nd = dom_and(&d, &st.dom[v]); if nd != st.dom[v] { Rc::make_mut(&mut st.dom)[v] = nd; if dom_count(&nd) == 1 { st.single |= 1 << v; } } return; }
        }
        if !st.cons.contains(&cond) { Rc::make_mut(&mut st.cons).push(cond); st.multi |= sup; }
    }
    /// constrain to cond; false if infeasible
    pub fn assume(&mut self, st: &mut State, cond: E) -> Result<bool, String> {
        if self.eval(st, cond) != 1 { match self.solve(st, cond)? { None => return Ok(false), Some(m) => self.set_model(st, &m) } }
        self.add(st, cond); Ok(true)
    }
    /// all feasible values of a term (<=64 bit), at most `limit`
    fn values(&mut self, st: &State, e: E, limit: usize) -> Result<Vec<u64>, String> {
        let sup = self.ex.sup[e as usize];
        if sup & !st.single == 0 { return Ok(vec![self.eval(st, e) as u64]); }
        if sup.count_ones() == 1 { if let Some(t) = self.ex.table(e) {
            let v = sup.trailing_zeros(); let mut vals: Vec<u64> = vec![]; let d = st.dom[v as usize];
            for i in 0..256usize { if dom_has(&d, i as u8) && !vals.contains(&t[i]) { vals.push(t[i]); } }
            if st.multi >> v & 1 == 1 && vals.len() > 1 { let cur = self.eval(st, e) as u64; let w = self.ex.w(e); let mut out = vec![]; for x in vals { if x == cur { out.push(x); continue; } let k = self.ex.cst(x as u128, w); let c = self.ex.eq(e, k); if self.z3_query(st, &[c])?.is_some() { out.push(x); } } vals = out; } else { self.st.dom_decided += 1; }
            if vals.len() > limit { return Err(format!("more than {} values", limit)); }
            return Ok(vals);
        } }
        let w = self.ex.w(e);
        let cur = self.eval(st, e) as u64; let mut vals = vec![cur]; let mut extra: Vec<E> = vec![];
        let k = self.ex.cst(cur as u128, w); let c = self.ex.eq(e, k); let c = self.ex.not(c); extra.push(c);
        loop {
            match self.z3_query(st, &extra)? { None => return Ok(vals), Some(m) => {
                let mut mm = (*st.model).clone(); for (v, x) in m { mm[v as usize] = x; }
                self.next_model += 1; let id = self.next_model; let v = self.ex.eval(e, &mm, id) as u64;
                vals.push(v); if vals.len() > limit { return Err(format!("more than {} values of {}", limit, self.ex.show(e, 5))); }
                let k = self.ex.cst(v as u128, w); let c = self.ex.eq(e, k); let c = self.ex.not(c); extra.push(c);
            } }
        }
    }

    // ---------- helpers ----------
    #[inline]
    fn rd(fr: &Frame, o: &Opnd) -> V { match o { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::C(x) => V::C(*x), Opnd::K(v) => v.clone() } }
    fn exof(&mut self, v: &V, w: u32) -> E { match v { V::C(x) => self.ex.cst(*x as u128, w), V::W(x) => self.ex.cst(**x, w), V::S(e) => *e, V::A(vs) => { // vector bits: lane 0 lowest
            let n = vs.len() as u32; let lw = w / n; let mut e: Option<E> = None; for x in vs.iter().rev() { let b = self.exof(x, lw); e = Some(match e { None => b, Some(h) => self.ex.concat(h, b) }); } e.unwrap() } } }
    fn c128(v: &V) -> Option<u128> { match v { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
    fn mkv(x: u128, w: u32) -> V { let x = mask128(x, w); if w <= 64 { V::C(x as u64) } else { V::W(Rc::new(x)) } }
    fn fv(&self, e: E) -> V { from_e(&self.ex, e) }

    fn bin1(&mut self, op: Bop, w: u32, a: &V, b: &V) -> Result<V, String> {
        if let (V::C(x), V::C(y)) = (a, b) { let (x, y) = (*x, *y);
            let r = match op { Bop::Add => x.wrapping_add(y), Bop::Sub => x.wrapping_sub(y), Bop::Mul => x.wrapping_mul(y), Bop::And => x & y, Bop::Or => x | y, Bop::Xor => x ^ y, Bop::Shl => if y >= 64 { 0 } else { x << y }, Bop::LShr => if y >= 64 { 0 } else { x >> y },
                Bop::AShr => (sext64(x, w) >> y.min(63)) as u64, Bop::UDiv => if y == 0 { return Err("division by zero".into()) } else { x / y }, Bop::URem => if y == 0 { return Err("division by zero".into()) } else { x % y },
                Bop::SDiv => if y == 0 { return Err("division by zero".into()) } else { sext64(x, w).wrapping_div(sext64(y, w)) as u64 }, Bop::SRem => if y == 0 { return Err("division by zero".into()) } else { sext64(x, w).wrapping_rem(sext64(y, w)) as u64 },
                _ => return Ok(Self::fop(op, w, x, y)) };
            return Ok(V::C(mask64(r, w))); }
        let o = match op { Bop::Add => Op::Add, Bop::Sub => Op::Sub, Bop::Mul => Op::Mul, Bop::UDiv => Op::UDiv, Bop::SDiv => Op::SDiv, Bop::URem => Op::URem, Bop::SRem => Op::SRem, Bop::And => Op::And, Bop::Or => Op::Or, Bop::Xor => Op::Xor, Bop::Shl => Op::Shl, Bop::LShr => Op::LShr, Bop::AShr => Op::AShr, Bop::FAdd => Op::FAdd, Bop::FSub => Op::FSub, Bop::FMul => Op::FMul, Bop::FDiv => Op::FDiv, Bop::FRem => return Err("symbolic frem".into()) };
        if let (Some(x), Some(y)) = (Self::c128(a), Self::c128(b)) { return Ok(Self::mkv(apply(o, w as u16, w as u16, 0, x, y, 0), w)); }
        let (ea, eb) = (self.exof(a, w), self.exof(b, w));
        let e = if matches!(op, Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv) { self.ex.fbin(o, ea, eb) } else { self.ex.bin(o, ea, eb) };
        Ok(self.fv(e))
    }
    fn fop(op: Bop, w: u32, x: u64, y: u64) -> V { if w == 64 { let (a, b) = (f64::from_bits(x), f64::from_bits(y)); V::C((match op { Bop::FAdd => a + b, Bop::FSub => a - b, Bop::FMul => a * b, Bop::FDiv => a / b, _ => a % b }).to_bits()) } else { let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); V::C((match op { Bop::FAdd => a + b, Bop::FSub => a - b, Bop::FMul => a * b, Bop::FDiv => a / b, _ => a % b }).to_bits() as u64) } }
    fn icmp1(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { let (x, y) = (*x, *y); let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sext64(x, w) > sext64(y, w), Pred::Sge => sext64(x, w) >= sext64(y, w), Pred::Slt => sext64(x, w) < sext64(y, w), Pred::Sle => sext64(x, w) <= sext64(y, w) }; return V::C(r as u64); }
        let (a, b) = (self.exof(a, w), self.exof(b, w));
        let e = match p { Pred::Eq => self.ex.eq(a, b), Pred::Ne => { let e = self.ex.eq(a, b); self.ex.not(e) } Pred::Ugt => self.ex.cmp(Op::Ult, b, a), Pred::Uge => self.ex.cmp(Op::Ule, b, a), Pred::Ult => self.ex.cmp(Op::Ult, a, b), Pred::Ule => self.ex.cmp(Op::Ule, a, b), Pred::Sgt => self.ex.cmp(Op::Slt, b, a), Pred::Sge => self.ex.cmp(Op::Sle, b, a), Pred::Slt => self.ex.cmp(Op::Slt, a, b), Pred::Sle => self.ex.cmp(Op::Sle, a, b) };
        self.fv(e)
    }
    fn fcmp1(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { let (x, y) = if w == 64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) }; let un = x.is_nan() || y.is_nan();
            let r = match p { FPred::False => false, FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !un && x != y, FPred::Ord => !un, FPred::Uno => un, FPred::Ueq => un || x == y, FPred::Ugt => un || x > y, FPred::Uge => un || x >= y, FPred::Ult => un || x < y, FPred::Ule => un || x <= y, FPred::Une => x != y, FPred::True => true }; return V::C(r as u64); }
        let (a, b) = (self.exof(a, w), self.exof(b, w)); let x = &mut self.ex;
        let e = match p { FPred::False => x.cst(0, 1), FPred::True => x.cst(1, 1), FPred::Oeq => x.fcmp(Op::FEq, a, b), FPred::Ogt => x.fcmp(Op::FLt, b, a), FPred::Oge => x.fcmp(Op::FLe, b, a), FPred::Olt => x.fcmp(Op::FLt, a, b), FPred::Ole => x.fcmp(Op::FLe, a, b),
            FPred::Une => { let e = x.fcmp(Op::FEq, a, b); x.not(e) } FPred::Ugt => { let e = x.fcmp(Op::FLe, a, b); x.not(e) } FPred::Uge => { let e = x.fcmp(Op::FLt, a, b); x.not(e) } FPred::Ult => { let e = x.fcmp(Op::FLe, b, a); x.not(e) } FPred::Ule => { let e = x.fcmp(Op::FLt, b, a); x.not(e) }
            FPred::Ord | FPred::Uno => { let ea = x.fcmp(Op::FEq, a, a); let eb = x.fcmp(Op::FEq, b, b); let o = x.bin(Op::And, ea, eb); if p == FPred::Ord { o } else { x.not(o) } }
            FPred::One => { let l = x.fcmp(Op::FLt, a, b); let g = x.fcmp(Op::FLt, b, a); x.bin(Op::Or, l, g) } FPred::Ueq => { let l = x.fcmp(Op::FLt, a, b); let g = x.fcmp(Op::FLt, b, a); let o = x.bin(Op::Or, l, g); x.not(o) } };
        self.fv(e)
    }
    fn cast1(&mut self, op: Cast, fw: u32, tw: u32, a: &V) -> V {
        if let V::C(x) = a { let x = *x; if tw <= 64 { return V::C(match op { Cast::Trunc => mask64(x, tw), Cast::ZExt => x, Cast::SExt => mask64(sext64(x, fw) as u64, tw), Cast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64, Cast::FpExt => (f32::from_bits(x as u32) as f64).to_bits(), Cast::Bit => x,
            Cast::FpToUi => { let f = if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; mask64(f as u64, tw) } Cast::FpToSi => { let f = if fw == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 }; mask64(f as i64 as u64, tw) }
            Cast::UiToFp => if tw == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 }, Cast::SiToFp => { let s = sext64(x, fw); if tw == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } } }); } }
        let e = self.exof(a, fw); let x = &mut self.ex;
        let r = match op { Cast::Trunc => x.extract(e, tw - 1, 0), Cast::ZExt => x.zext(e, tw), Cast::SExt => x.sext(e, tw), Cast::Bit => e, Cast::FpTrunc => x.un(Op::FpTrunc, e, tw), Cast::FpExt => x.un(Op::FpExt, e, tw), Cast::FpToUi => x.un(Op::FpToUi, e, tw), Cast::FpToSi => x.un(Op::FpToSi, e, tw), Cast::UiToFp => x.un(Op::UiToFp, e, tw), Cast::SiToFp => x.un(Op::SiToFp, e, tw) };
        self.fv(r)
    }
    fn lane(v: &V, i: usize) -> V { match v { V::A(x) => x[i].clone(), _ => V::C(0) } }
    fn load_ty(&mut self, mem: &Mem, ty: TyId, a: u64) -> Result<V, Fault> {
        match self.m.types.tys[ty as usize].clone() {
            Ty::Struct(fs, _) => { let mut v = vec![]; for k in 0..fs.len() { let (o, t) = self.m.types.field(ty, k as u64); v.push(self.load_ty(mem, t, a + o)?); } Ok(V::A(Rc::new(v))) }
            Ty::Vec(n, e) if self.m.types.width(e) == 1 => { let x = mem.load(&mut self.ex, a, n as u32)?; Ok(self.split(&x, n as u32, 1)) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = self.m.types.size_align(e).0; let mut v = vec![]; for k in 0..n { v.push(self.load_ty(mem, e, a + k * s)?); } Ok(V::A(Rc::new(v))) }
            _ => { let w = self.m.types.width(ty); mem.load(&mut self.ex, a, w) }
        }
    }
    fn store_ty(&mut self, mem: &mut Mem, ty: TyId, a: u64, v: &V) -> Result<(), Fault> {
        match self.m.types.tys[ty as usize].clone() {
            Ty::Struct(fs, _) => { for k in 0..fs.len() { let (o, t) = self.m.types.field(ty, k as u64); let x = Self::lane(v, k); self.store_ty(mem, t, a + o, &x)?; } Ok(()) }
            Ty::Vec(n, e) if self.m.types.width(e) == 1 => { let x = self.exof(v, n as u32); let x = self.fv(x); mem.store(&mut self.ex, a, n as u32, &x) }
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = self.m.types.size_align(e).0; for k in 0..n { let x = Self::lane(v, k as usize); self.store_ty(mem, e, a + k * s, &x)?; } Ok(()) }
            _ => { let w = self.m.types.width(ty); mem.store(&mut self.ex, a, w, v) }
        }
    }
    fn split(&mut self, v: &V, n: u32, lw: u32) -> V { let mut out = vec![]; for k in 0..n { out.push(match v { V::C(x) => V::C(mask64(if k * lw >= 64 { 0 } else { x >> (k * lw) }, lw)), V::W(x) => Self::mkv(**x >> (k * lw), lw), V::S(e) => { let e2 = self.ex.extract(*e, k * lw + lw - 1, k * lw); self.fv(e2) } V::A(_) => unreachable!() }); } V::A(Rc::new(out)) }

    fn loc_of(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(40).map(|f| demangle(&f.f.name)).collect() }
    fn cstr_loc(&self, st: &State, p: u64) -> String { let mem = &st.mem; let (a, n) = (mem.load64(p, 8), mem.load64(p + 8, 8)); match (a, n) { (Some(a), Some(n)) if n < 4096 && a > 4096 => { let s: Vec<u8> = (0..n).map(|i| mem.get(a + i).0).collect(); let (l, c) = (mem.load64(p + 16, 4).unwrap_or(0), mem.load64(p + 20, 4).unwrap_or(0)); let f = String::from_utf8_lossy(&s).trim_end_matches('\0').to_string(); format!("{}:{}:{}", f, l, c) } _ => "?".into() } }

    fn violate(&mut self, st: &State, kind: &str, msg: String, loc: String) -> End {
        let trace = self.loc_of(st);
        // the model of the whole path condition, re-established by the solver
        let mut conj: Vec<E> = (*st.cons).clone(); conj.sort(); conj.dedup();
        let vars: Vec<u32> = (0..st.nvars).collect(); let doms: Vec<(u32, Dom)> = vars.iter().map(|&v| (v, st.dom[v as usize])).collect();
        let mut input = (*st.model).clone();
        let key = format!("{}|{}|{}", kind, msg, loc);
        if !self.violations.contains_key(&key) && !conj.iter().all(|&c| self.ex.eval(c, &st.model, st.model_id) == 1) {
            match self.z3.check(&mut self.ex, &conj, &doms, &vars, &st.model) { Res::Sat(m) => { self.st.z3_calls += 1; self.st.z3_sat += 1; for (v, x) in m { input[v as usize] = x; } // prefer the engine's own model if it satisfies everything
                    let ok = conj.iter().all(|&c| self.ex.eval(c, &st.model, st.model_id) == 1); if ok { input = (*st.model).clone(); } }
                Res::Unsat => { *self.incomplete.entry("internal: violating path unsatisfiable".into()).or_insert(0) += 1; return End::Incomplete("internal: path unsat".into()); }
                Res::Unknown(_) => {} }
        }
        let notes = self.render_notes(st);
        let ent = self.violations.entry(key).or_insert_with(|| (Violation { kind: kind.into(), msg, loc, trace, input, notes }, 0)); ent.1 += 1;
        End::Violated
    }
    pub fn render_notes(&mut self, st: &State) -> Vec<String> { let notes = st.notes.clone(); let mut out = vec![]; for (_, n) in notes.iter() { let b: Vec<u8> = n.iter().map(|v| match v { V::C(x) => *x as u8, V::S(e) => self.ex.eval(*e, &st.model, st.model_id) as u8, _ => b'?' }).collect(); out.push(String::from_utf8_lossy(&b).into_owned()); } out }

    // ---------- main loop ----------
    pub fn run(&mut self, mut on_tick: impl FnMut(&mut Engine) -> bool) {
        while let Some(mut s) = self.work.pop() {
            let r = self.exec(&mut s);
            self.st.paths += 1; self.st.max_forks = self.st.max_forks.max(s.forks); self.st.max_path_instrs = self.st.max_path_instrs.max(s.steps);
            match r { End::Done => { self.st.done += 1; if self.concrete { self.last_notes = self.render_notes(&s); } if self.samples.len() < 3 && (self.st.done < 3 || self.st.done % 97 == 0) { let v = format!("{:?} forks={} instrs={}", String::from_utf8_lossy(&s.model[..s.nvars as usize]), s.forks, s.steps); self.samples.push(v); } } End::Assumed => self.st.assumed += 1, End::Violated => self.st.violated += 1, End::Incomplete(w) => { *self.incomplete.entry(w).or_insert(0) += 1; } }
            if !on_tick(self) { break; }
        }
    }
    fn fork(&mut self, st: &State) -> State { self.st.forks += 1; let mut s = st.clone(); s.forks += 1; if self.cfg.dbg_forks { let f = st.frames.last().unwrap(); let k = format!("{} <- {}", demangle(&f.f.name), st.frames.iter().rev().skip(1).take(3).map(|f| demangle(&f.f.name)).collect::<Vec<_>>().join(" <- ")); *self.fork_prof.entry(k).or_insert(0) += 1; } s }

    fn take_edge(&mut self, fr: &mut Frame, e: &Edge) {
        match e.copies.len() { 0 => {} 1 => { let v = Self::rd(fr, &e.copies[0].1); fr.regs[e.copies[0].0 as usize] = v; }
            _ => { let mut tmp = std::mem::take(&mut self.tmp); tmp.clear(); for (_, o) in e.copies.iter() { tmp.push(Self::rd(fr, o)); } for ((d, _), v) in e.copies.iter().zip(tmp.drain(..)) { fr.regs[*d as usize] = v; } self.tmp = tmp; } }
        fr.blk = e.to; fr.ip = 0;
    }
    /// make operand concrete by forking over its feasible values. Ok(Some(v)) when already concrete.
    fn conc(&mut self, st: &mut State, o: &Opnd, limit: usize) -> Result<Option<u64>, String> {
        let v = Self::rd(st.frames.last().unwrap(), o);
        let e = match v { V::C(x) => return Ok(Some(x)), V::S(e) => e, _ => return Err("concretise aggregate".into()) };
        let r = match o { Opnd::R(r) => *r as usize, _ => return Err("const sym".into()) };
        let vals = self.values(st, e, limit)?;
        let w = self.ex.w(e);
        if vals.len() > 1 {
            let cur = self.eval(st, e) as u64;
            for &x in vals.iter() { if x == cur { continue; }
                let k = self.ex.cst(x as u128, w); let c = self.ex.eq(e, k);
                let mut s = self.fork(st);
                if !self.assume(&mut s, c)? { continue; }
                Rc::make_mut(s.frames.last_mut().unwrap()).regs[r] = V::C(x);
                self.work.push(s); }
            let k = self.ex.cst(cur as u128, w); let c = self.ex.eq(e, k); self.add(st, c);
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[r] = V::C(cur);
            return Ok(None);
        }
        Rc::make_mut(st.frames.last_mut().unwrap()).regs[r] = V::C(vals[0]);
        Ok(None)
    }

    fn exec(&mut self, st: &mut State) -> End {
        macro_rules! inc { ($e:expr) => { match $e { Ok(x) => x, Err(w) => { let l = self.loc_of(st); if self.cfg.trace { eprintln!("incomplete: {} at {:?}", w, &l[..l.len().min(6)]); } return End::Incomplete(format!("{} in {}", w, l.first().cloned().unwrap_or_default())); } } } }
        'outer: loop {
            if st.steps > self.cfg.max_steps { return self.violate(st, "hang", format!("no end after {} instructions", self.cfg.max_steps), String::new()); }
            if st.frames.len() > 6000 { return self.violate(st, "stack", "call depth exceeds 6000".into(), String::new()); }
            let fr: *mut Frame = Rc::make_mut(st.frames.last_mut().unwrap());
            let fr: &mut Frame = unsafe { &mut *fr };
            let func: &Func = unsafe { &*(Rc::as_ptr(&fr.f)) };
            let mut n = 0u64;
            macro_rules! sync { () => { st.steps += n; self.st.instrs += n; #[allow(unused_assignments)] { n = 0; } } }
            macro_rules! fault { ($e:expr) => { match $e { Ok(x) => x, Err(Fault(a)) => { sync!(); return self.violate(st, "memory", format!("access to address {:#x}", a), String::new()); } } } }
            macro_rules! ptr { ($o:expr) => { match $o { Opnd::C(x) => *x, Opnd::R(r) => match &fr.regs[*r as usize] { V::C(x) => *x, _ => { sync!(); match inc!(self.conc(st, $o, 300)) { Some(x) => x, None => continue 'outer } } }, _ => { return End::Incomplete("ptr operand".into()) } } } }
            loop {
                let ins = unsafe { func.blocks.get_unchecked(fr.blk as usize).get_unchecked(fr.ip as usize) };
                n += 1;
                if n & 0xfffff == 0 { sync!(); if Instant::now() > self.cfg.deadline { return End::Incomplete("time limit".into()); } if st.steps > self.cfg.max_steps { continue 'outer; } }
                match ins {
                    I::Bin { op, w, lanes, d, a, b } => {
                        let (x, y) = (Self::rd(fr, a), Self::rd(fr, b));
                        // division by a symbolic divisor: zero divisor would be UB; Rust guards it
                        let v = if *lanes == 0 { if let (V::C(p), V::C(q), Bop::Add) = (&x, &y, op) { V::C(mask64(p.wrapping_add(*q), *w)) } else { inc!(self.bin1(*op, *w, &x, &y)) } }
                            else { let mut o = Vec::with_capacity(*lanes as usize); for k in 0..*lanes as usize { o.push(inc!(self.bin1(*op, *w, &Self::lane(&x, k), &Self::lane(&y, k)))); } V::A(Rc::new(o)) };
                        fr.regs[*d as usize] = v;
                    }
                    I::ICmp { p, w, lanes, d, a, b } => { let (x, y) = (Self::rd(fr, a), Self::rd(fr, b)); let v = if *lanes == 0 { self.icmp1(*p, *w, &x, &y) } else { let mut o = vec![]; for k in 0..*lanes as usize { o.push(self.icmp1(*p, *w, &Self::lane(&x, k), &Self::lane(&y, k))); } V::A(Rc::new(o)) }; fr.regs[*d as usize] = v; }
                    I::FCmp { p, w, lanes, d, a, b } => { let (x, y) = (Self::rd(fr, a), Self::rd(fr, b)); let v = if *lanes == 0 { self.fcmp1(*p, *w, &x, &y) } else { let mut o = vec![]; for k in 0..*lanes as usize { o.push(self.fcmp1(*p, *w, &Self::lane(&x, k), &Self::lane(&y, k))); } V::A(Rc::new(o)) }; fr.regs[*d as usize] = v; }
                    I::FNeg { w, lanes, d, a } => { let x = Self::rd(fr, a); let sb = V::C(1u64 << (w - 1)); let v = if *lanes == 0 { inc!(self.bin1(Bop::Xor, *w, &x, &sb)) } else { let mut o = vec![]; for k in 0..*lanes as usize { o.push(inc!(self.bin1(Bop::Xor, *w, &Self::lane(&x, k), &sb))); } V::A(Rc::new(o)) }; fr.regs[*d as usize] = v; }
                    I::Cast { op, fw, tw, fl, tl, d, a } => { let x = Self::rd(fr, a);
                        let v = if *op == Cast::Bit && fl != tl { let bits = if *fl > 0 { fw * fl } else { *fw }; let e = if let V::A(_) = x { let all: Option<u128> = if let V::A(vs) = &x { let mut acc = 0u128; let mut ok = true; for (k, q) in vs.iter().enumerate() { match q { V::C(z) => acc |= (*z as u128) << (k as u32 * fw), _ => { ok = false; break; } } } if ok { Some(acc) } else { None } } else { None }; match all { Some(z) => Self::mkv(z, bits), None => { let e = self.exof(&x, bits); self.fv(e) } } } else { x.clone() }; if *tl > 0 { self.split(&e, *tl, *tw) } else { e } }
                            else if *fl == 0 { self.cast1(*op, *fw, *tw, &x) } else { let mut o = vec![]; for k in 0..*fl as usize { o.push(self.cast1(*op, *fw, *tw, &Self::lane(&x, k))); } V::A(Rc::new(o)) };
                        fr.regs[*d as usize] = v; }
                    I::Select { w, lanes, d, c, a, b, ty } => {
                        let cv = Self::rd(fr, c);
                        if *lanes > 0 { let (x, y) = (Self::rd(fr, a), Self::rd(fr, b)); let mut o = vec![]; let lw = match self.m.types.tys[*ty as usize] { Ty::Vec(_, e) => self.m.types.width(e), _ => *w }; for k in 0..*lanes as usize { let (p, q) = (Self::lane(&x, k), Self::lane(&y, k)); o.push(match Self::lane(&cv, k) { V::C(1) => p, V::C(_) => q, V::S(e) => { let (p, q) = (self.exof(&p, lw), self.exof(&q, lw)); let r = self.ex.ite(e, p, q); self.fv(r) } _ => unreachable!() }); } fr.regs[*d as usize] = V::A(Rc::new(o)); }
                        else { match cv { V::C(1) => { let v = Self::rd(fr, a); fr.regs[*d as usize] = v; } V::C(_) => { let v = Self::rd(fr, b); fr.regs[*d as usize] = v; }
                            V::S(e) => {
                                let (x, y) = (Self::rd(fr, a), Self::rd(fr, b));
                                if matches!(self.m.types.tys[*ty as usize], Ty::Ptr | Ty::Int(64)) || self.m.types.is_agg(*ty) { sync!(); match inc!(self.conc(st, c, 2)) { _ => continue 'outer } }
                                let same = matches!((&x, &y), (V::C(p), V::C(q)) if p == q);
                                if same { fr.regs[*d as usize] = x; } else { let (p, q) = (self.exof(&x, *w), self.exof(&y, *w)); let r = self.ex.ite(e, p, q); fr.regs[*d as usize] = self.fv(r); } }
                            _ => return End::Incomplete("select".into()) } }
                    }
                    I::Load { d, ty, w, p } => {
                        let a = match p { Opnd::R(r) => match &fr.regs[*r as usize] { V::C(x) => *x, V::S(e) => { let e = *e; sync!();
                                if *w > 0 && !matches!(self.m.types.tys[*ty as usize], Ty::Ptr) { if let Some(v) = inc!(self.table_load(st, e, *w)) { fr.regs[*d as usize] = v; fr.ip += 1; continue; } }
                                match inc!(self.conc(st, p, 300)) { Some(x) => x, None => continue 'outer } } _ => return End::Incomplete("load ptr".into()) }, Opnd::C(x) => *x, _ => return End::Incomplete("load ptr".into()) };
                        let v = if *w > 0 { let nb = ((*w + 7) / 8) as usize; match if nb <= 8 { st.mem.load64(a, nb) } else { None } { Some(x) => V::C(mask64(x, *w)), None => fault!(st.mem.load(&mut self.ex, a, *w)) } } else { let t = *ty; let mem: *const Mem = &st.mem; fault!(self.load_ty(unsafe { &*mem }, t, a)) };
                        fr.regs[*d as usize] = v;
                    }
                    I::Store { ty, w, v, p } => { let a = ptr!(p); if a < 4096 { sync!(); return self.violate(st, "memory", format!("store to {:#x}", a), String::new()); } let x = Self::rd(fr, v); if *w > 0 { fault!(st.mem.store(&mut self.ex, a, *w, &x)); } else { let t = *ty; let mem: *mut Mem = &mut st.mem; fault!(self.store_ty(unsafe { &mut *mem }, t, a, &x)); } }
                    I::Gep { d, base, off, idx } => {
                        let b = Self::rd(fr, base);
                        let v = if let V::C(mut a) = b { a = a.wrapping_add(*off); let mut sym: Option<E> = None; for (o, iw, s) in idx.iter() { match Self::rd(fr, o) { V::C(x) => a = a.wrapping_add((sext64(x, *iw) as u64).wrapping_mul(*s)), V::S(e) => { let e = self.ex.sext(e, 64); let k = self.ex.cst(*s as u128, 64); let m = self.ex.bin(Op::Mul, e, k); sym = Some(match sym { None => m, Some(z) => self.ex.bin(Op::Add, z, m) }); } _ => return End::Incomplete("gep".into()) } } match sym { None => V::C(a), Some(z) => { let k = self.ex.cst(a as u128, 64); let e = self.ex.bin(Op::Add, z, k); self.fv(e) } } }
                            else { let mut e = self.exof(&b, 64); let k = self.ex.cst(*off as u128, 64); e = self.ex.bin(Op::Add, e, k); for (o, iw, s) in idx.iter() { let x = Self::rd(fr, o); let x = self.exof(&x, *iw); let x = self.ex.sext(x, 64); let k = self.ex.cst(*s as u128, 64); let m = self.ex.bin(Op::Mul, x, k); e = self.ex.bin(Op::Add, e, m); } self.fv(e) };
                        fr.regs[*d as usize] = v;
                    }
                    I::Alloca { d, size, align, n: cnt } => { let c = ptr!(cnt); let a = (st.sp + align - 1) / align * align; st.sp = a + size * c; if st.sp > GLOBAL_BASE - 4096 { sync!(); return self.violate(st, "stack", "stack exhausted".into(), String::new()); } fr.regs[*d as usize] = V::C(a); }
                    I::Br(e) => { self.take_edge(fr, e); continue; }
                    I::CondBr { c, t, f } => {
                        match Self::rd(fr, c) { V::C(x) => { self.take_edge(fr, if x & 1 == 1 { t } else { f }); continue; }
                            V::S(e) => {
                                sync!();
                                let cur = self.eval(st, e) == 1;
                                let ne = self.ex.not(e);
                                let (here, other) = if cur { (e, ne) } else { (ne, e) };
                                match inc!(self.solve(st, other)) {
                                    None => { }
                                    Some(m) => { let mut s = self.fork(st); self.set_model(&mut s, &m); self.add(&mut s, other); let f2 = Rc::make_mut(s.frames.last_mut().unwrap()); self.take_edge(f2, if cur { f } else { t }); self.work.push(s); st.forks += 1; self.add(st, here); }
                                }
                                let f2 = Rc::make_mut(st.frames.last_mut().unwrap());
                                self.take_edge(f2, if cur { t } else { f });
                                continue 'outer;
                            }
                            _ => return End::Incomplete("br".into()) }
                    }
                    I::Switch { v, w, cases, map, edges, def } => {
                        match Self::rd(fr, v) {
                            V::C(x) => { let k = *map.get(&x).unwrap_or(def); self.take_edge(fr, &edges[k as usize]); continue; }
                            V::W(x) => { let k = cases.iter().find(|c| c.0 == *x).map_or(*def, |c| c.1); self.take_edge(fr, &edges[k as usize]); continue; }
                            V::S(e) => {
                                sync!();
                                let mut conds: Vec<(u32, E)> = vec![]; let mut any = self.ex.cst(0, 1);
                                let mut by: BTreeMap<u32, E> = BTreeMap::new();
                                for (cv, k) in cases.iter() { let kk = self.ex.cst(*cv, *w); let q = self.ex.eq(e, kk); if *k == *def { continue; } let z = by.get(k).copied(); let o = match z { None => q, Some(z) => self.ex.bin(Op::Or, z, q) }; by.insert(*k, o); any = self.ex.bin(Op::Or, any, q); }
                                for (k, q) in by { conds.push((k, q)); } let nd = self.ex.not(any); conds.push((*def, nd));
                                let mut cur = None;
                                for (k, q) in conds.iter() { if self.eval(st, *q) == 1 { cur = Some((*k, *q)); } }
                                let cur = cur.unwrap(); let mut forked = false;
                                for (k, q) in conds { if k == cur.0 { continue; } if let Some(m) = inc!(self.solve(st, q)) { let mut s = self.fork(st); self.set_model(&mut s, &m); self.add(&mut s, q); let f2 = Rc::make_mut(s.frames.last_mut().unwrap()); self.take_edge(f2, &edges[k as usize]); self.work.push(s); forked = true; } }
                                if forked { st.forks += 1; self.add(st, cur.1); }
                                let f2 = Rc::make_mut(st.frames.last_mut().unwrap()); self.take_edge(f2, &edges[cur.0 as usize]);
                                continue 'outer;
                            }
                            _ => return End::Incomplete("switch".into()) }
                    }
                    I::Ret(o) => {
                        let v = o.as_ref().map(|o| Self::rd(fr, o)); sync!();
                        let done = st.frames.pop().unwrap(); st.sp = done.sp;
                        if st.frames.is_empty() { return End::Done; }
                        let f2 = Rc::make_mut(st.frames.last_mut().unwrap());
                        if done.ret != u32::MAX { f2.regs[done.ret as usize] = v.unwrap_or(V::C(0)); }
                        f2.ip += 1;
                        continue 'outer;
                    }
                    I::Unreachable => { sync!(); return self.violate(st, "unreachable", "unreachable code executed".into(), String::new()); }
                    I::Extract { d, a, path } => { let mut v = Self::rd(fr, a); for p in path.iter() { v = Self::lane(&v, *p as usize); } fr.regs[*d as usize] = v; }
                    I::Insert { d, a, v, path } => { let x = Self::rd(fr, a); let y = Self::rd(fr, v); fn ins(x: V, y: V, p: &[u32]) -> V { if p.is_empty() { return y; } match x { V::A(r) => { let mut vs = (*r).clone(); let old = vs[p[0] as usize].clone(); vs[p[0] as usize] = ins(old, y, &p[1..]); V::A(Rc::new(vs)) } o => o } } fr.regs[*d as usize] = ins(x, y, path); }
                    I::ExtElem { d, a, i } => { let k = ptr!(i); let x = Self::rd(fr, a); fr.regs[*d as usize] = Self::lane(&x, k as usize); }
                    I::InsElem { d, a, v, i } => { let k = ptr!(i); let x = Self::rd(fr, a); let y = Self::rd(fr, v); if let V::A(r) = x { let mut vs = (*r).clone(); vs[k as usize] = y; fr.regs[*d as usize] = V::A(Rc::new(vs)); } }
                    I::Shuffle { d, a, b, mask, n } => { let (x, y) = (Self::rd(fr, a), Self::rd(fr, b)); let o = mask.iter().map(|m| if *m < *n { Self::lane(&x, *m as usize) } else { Self::lane(&y, (*m - *n) as usize) }).collect(); fr.regs[*d as usize] = V::A(Rc::new(o)); }
                    I::Rmw { op, w, d, p, v } => { let a = ptr!(p); let old = fault!(st.mem.load(&mut self.ex, a, *w)); let x = Self::rd(fr, v);
                        let nv = match op { Rmw::Xchg => x, Rmw::Add => inc!(self.bin1(Bop::Add, *w, &old, &x)), Rmw::Sub => inc!(self.bin1(Bop::Sub, *w, &old, &x)), Rmw::And => inc!(self.bin1(Bop::And, *w, &old, &x)), Rmw::Or => inc!(self.bin1(Bop::Or, *w, &old, &x)), Rmw::Xor => inc!(self.bin1(Bop::Xor, *w, &old, &x)), _ => return End::Incomplete(format!("atomicrmw {:?}", op)) };
                        fault!(st.mem.store(&mut self.ex, a, *w, &nv)); fr.regs[*d as usize] = old; }
                    I::CmpXchg { w, d, p, e, n: nn } => { let a = ptr!(p); let old = fault!(st.mem.load(&mut self.ex, a, *w)); let x = Self::rd(fr, e); let y = Self::rd(fr, nn); let c = self.icmp1(Pred::Eq, *w, &old, &x); let ok = match c { V::C(1) => true, V::C(_) => false, _ => return End::Incomplete("symbolic cmpxchg".into()) }; if ok { fault!(st.mem.store(&mut self.ex, a, *w, &y)); } fr.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)])); }
                    I::Copy { d, a } => { let v = Self::rd(fr, a); fr.regs[*d as usize] = v; }
                    I::Nop => {}
                    I::Call { d, callee, args, rw } => {
                        let fi = match callee { Callee::Fn(i) => *i, Callee::Ind(o) => { let a = ptr!(o); if a < FN_BASE { sync!(); return self.violate(st, "memory", format!("call to {:#x}", a), String::new()); } let i = ((a - FN_BASE) / 16) as usize; if self.m.funcs[i].is_decl || self.m.funcs[i].hook != 0 { let b = if self.m.funcs[i].hook != 0 { self.m.funcs[i].hook - 1 } else { let nm = self.m.funcs[i].name.clone(); self.m.builtin(&nm) }; sync!(); match inc!(self.builtin(st, b, *d, args, *rw)) { Flow::Next => { let f2 = Rc::make_mut(st.frames.last_mut().unwrap()); f2.ip += 1; } Flow::Redo => {} Flow::End(e) => return e } continue 'outer; } i }
                            Callee::Builtin(b) => { sync!(); match inc!(self.builtin(st, *b, *d, args, *rw)) { Flow::Next => { let f2 = Rc::make_mut(st.frames.last_mut().unwrap()); f2.ip += 1; } Flow::Redo => {} Flow::End(e) => return e } continue 'outer; }
                            Callee::Asm(k) => { // compiler barriers give back their operand; cpuid reports no feature
                                if *k == 3 || (*k == 1 && args.len() > 1) { return End::Incomplete("inline assembly".into()); }
                                if *d != u32::MAX { fr.regs[*d as usize] = if *k == 1 && args.len() == 1 { Self::rd(fr, &args[0]) } else { V::C(0) }; } fr.ip += 1; continue; } };
                        sync!();
                        let f = match &self.m.funcs[fi].body { Some(f) => f.clone(), None => { self.fexec.insert(fi); self.m.func(fi) } };
                        self.fexec.insert(fi);
                        let mut regs = vec![V::C(0); f.nregs as usize];
                        for (p, o) in f.params.iter().zip(args.iter()) { regs[*p as usize] = Self::rd(fr, o); }
                        let sp = st.sp;
                        st.frames.push(Rc::new(Frame { f, fidx: fi, blk: 0, ip: 0, regs, ret: *d, sp }));
                        continue 'outer;
                    }
                }
                fr.ip += 1;
            }
        }
    }
    /// load through a symbolic address that stays inside constant data
    fn table_load(&mut self, st: &State, e: E, w: u32) -> Result<Option<V>, String> {
        let sup = self.ex.sup[e as usize];
        let free = sup & !st.single;
        if free.count_ones() != 1 || sup.count_ones() != 1 { return Ok(None); }
        let v = sup.trailing_zeros();
        let t = match self.ex.table(e) { Some(t) => t, None => return Ok(None) };
        let d = st.dom[v as usize]; let nb = ((w + 7) / 8) as usize; if nb > 8 { return Ok(None); }
        let mut vals: Vec<(u32, u64)> = vec![];
        for i in 0..256u32 { if !dom_has(&d, i as u8) { continue; } let a = t[i as usize]; if a < GLOBAL_BASE || a >= self.m.gend { return Ok(None); } match st.mem.load64(a, nb) { Some(x) => vals.push((i, mask64(x, w))), None => return Ok(None) } }
        let x = self.ex.var(v); let mut r: Option<E> = None; let mut i = vals.len();
        while i > 0 { let val = vals[i - 1].1; let mut j = i - 1; while j > 0 && vals[j - 1].1 == val { j -= 1; } let hi = vals[i - 1].0; let kv = self.ex.cst(val as u128, w); r = Some(match r { None => kv, Some(z) => { let h = self.ex.cst(hi as u128, 8); let c = self.ex.cmp(Op::Ule, x, h); self.ex.ite(c, kv, z) } }); i = j; }
        Ok(r.map(|e| self.fv(e)))
    }
}
pub enum Flow { Next, Redo, End(End) }

pub fn demangle(n: &str) -> String {
    // short readable form of a v0 name: keep the identifiers
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
    let skip62 = |mut j: usize| -> Option<usize> { let st = j; while j < b.len() && b[j].is_ascii_alphanumeric() && j - st < 13 { j += 1; } if j < b.len() && b[j] == b'_' { Some(j + 1) } else { None } };
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' { let mut j = i; let mut l = 0usize; while j < b.len() && b[j].is_ascii_digit() { l = l * 10 + (b[j] - b'0') as usize; j += 1; } if j < b.len() && b[j] == b'_' { j += 1; } if j + l <= b.len() { out.push(n[j..j + l].to_string()); i = j + l; continue; } i = j; }
        else if b[i] == b's' { match skip62(i + 1) { Some(j) if j < b.len() && (b[j].is_ascii_digit()) => i = j, _ => i += 1 } }
        else if b[i] == b'B' { match skip62(i + 1) { Some(j) => i = j, None => i += 1 } }
        else { i += 1; }
    }
    out.dedup(); let k = out.len().min(5); out[..k].join("::")
}

include!("builtins.rs");
