//! Textual LLVM IR -> compact in-memory form.  Functions are decoded on first use.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Vec(u64, TyId), Arr(u64, TyId), Struct(Vec<TyId>, bool), Label, Meta, Func(TyId), Opaque }

pub struct Types { pub tys: Vec<Ty>, map: HashMap<Ty, TyId>, sizes: Vec<Option<(u64, u64)>> }
impl Types {
    pub fn new() -> Self { Types { tys: vec![], map: HashMap::new(), sizes: vec![] } }
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) { return i; }
        let i = self.tys.len() as u32; self.tys.push(t.clone()); self.sizes.push(None); self.map.insert(t, i); i
    }
    pub fn size_align(&mut self, t: TyId) -> (u64, u64) {
        if let Some(x) = self.sizes[t as usize] { return x; }
        let r = match self.tys[t as usize].clone() {
            Ty::Int(w) => { let b = ((w + 7) / 8) as u64; let a = b.next_power_of_two().min(16); ((b + a - 1) / a * a, a) }
            Ty::Ptr => (8, 8), Ty::F32 => (4, 4), Ty::F64 => (8, 8),
            Ty::Vec(n, e) => { let (s, _) = match self.tys[e as usize] { Ty::Int(1) => { let b = (n + 7) / 8; return (b, b.next_power_of_two()); } _ => self.size_align(e) }; let t = s * n; (t, t.next_power_of_two().min(64)) }
            Ty::Arr(n, e) => { let (s, a) = self.size_align(e); (s * n, a) }
            Ty::Struct(fs, packed) => {
                let (mut off, mut al) = (0u64, 1u64);
                for f in fs { let (s, a) = self.size_align(f); let a = if packed { 1 } else { a }; off = (off + a - 1) / a * a; off += s; al = al.max(a); }
                ((off + al - 1) / al * al, al)
            }
            _ => (0, 1),
        };
        self.sizes[t as usize] = Some(r); r
    }
    pub fn field(&mut self, t: TyId, i: u64) -> (u64, TyId) {
        match self.tys[t as usize].clone() {
            Ty::Vec(_, e) | Ty::Arr(_, e) => { let s = self.size_align(e).0; (s * i, e) }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (k, f) in fs.iter().enumerate() { let (s, a) = self.size_align(*f); let a = if packed { 1 } else { a }; off = (off + a - 1) / a * a; if k as u64 == i { return (off, *f); } off += s; }
                panic!("field index")
            }
            t => panic!("field of {:?}", t),
        }
    }
    /// bit width of a scalar type
    pub fn width(&self, t: TyId) -> u32 { match self.tys[t as usize] { Ty::Int(w) => w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, _ => 0 } }
    pub fn is_agg(&self, t: TyId) -> bool { matches!(self.tys[t as usize], Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) }
}

/// Run-time values.  Concrete integers up to 64 bits (also pointers and float bits) are C,
/// wider concrete integers W, symbolic scalars S, aggregates and vectors A.
#[derive(Clone, Debug)]
pub enum V { C(u64), S(u32), W(Rc<u128>), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), C(u64), K(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Uno, Ueq, Ugt, Uge, Ult, Ule, Une, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, Bit }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub struct Edge { pub to: u32, pub copies: Box<[(u32, Opnd)]> }

#[derive(Clone, Debug)]
pub enum Callee { Fn(usize), Ind(Opnd), Builtin(u32), Asm(u8) }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bop, w: u32, lanes: u32, d: u32, a: Opnd, b: Opnd },
    ICmp { p: Pred, w: u32, lanes: u32, d: u32, a: Opnd, b: Opnd },
    FCmp { p: FPred, w: u32, lanes: u32, d: u32, a: Opnd, b: Opnd },
    FNeg { w: u32, lanes: u32, d: u32, a: Opnd },
    Cast { op: Cast, fw: u32, tw: u32, fl: u32, tl: u32, d: u32, a: Opnd },
    Select { w: u32, lanes: u32, d: u32, c: Opnd, a: Opnd, b: Opnd, ty: TyId },
    Load { d: u32, ty: TyId, w: u32, p: Opnd },
    Store { ty: TyId, w: u32, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: u64, idx: Box<[(Opnd, u32, u64)]> },
    Alloca { d: u32, size: u64, align: u64, n: Opnd },
    Call { d: u32, callee: Callee, args: Box<[Opnd]>, rw: u32 },
    Br(Edge),
    CondBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u32, cases: Box<[(u128, u32)]>, map: HashMap<u64, u32>, edges: Box<[Edge]>, def: u32 },
    Ret(Option<Opnd>),
    Unreachable,
    Extract { d: u32, a: Opnd, path: Box<[u32]> },
    Insert { d: u32, a: Opnd, v: Opnd, path: Box<[u32]> },
    ExtElem { d: u32, a: Opnd, i: Opnd },
    InsElem { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, mask: Box<[u32]>, n: u32 },
    Rmw { op: Rmw, w: u32, d: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u32, d: u32, p: Opnd, e: Opnd, n: Opnd },
    Copy { d: u32, a: Opnd },
    Nop,
}

pub struct Func { pub name: String, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Vec<I>> }

pub struct FuncInfo { pub name: String, pub start: usize, pub end: usize, pub body: Option<Rc<Func>>, pub is_decl: bool, pub hook: u32 }

pub struct GlobalInfo { pub addr: u64, pub size: u64, pub constant: bool }

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub types: Types,
    pub named: HashMap<String, TyId>,
    pub funcs: Vec<FuncInfo>,
    pub fmap: HashMap<String, usize>,
    pub globals: HashMap<String, GlobalInfo>,
    pub aliases: HashMap<String, String>,
    pub image: Vec<(u64, Vec<u8>)>,
    pub gend: u64,
    pub builtins: Vec<String>,
    pub bmap: HashMap<String, u32>,
    pub ctors: Vec<String>,
}

pub const FN_BASE: u64 = 0x0000_7000_0000_0000;
pub const GLOBAL_BASE: u64 = 0x0200_0000;

pub struct P<'a> { pub s: &'a [u8], pub i: usize }
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> P<'a> {
    pub fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n' || self.s[self.i] == b'\r') { self.i += 1; } if self.i < self.s.len() && self.s[self.i] == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } self.ws(); } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected '{}'", c as char)); } }
    pub fn fail(&self, m: &str) -> ! { let a = self.i.saturating_sub(120); let b = (self.i + 160).min(self.s.len()); panic!("IR parse error: {} near: {}<<HERE>>{}", m, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b])); }
    pub fn word(&mut self) -> &'a str { self.ws(); let st = self.i; while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; } unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) } }
    pub fn peek_word(&mut self) -> &'a str { let i0 = { self.ws(); self.i }; let w = self.word(); self.i = i0; w }
    pub fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    pub fn name(&mut self) -> String { // after % or @
        if self.i < self.s.len() && self.s[self.i] == b'"' { self.qstr_raw() } else { let st = self.i; while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; } String::from_utf8_lossy(&self.s[st..self.i]).into_owned() }
    }
    pub fn qstr_raw(&mut self) -> String { self.expect(b'"'); let st = self.i; while self.s[self.i] != b'"' { self.i += 1; } let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned(); self.i += 1; r }
    pub fn skip_parens(&mut self) { // at '('
        let mut d = 0; loop { let c = self.s[self.i]; if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } if c == b'(' { d += 1 } if c == b')' { d -= 1 } self.i += 1; if d == 0 { break; } }
    }
    pub fn line_end(&mut self) { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
}

pub enum Cst { V(V), Bytes(Vec<u8>), Agg(Vec<(TyId, Cst)>), Zero, Undef }

impl Module {
    pub fn load(path: &str) -> Module {
        let text = Rc::new(std::fs::read(path).expect("read ll"));
        let mut m = Module { text: text.clone(), types: Types::new(), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(), globals: HashMap::new(), aliases: HashMap::new(), image: vec![], gend: GLOBAL_BASE, builtins: vec![], bmap: HashMap::new(), ctors: vec![] };
        let s: &[u8] = &text;
        let mut i = 0; let mut gl: Vec<usize> = vec![];
        while i < s.len() {
            let e = s[i..].iter().position(|&c| c == b'\n').map(|x| i + x).unwrap_or(s.len());
            match s[i] {
                b'@' => gl.push(i),
                b'%' => { let mut p = P { s: &s[..e], i: i + 1 }; let n = p.name(); p.ws(); if p.eat(b'=') && p.eat_word("type") { let t = if p.peek_word() == "opaque" { m.types.get(Ty::Opaque) } else { m.ty(&mut p) }; m.named.insert(n, t); } }
                b'd' => {
                    let is_def = s[i..].starts_with(b"define"); let is_decl = s[i..].starts_with(b"declare");
                    if is_def || is_decl {
                        let at = i + s[i..e].iter().position(|&c| c == b'@').unwrap();
                        let mut p = P { s: &s[..e], i: at + 1 }; let n = p.name();
                        let mut end = e;
                        if is_def { // find line "}"
                            let mut j = e + 1; loop { let e2 = s[j..].iter().position(|&c| c == b'\n').map(|x| j + x).unwrap_or(s.len()); if s[j] == b'}' { end = e2; break; } j = e2 + 1; }
                        }
                        let idx = m.funcs.len(); m.fmap.insert(n.clone(), idx); m.funcs.push(FuncInfo { name: n, start: i, end, body: None, is_decl, hook: 0 });
                        i = end + 1; continue;
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        // globals: pass 1 sizes/addresses
        let mut inits: Vec<(String, u64, TyId, usize)> = vec![];
        for g in gl {
            let e = g + s[g..].iter().position(|&c| c == b'\n').unwrap();
            let mut p = P { s: &s[..e], i: g + 1 };
            let n = p.name(); p.expect(b'=');
            let mut external = false; let mut constant = false; let mut alias = false;
            loop { let w = p.word(); match w { "global" => break, "constant" => { constant = true; break } "alias" => { alias = true; break } "external" | "extern_weak" => external = true, "" => p.fail("global"), "thread_local" | "addrspace" => { if p.peek() == b'(' { p.skip_parens() } } _ => {} } }
            if n.starts_with("llvm.") { continue; }
            if alias { let _t = m.ty(&mut p); p.expect(b','); let _ = m.ty(&mut p); p.expect(b'@'); let t = p.name(); m.aliases.insert(n, t); continue; }
            let t = m.ty(&mut p);
            let (sz, al) = m.types.size_align(t);
            let al = al.max(16);
            m.gend = (m.gend + al - 1) / al * al; let addr = m.gend; m.gend += sz.max(1);
            m.globals.insert(n.clone(), GlobalInfo { addr, size: sz, constant });
            if n.ends_with("_CTOR") || n.ends_with("___CTOR") { m.ctors.push(n.clone()); }
            if !external { inits.push((n, addr, t, p.i)); }
        }
        for (_n, addr, t, pos) in inits {
            let e = pos + s[pos..].iter().position(|&c| c == b'\n').unwrap();
            let mut p = P { s: &s[..e], i: pos };
            let c = m.cst(&mut p, t);
            let sz = m.types.size_align(t).0 as usize;
            let mut buf = vec![0u8; sz]; m.fill(&mut buf, 0, t, &c);
            m.image.push((addr, buf));
        }
        m
    }
    pub fn fill(&mut self, buf: &mut [u8], off: usize, t: TyId, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Cst::V(v) => { let sz = self.types.size_align(t).0 as usize; let x: u128 = match v { V::C(x) => *x as u128, V::W(x) => **x, V::A(_) => { let vs = if let V::A(r) = v { r.clone() } else { unreachable!() }; for (k, x) in vs.iter().enumerate() { let (fo, ft) = self.types.field(t, k as u64); self.fill(buf, off + fo as usize, ft, &Cst::V(x.clone())); } return; } _ => panic!() }; for k in 0..sz.min(16) { buf[off + k] = (x >> (8 * k)) as u8; } }
            Cst::Agg(fs) => for (k, (ft, x)) in fs.iter().enumerate() { let (fo, _) = self.types.field(t, k as u64); self.fill(buf, off + fo as usize, *ft, x); },
        }
    }
    pub fn ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let mut t = match c {
            b'[' => { p.i += 1; let n: u64 = p.word().parse().unwrap(); p.word(); let e = self.ty(p); p.expect(b']'); self.types.get(Ty::Arr(n, e)) }
            b'<' => { p.i += 1; if p.peek() == b'{' { let t = self.struct_ty(p, true); p.expect(b'>'); t } else { let n: u64 = p.word().parse().unwrap(); p.word(); let e = self.ty(p); p.expect(b'>'); self.types.get(Ty::Vec(n, e)) } }
            b'{' => self.struct_ty(p, false),
            b'%' => { p.i += 1; let n = p.name(); *self.named.get(&n).unwrap_or_else(|| p.fail(&format!("unknown type {}", n))) }
            _ => { let w = p.word(); let t = match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta, _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()), _ => p.fail(&format!("type '{}'", w)) }; if w == "ptr" && p.peek_word() == "addrspace" { p.word(); p.ws(); p.skip_parens(); } self.types.get(t) }
        };
        if p.peek() == b'(' { p.skip_parens(); t = self.types.get(Ty::Func(t)); }
        t
    }
    fn struct_ty(&mut self, p: &mut P, packed: bool) -> TyId { p.expect(b'{'); let mut fs = vec![]; if !p.eat(b'}') { loop { fs.push(self.ty(p)); if p.eat(b'}') { break; } p.expect(b','); } } self.types.get(Ty::Struct(fs, packed)) }
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(g) = self.globals.get(n) { return Some(g.addr); }
        if let Some(&f) = self.fmap.get(n) { return Some(FN_BASE + 16 * f as u64); }
        if let Some(a) = self.aliases.get(n) { return self.sym_addr(a); }
        None
    }
    pub fn zero(&mut self, t: TyId) -> V { match self.types.tys[t as usize].clone() { Ty::Vec(n, e) | Ty::Arr(n, e) => { let z = self.zero(e); V::A(Rc::new(vec![z; n as usize])) } Ty::Struct(fs, _) => { let v = fs.iter().map(|f| self.zero(*f)).collect(); V::A(Rc::new(v)) } Ty::Int(w) if w > 64 => V::W(Rc::new(0)), _ => V::C(0) } }
    pub fn cst_v(&mut self, c: Cst, t: TyId) -> V { match c { Cst::V(v) => v, Cst::Zero | Cst::Undef => self.zero(t), Cst::Bytes(b) => V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect())), Cst::Agg(fs) => { let v = fs.into_iter().map(|(t, c)| self.cst_v(c, t)).collect(); V::A(Rc::new(v)) } } }
    fn tyval(&mut self, p: &mut P) -> (TyId, Cst) { let t = self.ty(p); let c = self.cst(p, t); (t, c) }
    pub fn cst(&mut self, p: &mut P, t: TyId) -> Cst {
        let w = self.types.width(t);
        match p.peek() {
            b'@' => { p.i += 1; let n = p.name(); match self.sym_addr(&n) { Some(a) => Cst::V(V::C(a)), None => Cst::V(V::C(0)) } }
            b'c' if p.i + 1 < p.s.len() && p.s[p.i + 1] == b'"' => { p.i += 2; let mut b = vec![]; while p.s[p.i] != b'"' { if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' { b.push(b'\\'); p.i += 2; } else if p.s[p.i] == b'\\' { let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap(); b.push(u8::from_str_radix(h, 16).unwrap()); p.i += 3; } else { b.push(p.s[p.i]); p.i += 1; } } p.i += 1; Cst::Bytes(b) }
            b'[' => { p.i += 1; let mut v = vec![]; if !p.eat(b']') { loop { v.push(self.tyval(p)); if p.eat(b']') { break; } p.expect(b','); } } Cst::Agg(v) }
            b'{' => { p.i += 1; let mut v = vec![]; if !p.eat(b'}') { loop { v.push(self.tyval(p)); if p.eat(b'}') { break; } p.expect(b','); } } Cst::Agg(v) }
            b'<' => { p.i += 1; let br = p.eat(b'{'); let mut v = vec![]; if !(br && p.eat(b'}')) { loop { v.push(self.tyval(p)); if br { if p.eat(b'}') { break; } } else if p.peek() == b'>' { break; } p.expect(b','); } } p.expect(b'>'); Cst::Agg(v) }
            _ => {
                let wd = p.word();
                match wd {
                    "null" => Cst::V(V::C(0)), "zeroinitializer" | "none" => Cst::Zero, "undef" | "poison" => Cst::Undef,
                    "true" => Cst::V(V::C(1)), "false" => Cst::V(V::C(0)),
                    "splat" => { p.expect(b'('); let (et, c) = self.tyval(p); p.expect(b')'); let v = self.cst_v(c, et); let n = match self.types.tys[t as usize] { Ty::Vec(n, _) => n, _ => p.fail("splat") }; Cst::V(V::A(Rc::new(vec![v; n as usize]))) }
                    "getelementptr" => {
                        while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") { p.word(); }
                        if p.peek_word() == "inrange" { p.word(); p.ws(); p.skip_parens(); }
                        p.expect(b'('); let bt = self.ty(p); p.expect(b','); let (_, b) = self.tyval(p); let mut a = match b { Cst::V(V::C(x)) => x, Cst::Zero | Cst::Undef => 0, _ => p.fail("gep base") };
                        let mut cur = bt; let mut first = true;
                        while p.eat(b',') { let (_, ix) = self.tyval(p); let ix = match ix { Cst::V(V::C(x)) => x as i64, Cst::Zero => 0, _ => p.fail("gep idx") }; if first { let s = self.types.size_align(cur).0; a = a.wrapping_add((ix as u64).wrapping_mul(s)); first = false; } else { let (o, ft) = self.types.field(cur, ix as u64); a = a.wrapping_add(o); cur = ft; } }
                        p.expect(b')'); Cst::V(V::C(a))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => { if p.peek_word() == "nuw" { p.word(); } p.expect(b'('); let (_, c) = self.tyval(p); if p.word() != "to" { p.fail("to") } let tt = self.ty(p); p.expect(b')'); let w = self.types.width(tt); match c { Cst::V(V::C(x)) => Cst::V(V::C(mask64(x, w))), c => c } }
                    "sub" | "add" | "xor" | "and" | "or" => { while matches!(p.peek_word(), "nuw" | "nsw") { p.word(); } p.expect(b'('); let (_, a) = self.tyval(p); p.expect(b','); let (_, b) = self.tyval(p); p.expect(b')'); match (a, b) { (Cst::V(V::C(a)), Cst::V(V::C(b))) => Cst::V(V::C(mask64(match wd { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, _ => a | b }, w))), _ => p.fail("cexpr") } }
                    _ => match self.types.tys[t as usize] {
                        Ty::Int(w) => { let v: u128 = if let Some(h) = wd.strip_prefix("u0x").or(wd.strip_prefix("s0x")) { u128::from_str_radix(h, 16).unwrap() } else if let Some(n) = wd.strip_prefix('-') { (n.parse::<u128>().unwrap_or_else(|_| p.fail("int"))).wrapping_neg() } else { wd.parse::<u128>().unwrap_or_else(|_| p.fail(&format!("int const '{}'", wd))) }; let v = if w < 128 { v & ((1u128 << w) - 1) } else { v }; if w <= 64 { Cst::V(V::C(v as u64)) } else { Cst::V(V::W(Rc::new(v))) } }
                        Ty::F64 => { Cst::V(V::C(self.fcst(p, wd))) }
                        Ty::F32 => { let d = f64::from_bits(self.fcst(p, wd)); Cst::V(V::C((d as f32).to_bits() as u64)) }
                        _ => p.fail(&format!("const '{}'", wd)),
                    },
                }
            }
        }
    }
    fn fcst(&self, p: &mut P, wd: &str) -> u64 {
        if let Some(h) = wd.strip_prefix("0x") { return u64::from_str_radix(h, 16).unwrap(); }
        if let Some(h) = wd.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap(); }
        match wd { "-inf" | "-" => {}, "inf" | "pinf" => return f64::INFINITY.to_bits(), "ninf" => return f64::NEG_INFINITY.to_bits(), "qnan" | "nan" => return f64::NAN.to_bits(), _ => {} }
        let mut s = wd.to_string();
        if p.i < p.s.len() && p.s[p.i] == b'+' { p.i += 1; s.push('+'); s.push_str(p.word()); }
        s.parse::<f64>().unwrap_or_else(|_| p.fail(&format!("float '{}'", s))).to_bits()
    }
    pub fn builtin(&mut self, n: &str) -> u32 { if let Some(&b) = self.bmap.get(n) { return b; } let i = self.builtins.len() as u32; self.builtins.push(n.to_string()); self.bmap.insert(n.to_string(), i); i }

    // ---- functions ----
    pub fn func(&mut self, idx: usize) -> Rc<Func> {
        if let Some(f) = &self.funcs[idx].body { return f.clone(); }
        let text = self.text.clone();
        let (st, en) = (self.funcs[idx].start, self.funcs[idx].end);
        let mut p = P { s: &text[..en], i: st };
        let mut f = FnP { regs: HashMap::new(), nregs: 0, blocks: HashMap::new(), nblocks: 0 };
        // header
        let at = st + text[st..en].iter().position(|&c| c == b'@').unwrap();
        p.i = at + 1; let name = p.name(); p.expect(b'(');
        let mut params = vec![]; let mut unnamed = 0;
        if !p.eat(b')') { let mut k = 0; loop {
            if p.peek() == b'.' { p.i += 3; p.expect(b')'); break; }
            let _t = self.ty(&mut p); skip_attrs(&mut p);
            let r = if p.peek() == b'%' { p.i += 1; let n = p.name(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } f.reg(&n) } else { f.reg(&format!("__p{}", k)) };
            params.push(r); k += 1;
            if p.eat(b')') { break; } p.expect(b','); } }
        // body start: '{' at end of that line
        loop { if p.s[p.i] == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } if p.s[p.i] == b'{' && p.s[p.i + 1] == b'\n' { break; } p.i += 1; }
        p.i += 2;
        // collect blocks
        let mut cur: Option<u32> = None;
        let mut bl: Vec<Vec<I>> = vec![]; let mut phis: Vec<Vec<(u32, Vec<(u32, Opnd)>)>> = vec![];
        let mut ends: Vec<Vec<(u32, u32)>> = vec![];
        let _ = &mut ends;
        while p.i < en {
            // line start
            let ls = p.i;
            let le = ls + text[ls..].iter().position(|&c| c == b'\n').unwrap();
            if le == ls { p.i = le + 1; continue; }
            let c0 = text[ls];
            if c0 == b'}' { break; }
            if c0 == b';' { p.i = le + 1; continue; }
            if c0 != b' ' { // label
                p.i = ls; let n = p.name(); let b = f.block(&n); cur = Some(b); while bl.len() <= b as usize { bl.push(vec![]); phis.push(vec![]); } p.i = le + 1; continue;
            }
            if cur.is_none() { let b = f.block(&format!("{}", unnamed)); cur = Some(b); while bl.len() <= b as usize { bl.push(vec![]); phis.push(vec![]); } }
            p.ws();
            let b = cur.unwrap() as usize;
            self.instr(&mut p, &mut f, &mut bl[b], &mut phis[b]);
            if text[ls..le].ends_with(b"[") { p.line_end(); p.i += 1; } else { p.i = le + 1; }
        }
        // labels may have been referenced before definition: blocks indices are stable (by name)
        while bl.len() < f.nblocks as usize { bl.push(vec![]); phis.push(vec![]); }
        // resolve phi copies on edges
        for b in 0..bl.len() {
            if let Some(t) = bl[b].last_mut() {
                let fix = |e: &mut Edge| { let mut v = vec![]; for (d, inc) in &phis[e.to as usize] { let o = inc.iter().find(|(pb, _)| *pb == b as u32).unwrap_or_else(|| panic!("phi pred in {} block {} -> {} preds {:?} names {:?}", name, b, e.to, inc, f.blocks.iter().filter(|x| *x.1 == b as u32 || *x.1 == e.to).collect::<Vec<_>>())).1.clone(); v.push((*d, o)); } e.copies = v.into_boxed_slice(); };
                match t { I::Br(e) => fix(e), I::CondBr { t, f, .. } => { fix(t); fix(f); } I::Switch { edges, .. } => for e in edges.iter_mut() { fix(e) }, _ => {} }
            }
        }
        // undefined regs referenced only is fine
        let r = Rc::new(Func { name, nregs: f.nregs, params, blocks: bl });
        self.funcs[idx].body = Some(r.clone()); r
    }
    fn opnd(&mut self, p: &mut P, f: &mut FnP, t: TyId) -> Opnd {
        if p.peek() == b'%' { p.i += 1; let n = p.name(); return Opnd::R(f.reg(&n)); }
        if matches!(self.types.tys[t as usize], Ty::Meta) { // metadata operand
            if p.peek() == b'!' { p.line_end_paren(); } return Opnd::C(0); }
        let c = self.cst(p, t); match self.cst_v(c, t) { V::C(x) => Opnd::C(x), v => Opnd::K(v) }
    }
    fn tyop(&mut self, p: &mut P, f: &mut FnP) -> (TyId, Opnd) { let t = self.ty(p); skip_attrs(p); let o = self.opnd(p, f, t); (t, o) }
    fn wl(&self, t: TyId) -> (u32, u32) { match self.types.tys[t as usize] { Ty::Vec(n, e) => (self.types.width(e), n as u32), _ => (self.types.width(t), 0) } }
    fn label(&mut self, p: &mut P, f: &mut FnP) -> u32 { if p.word() != "label" { p.fail("label") } p.expect(b'%'); let n = p.name(); f.block(&n) }
    fn instr(&mut self, p: &mut P, f: &mut FnP, out: &mut Vec<I>, phis: &mut Vec<(u32, Vec<(u32, Opnd)>)>) {
        let mut d = u32::MAX;
        if p.peek() == b'%' { p.i += 1; let n = p.name(); d = f.reg(&n); p.expect(b'='); }
        let op = p.word();
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn") { p.word(); }
                let t = self.ty(p); let a = self.opnd(p, f, t); p.expect(b','); let b = self.opnd(p, f, t); let (w, lanes) = self.wl(t);
                let o = match op { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "sdiv" => Bop::SDiv, "urem" => Bop::URem, "srem" => Bop::SRem, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, "shl" => Bop::Shl, "lshr" => Bop::LShr, "ashr" => Bop::AShr, "fadd" => Bop::FAdd, "fsub" => Bop::FSub, "fmul" => Bop::FMul, "fdiv" => Bop::FDiv, _ => Bop::FRem };
                out.push(I::Bin { op: o, w, lanes, d, a, b });
            }
            "fneg" => { while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.word(); } let (t, a) = self.tyop(p, f); let (w, lanes) = self.wl(t); out.push(I::FNeg { w, lanes, d, a }); }
            "icmp" => {
                if p.peek_word() == "samesign" { p.word(); }
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => p.fail(x) };
                let t = self.ty(p); let a = self.opnd(p, f, t); p.expect(b','); let b = self.opnd(p, f, t); let (w, lanes) = self.wl(t); out.push(I::ICmp { p: pr, w, lanes, d, a, b });
            }
            "fcmp" => {
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.word(); }
                let pr = match p.word() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "uno" => FPred::Uno, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "true" => FPred::True, x => p.fail(x) };
                let t = self.ty(p); let a = self.opnd(p, f, t); p.expect(b','); let b = self.opnd(p, f, t); let (w, lanes) = self.wl(t); out.push(I::FCmp { p: pr, w, lanes, d, a, b });
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.word(); }
                let (t, a) = self.tyop(p, f); if p.word() != "to" { p.fail("to") } let tt = self.ty(p);
                let (fw, fl) = self.wl(t); let (tw, tl) = self.wl(tt);
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "ptrtoint" | "inttoptr" => if tw < fw { Cast::Trunc } else if tw > fw { Cast::ZExt } else { Cast::Bit }, _ => Cast::Bit };
                if c == Cast::Bit && fl == tl { out.push(I::Copy { d, a }); } else { out.push(I::Cast { op: c, fw, tw, fl, tl, d, a }); }
            }
            "select" => { while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.word(); } let (ct, c) = self.tyop(p, f); p.expect(b','); let (t, a) = self.tyop(p, f); p.expect(b','); let (_, b) = self.tyop(p, f); let lanes = self.wl(ct).1; let (w, _) = self.wl(t); out.push(I::Select { w, lanes, d, c, a, b, ty: t }); }
            "load" => { while matches!(p.peek_word(), "atomic" | "volatile") { p.word(); } let t = self.ty(p); p.expect(b','); let (_, q) = self.tyop(p, f); let w = self.types.width(t); out.push(I::Load { d, ty: t, w, p: q }); }
            "store" => { while matches!(p.peek_word(), "atomic" | "volatile") { p.word(); } let (t, v) = self.tyop(p, f); p.expect(b','); let (_, q) = self.tyop(p, f); let w = self.types.width(t); out.push(I::Store { ty: t, w, v, p: q }); }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") { p.word(); }
                let bt = self.ty(p); p.expect(b','); let (bty, base) = self.tyop(p, f); if self.types.is_agg(bty) { p.fail("vector gep") }
                let mut off = 0u64; let mut idx = vec![]; let mut cur = bt; let mut first = true;
                while p.peek() == b',' { p.i += 1; if p.peek() == b'!' { break; } let (it, o) = self.tyop(p, f); let iw = self.types.width(it);
                    if first { first = false; let s = self.types.size_align(cur).0; match o { Opnd::C(x) => off = off.wrapping_add((sext64(x, iw) as u64).wrapping_mul(s)), o => idx.push((o, iw, s)) } }
                    else { match self.types.tys[cur as usize].clone() { Ty::Struct(..) => { let k = if let Opnd::C(x) = o { x } else { p.fail("struct idx") }; let (fo, ft) = self.types.field(cur, k); off = off.wrapping_add(fo); cur = ft; } Ty::Arr(_, e) | Ty::Vec(_, e) => { let s = self.types.size_align(e).0; match o { Opnd::C(x) => off = off.wrapping_add((sext64(x, iw) as u64).wrapping_mul(s)), o => idx.push((o, iw, s)) } cur = e; } _ => p.fail("gep type") } } }
                out.push(I::Gep { d, base, off, idx: idx.into_boxed_slice() });
            }
            "alloca" => { if p.peek_word() == "inalloca" { p.word(); } let t = self.ty(p); let (sz, mut al) = self.types.size_align(t); let mut n = Opnd::C(1); while p.eat(b',') { if p.peek() == b'!' { break; } if p.peek_word() == "align" { p.word(); al = p.word().parse().unwrap(); } else { n = self.tyop(p, f).1; } } out.push(I::Alloca { d, size: sz, align: al.max(1), n }); }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" { p.word(); }
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.word(); }
                skip_attrs_cc(p);
                let t = self.ty(p); let rt = match self.types.tys[t as usize] { Ty::Func(r) => r, _ => t };
                let mut asm = 0u8;
                let callee_name: Option<String>; let mut callee_op = Opnd::C(0);
                match p.peek() { b'@' => { p.i += 1; callee_name = Some(p.name()); } b'%' => { p.i += 1; let n = p.name(); callee_op = Opnd::R(f.reg(&n)); callee_name = None; } b'a' => { callee_name = None; while p.peek_word() != "" { p.word(); } let t = p.qstr_raw(); p.expect(b','); let _ = p.qstr_raw(); let t = t.trim(); asm = if t.is_empty() || (t.starts_with("/*") && t.ends_with("*/")) { 1 } else if t.contains("cpuid") { 2 } else { 3 }; } _ => { let pt = self.types.get(Ty::Ptr); callee_op = self.opnd(p, f, pt); callee_name = None; } }
                p.expect(b'('); let mut args = vec![];
                if !p.eat(b')') { loop { let (_, a) = self.tyop(p, f); args.push(a); if p.eat(b')') { break; } p.expect(b','); } }
                let rw = self.types.width(rt);
                let callee = if asm > 0 { Callee::Asm(asm) } else if let Some(n) = callee_name {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n == "llvm.x86.sse2.pause" || n.starts_with("llvm.prefetch") { out.push(I::Nop); return; }
                    let n = self.aliases.get(&n).cloned().unwrap_or(n);
                    match self.fmap.get(&n) { Some(&i) if !self.funcs[i].is_decl && self.funcs[i].hook == 0 => Callee::Fn(i), Some(&i) if self.funcs[i].hook != 0 => Callee::Builtin(self.funcs[i].hook - 1), _ => { let b = self.builtin(&n); Callee::Builtin(b) } }
                } else { Callee::Ind(callee_op) };
                // the two constants describing integer widths for intrinsics are part of the name
                out.push(I::Call { d, callee, args: args.into_boxed_slice(), rw });
            }
            "br" => { if p.peek_word() == "label" { let l = self.label(p, f); out.push(I::Br(Edge { to: l, copies: Box::new([]) })); } else { let (_, c) = self.tyop(p, f); p.expect(b','); let t = self.label(p, f); p.expect(b','); let e = self.label(p, f); out.push(I::CondBr { c, t: Edge { to: t, copies: Box::new([]) }, f: Edge { to: e, copies: Box::new([]) } }); } }
            "switch" => {
                let (t, v) = self.tyop(p, f); let w = self.types.width(t); p.expect(b','); let dl = self.label(p, f); p.expect(b'[');
                let mut edges = vec![Edge { to: dl, copies: Box::new([]) }]; let mut cases = vec![]; let mut map = HashMap::new(); let mut tmap: HashMap<u32, u32> = HashMap::new(); tmap.insert(dl, 0);
                while !p.eat(b']') { let (_, c) = self.tyop(p, f); p.expect(b','); let l = self.label(p, f); let e = *tmap.entry(l).or_insert_with(|| { edges.push(Edge { to: l, copies: Box::new([]) }); edges.len() as u32 - 1 }); match c { Opnd::C(x) => { cases.push((x as u128, e)); map.insert(x, e); } Opnd::K(V::W(x)) => cases.push((*x, e)), _ => p.fail("case") } }
                out.push(I::Switch { v, w, cases: cases.into_boxed_slice(), map, edges: edges.into_boxed_slice(), def: 0 });
            }
            "ret" => { if p.peek_word() == "void" { out.push(I::Ret(None)); } else { let (_, o) = self.tyop(p, f); out.push(I::Ret(Some(o))); } }
            "unreachable" => out.push(I::Unreachable),
            "extractvalue" => { let (_, a) = self.tyop(p, f); let mut path = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } path.push(p.word().parse().unwrap()); } out.push(I::Extract { d, a, path: path.into_boxed_slice() }); }
            "insertvalue" => { let (_, a) = self.tyop(p, f); p.expect(b','); let (_, v) = self.tyop(p, f); let mut path = vec![]; while p.eat(b',') { if p.peek() == b'!' { break; } path.push(p.word().parse().unwrap()); } out.push(I::Insert { d, a, v, path: path.into_boxed_slice() }); }
            "extractelement" => { let (_, a) = self.tyop(p, f); p.expect(b','); let (_, i) = self.tyop(p, f); out.push(I::ExtElem { d, a, i }); }
            "insertelement" => { let (_, a) = self.tyop(p, f); p.expect(b','); let (_, v) = self.tyop(p, f); p.expect(b','); let (_, i) = self.tyop(p, f); out.push(I::InsElem { d, a, v, i }); }
            "shufflevector" => {
                let (t, a) = self.tyop(p, f); p.expect(b','); let (_, b) = self.tyop(p, f); p.expect(b','); let mt = self.ty(p); let c = self.cst(p, mt); let n = self.wl(t).1;
                let mask = match self.cst_v(c, mt) { V::A(v) => v.iter().map(|x| if let V::C(x) = x { *x as u32 } else { 0 }).collect::<Vec<_>>(), _ => p.fail("mask") };
                out.push(I::Shuffle { d, a, b, mask: mask.into_boxed_slice(), n });
            }
            "phi" => { while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn") { p.word(); } let t = self.ty(p); let mut inc = vec![]; loop { p.expect(b'['); let o = self.opnd(p, f, t); p.expect(b','); p.expect(b'%'); let n = p.name(); let b = f.block(&n); p.expect(b']'); inc.push((b, o)); if !p.eat(b',') { break; } if p.peek() == b'!' { break; } } phis.push((d, inc)); }
            "atomicrmw" => { if p.peek_word() == "volatile" { p.word(); } let o = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, x => p.fail(x) }; let (_, q) = self.tyop(p, f); p.expect(b','); let (t, v) = self.tyop(p, f); out.push(I::Rmw { op: o, w: self.types.width(t), d, p: q, v }); }
            "cmpxchg" => { while matches!(p.peek_word(), "weak" | "volatile") { p.word(); } let (_, q) = self.tyop(p, f); p.expect(b','); let (t, e) = self.tyop(p, f); p.expect(b','); let (_, n) = self.tyop(p, f); out.push(I::CmpXchg { w: self.types.width(t), d, p: q, e, n }); }
            "fence" => out.push(I::Nop),
            "freeze" => { let (_, a) = self.tyop(p, f); out.push(I::Copy { d, a }); }
            _ => p.fail(&format!("instruction '{}'", op)),
        }
    }
}
impl<'a> P<'a> { fn line_end_paren(&mut self) { let mut d = 0; while self.i < self.s.len() { let c = self.s[self.i]; if c == b'(' { d += 1 } if c == b')' { if d == 0 { break; } d -= 1 } if c == b',' && d == 0 { break; } if c == b'\n' { break; } self.i += 1; } } }
struct FnP { regs: HashMap<String, u32>, nregs: u32, blocks: HashMap<String, u32>, nblocks: u32 }
impl FnP {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.nregs; self.nregs += 1; self.regs.insert(n.to_string(), r); r }
    fn block(&mut self, n: &str) -> u32 { if let Some(&r) = self.blocks.get(n) { return r; } let r = self.nblocks; self.nblocks += 1; self.blocks.insert(n.to_string(), r); r }
}
/// parameter/return attributes before an operand
fn skip_attrs(p: &mut P) {
    loop {
        let c = p.peek();
        if c == b'"' { p.qstr_raw(); if p.eat(b'=') { p.qstr_raw(); } continue; }
        let i0 = p.i; let w = p.peek_word();
        if w.is_empty() { return; }
        let known = matches!(w, "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "signext" | "zeroext" | "inreg" | "returned" | "nofree" | "nest" | "immarg" | "allocptr" | "dead_on_unwind" | "writable" | "swiftself" | "noext" | "dead_on_return" | "nocreateundeforpoison");
        let paren = matches!(w, "align" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "initializes" | "nofpclass" | "elementtype" | "allocalign" | "preallocated" | "inalloca" | "byref" | "dead_on_return");
        if known && !(w == "dead_on_return" ) { p.word(); continue; }
        if paren { p.word(); if p.peek() == b'(' { p.skip_parens(); } else if w == "align" { p.word(); } continue; }
        p.i = i0; return;
    }
}
fn skip_attrs_cc(p: &mut P) {
    loop {
        let w = p.peek_word();
        if matches!(w, "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "x86_64_sysvcc" | "cold" | "win64cc") { p.word(); continue; }
        if w.starts_with("cc") && w.len() > 2 { p.word(); continue; }
        p.ws(); let i0 = p.i; skip_attrs(p); p.ws(); if p.i == i0 { return; }
    }
}
pub fn mask64(x: u64, w: u32) -> u64 { if w >= 64 { x } else { x & ((1u64 << w) - 1) } }
pub fn sext64(x: u64, w: u32) -> i64 { if w >= 64 || w == 0 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) } }
pub fn mask128(x: u128, w: u32) -> u128 { if w >= 128 { x } else { x & ((1u128 << w) - 1) } }
pub fn sext128(x: u128, w: u32) -> i128 { if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) } }
