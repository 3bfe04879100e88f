// Models of external functions, intrinsics and the harness interface.

fn parse_bk(n: &str) -> Bk {
    match n {
        "vp_symbolic" => Bk::Symbolic, "vp_assert" => Bk::Assert, "vp_assume" => Bk::Assume, "vp_cover" => Bk::Cover, "vp_note" => Bk::Note, "vp_file" => Bk::File, "vp_concrete" => Bk::Conc, "vp_allow_panic" => Bk::AllowPanic,
        "vp_debug" => Bk::DebugState, "vp_root" => Bk::Root, "vp_hash_mode" => Bk::HashSet, "vp_hash_get" => Bk::HashGet,
        "malloc" => Bk::Malloc, "calloc" => Bk::Calloc, "realloc" => Bk::Realloc, "free" => Bk::Free, "posix_memalign" => Bk::Memalign,
        "memcpy" | "memmove" => Bk::Memcpy, "memset" => Bk::Memset, "memcmp" => Bk::Memcmp(true), "bcmp" => Bk::Memcmp(false), "strlen" => Bk::Strlen, "memchr" => Bk::MemchrFwd, "memrchr" => Bk::MemchrRev,
        "!panic" => Bk::Panic, "abort" | "llvm.trap" | "llvm.ubsantrap" | "_exit" | "exit" => Bk::Abort,
        "getrandom" => Bk::GetRandom, "statx" => Bk::Statx, "syscall" => Bk::Syscall, "__errno_location" => Bk::Errno,
        "open64" | "open" => Bk::Open, "read" => Bk::Read, "close" => Bk::Close, "lseek64" | "lseek" => Bk::Lseek, "fstat64" | "fstat" => Bk::Fstat, "stat64" | "stat" | "lstat64" => Bk::Stat, "realpath" => Bk::Realpath, "getcwd" => Bk::Getcwd, "getenv" => Bk::Getenv,
        "write" | "writev" => Bk::Write, "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" | "gettid" | "poll" | "signal" | "sigaction" | "pthread_getspecific" | "atexit" => Bk::Zero,
        "pthread_key_create" => Bk::KeyCreate,
        "fmod" | "sin" | "cos" | "tan" | "atan2" | "atan" | "asin" | "acos" | "sqrt" | "exp" | "log" | "pow" | "floor" | "ceil" | "round" | "trunc" | "hypot" | "log10" | "log2" | "cbrt" | "sinh" | "cosh" | "tanh" | "exp_m1" | "expm1" | "log1p" | "rint" | "roundeven" => Bk::Fmath(n.to_string(), 64),
        "fmodf" | "sinf" | "cosf" | "tanf" | "atan2f" | "atanf" | "asinf" | "acosf" | "sqrtf" | "expf" | "logf" | "powf" | "floorf" | "ceilf" | "roundf" | "truncf" | "hypotf" | "log10f" | "rintf" => Bk::Fmath(n[..n.len() - 1].to_string(), 32),
        _ => {
            if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") { return Bk::Memcpy; }
            if n.starts_with("llvm.memset") { return Bk::Memset; }
            if n.starts_with("llvm.threadlocal.address") { return Bk::TlsAddr; }
            if let Some(r) = n.strip_prefix("llvm.") {
                for m in ["sqrt", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven", "sin", "cos", "tan", "exp", "log", "pow", "log10", "log2", "exp2", "atan2", "asin", "acos", "atan", "sinh", "cosh", "tanh"] { for (s, w) in [("f64", 64), ("f32", 32)] { if r == format!("{}.{}", m, s) { return Bk::Fmath(m.to_string(), w); } } }
                return Bk::Intr(r.to_string(), 0);
            }
            Bk::Unknown(n.to_string())
        }
    }
}
/// splits "uadd.with.overflow.i64" / "ctpop.v16i8" / "fptosi.sat.i64.f64" into base, [types]
fn parse_intr(n: &str) -> (String, Vec<(u32, u32, bool)>) {
    let parts: Vec<&str> = n.split('.').collect();
    let mut tys = vec![]; let mut k = parts.len();
    while k > 0 {
        let p = parts[k - 1]; let mut lanes = 0u32; let mut q = p;
        if let Some(r) = p.strip_prefix('v') { let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect(); if !d.is_empty() { lanes = d.parse().unwrap(); q = &r[d.len()..]; } }
        let (f, w) = if q == "p0" { (false, 64) } else if let Some(x) = q.strip_prefix('i') { match x.parse::<u32>() { Ok(w) => (false, w), _ => break } } else if q == "f64" { (true, 64) } else if q == "f32" { (true, 32) } else { break };
        tys.insert(0, (w, lanes, f)); k -= 1;
    }
    (parts[..k].join("."), tys)
}

impl Engine {
    fn bk(&mut self, b: u32) -> Bk { let i = b as usize; if self.bks.len() <= i { self.bks.resize(i + 1, None); } if self.bks[i].is_none() { let k = parse_bk(&self.m.builtins[i]); self.bks[i] = Some(k); } self.bks[i].clone().unwrap() }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> Result<u64, String> {
        let al = align.max(16);
        let a = (st.heap + 16 + al - 1) / al * al;
        if size > 0x2000_0000 { return Err(format!("allocation of {} bytes", size)); }
        st.heap = a + size;
        if st.heap > 0x3_0000_0000 { return Err("symbolic heap exhausted".into()); }
        st.mem.store64(a - 8, 8, size).map_err(|_| "alloc".to_string())?;
        Ok(a)
    }
    fn setd(st: &mut State, d: u32, v: V) { if d != u32::MAX { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; } }
    /// one term: n bytes at p equal n bytes at q
    fn bytes_eq(&mut self, st: &State, p: u64, q: u64, n: u64) -> E {
        let mut acc = self.ex.cst(1, 1);
        for i in 0..n { let (a, sa) = st.mem.get(p + i); let (b, sb) = st.mem.get(q + i);
            if sa == 0 && sb == 0 { if a != b { return self.ex.cst(0, 1); } continue; }
            let ea = if sa != 0 { sa } else { self.ex.cst(a as u128, 8) }; let eb = if sb != 0 { sb } else { self.ex.cst(b as u128, 8) };
            let e = self.ex.eq(ea, eb); acc = self.ex.bin(Op::And, acc, e); if self.ex.is_const(acc) == Some(0) { return acc; } }
        acc
    }
    fn rd_bytes(&self, st: &State, p: u64, n: u64) -> Vec<u8> { (0..n).map(|i| { let (b, s) = st.mem.get(p + i); if s != 0 { b'?' } else { b } }).collect() }
    fn cstr(&self, st: &State, p: u64) -> Vec<u8> { let mut v = vec![]; let mut i = 0; loop { let b = st.mem.get(p + i).0; if b == 0 || i > 4096 { break; } v.push(b); i += 1; } v }
    fn norm_path(p: &[u8]) -> Vec<u8> { let s = String::from_utf8_lossy(p).into_owned(); let mut out: Vec<&str> = vec![]; for c in s.split('/') { match c { "" | "." => {} ".." => { out.pop(); } x => out.push(x) } } format!("/{}", out.join("/")).into_bytes() }
    fn errno(&mut self, st: &mut State, e: u64) -> Result<(), String> { st.mem.store64(ERRNO_ADDR, 4, e).map_err(|_| "errno".to_string()) }

    fn builtin(&mut self, st: &mut State, b: u32, d: u32, args: &[Opnd], rw: u32) -> Result<Flow, String> {
        let k = self.bk(b);
        macro_rules! v { ($i:expr) => { Self::rd(st.frames.last().unwrap(), &args[$i]) } }
        macro_rules! c { ($i:expr) => { match &args[$i] { Opnd::C(x) => *x, o => { let o = o.clone(); match self.conc(st, &o, 300)? { Some(x) => x, None => return Ok(Flow::Redo) } } } } }
        macro_rules! m { ($e:expr) => { match $e { Ok(x) => x, Err(Fault(a)) => return Ok(Flow::End(self.violate(st, "memory", format!("access to address {:#x}", a), String::new()))) } } }
        macro_rules! ret { ($v:expr) => {{ let q = $v; Self::setd(st, d, q); return Ok(Flow::Next); }} }
        match k {
            Bk::Symbolic => { let (p, n) = (c!(0), c!(1));
                for i in 0..n { let id = st.nvars; if id >= 128 { return Err("more than 128 symbolic bytes".into()); } st.nvars += 1; Rc::make_mut(&mut st.dom).push(FULL); let fill = *self.fixed_input.get(id as usize).unwrap_or(&0); Rc::make_mut(&mut st.model).push(fill);
                    if self.concrete { m!(st.mem.set(p + i, fill, 0)); } else { let e = self.ex.var(id); m!(st.mem.set(p + i, 0, e)); } }
                self.next_model += 1; st.model_id = self.next_model; return Ok(Flow::Next); }
            Bk::Assume => { let x = v!(0); match x { V::C(q) => return Ok(if q & 1 == 1 { Flow::Next } else { Flow::End(End::Assumed) }), V::S(e) => { let e = self.ex.extract(e, 0, 0); return Ok(if self.assume(st, e)? { Flow::Next } else { Flow::End(End::Assumed) }); } _ => return Err("assume".into()) } }
            Bk::Assert => { // (cond, id, msg ptr, msg len)
                let id = c!(1) as u32; let (mp, ml) = (c!(2), c!(3)); let x = v!(0);
                self.st.asserts += 1; *self.assert_ids.entry(id).or_insert(0) += 1;
                let msg = String::from_utf8_lossy(&self.rd_bytes(st, mp, ml)).into_owned();
                match x { V::C(q) => { self.st.assert_struct += 1; if q & 1 == 1 { return Ok(Flow::Next); } self.violate(st, "assert", msg, format!("#{}", id)); return Ok(Flow::End(End::Violated)); }
                    V::S(e) => { let e = self.ex.extract(e, 0, 0); self.st.assert_z3 += 1; let ne = self.ex.not(e);
                        match self.z3_query(st, &[ne])? { None => { self.add(st, e); if self.eval(st, e) != 1 { return Err("internal: model contradicts proved assertion".into()); } return Ok(Flow::Next); }
                            Some(mm) => { let mut s = self.fork(st); self.set_model(&mut s, &mm); self.add(&mut s, ne); self.violate(&s, "assert", msg, format!("#{}", id));
                                // continue on the side that satisfies it
                                if self.assume(st, e)? { return Ok(Flow::Next); } return Ok(Flow::End(End::Violated)); } } }
                    _ => return Err("assert operand".into()) } }
            Bk::Cover => { let id = c!(0) as u32; let e = self.covers.entry(id).or_insert((0, vec![])); e.0 += 1; if e.1.is_empty() { e.1 = (*st.model).clone(); } return Ok(Flow::Next); }
            Bk::Note => { let (p, n) = (c!(0), c!(1)); let mut vs = vec![]; for i in 0..n.min(400) { let (b, s) = st.mem.get(p + i); vs.push(if s != 0 { V::S(s) } else { V::C(b as u64) }); } Rc::make_mut(&mut st.notes).push((0, vs)); return Ok(Flow::Next); }
            Bk::File => { let (p, n, q, l) = (c!(0), c!(1), c!(2), c!(3)); let name = Self::norm_path(&self.rd_bytes(st, p, n)); let a = self.alloc(st, l, 16)?; m!(st.mem.copy(a, q, l)); let f = Rc::make_mut(&mut st.files); f.retain(|x| x.0 != name); f.push((name, a, l)); return Ok(Flow::Next); }
            Bk::Statx => { self.errno(st, 38)?; ret!(V::C(mask64(u64::MAX, rw.max(1)))); }
            Bk::Root => { let (p, _) = (c!(0), c!(1)); m!(st.mem.write(p, b"/vpfs")); ret!(V::C(5)); }
            Bk::HashSet => { st.hash_mode = c!(0); return Ok(Flow::Next); }
            Bk::HashGet => { let h = st.hash_mode; ret!(V::C(h)); }
            Bk::Conc => { let x = c!(0); ret!(V::C(x)); }
            Bk::AllowPanic => { st.allowed_panic = c!(0) != 0; return Ok(Flow::Next); }
            Bk::DebugState => { let x = v!(0); if let V::S(e) = x { eprintln!("vp_debug: {}", self.ex.show(e, 8)); } else { eprintln!("vp_debug: {:?}", x); } return Ok(Flow::Next); }
            Bk::Malloc => { let n = c!(0); let a = self.alloc(st, n, 16)?; ret!(V::C(a)); }
            Bk::Calloc => { let n = c!(0) * c!(1); let a = self.alloc(st, n, 16)?; ret!(V::C(a)); } // fresh heap is zero
            Bk::Memalign => { let (pp, al, n) = (c!(0), c!(1), c!(2)); let a = self.alloc(st, n, al)?; m!(st.mem.store64(pp, 8, a)); ret!(V::C(0)); }
            Bk::Realloc => { let (p, n) = (c!(0), c!(1)); if p == 0 { let a = self.alloc(st, n, 16)?; ret!(V::C(a)); } let old = st.mem.load64(p - 8, 8).unwrap_or(0); if n <= old { ret!(V::C(p)); }
                if p + old == st.heap && n < 0x2000_0000 { st.heap = p + n; m!(st.mem.store64(p - 8, 8, n)); ret!(V::C(p)); }
                let a = self.alloc(st, n, 16)?; m!(st.mem.copy(a, p, old.min(n))); ret!(V::C(a)); }
            Bk::Free => { return Ok(Flow::Next); }
            Bk::Memcpy => { let n = c!(2); let (p, q) = (c!(0), c!(1)); if n > 0x1000_0000 { return Err("huge memcpy".into()); } m!(st.mem.copy(p, q, n)); if d != u32::MAX { ret!(V::C(p)); } return Ok(Flow::Next); }
            Bk::Memset => { let n = c!(2); let p = c!(0); let x = v!(1); if n > 0x1000_0000 { return Err("huge memset".into()); }
                match x { V::C(z) => { let buf = vec![z as u8; n as usize]; m!(st.mem.write(p, &buf)); } V::S(e) => { let e = self.ex.extract(e, 7, 0); for i in 0..n { m!(st.mem.set(p + i, 0, e)); } } _ => return Err("memset".into()) } if d != u32::MAX { ret!(V::C(p)); } return Ok(Flow::Next); }
            Bk::Memcmp(ord) => { let n = c!(2); let (p, q) = (c!(0), c!(1));
                if !ord { let e = self.bytes_eq(st, p, q, n); let z = self.ex.not(e); let r = self.ex.zext(z, rw); let v = self.fv(r); ret!(v); }
                let mut cur = self.ex.cst(0, 32);
                let mut i = n; while i > 0 { i -= 1; let (a, sa) = st.mem.get(p + i); let (b2, sb) = st.mem.get(q + i); if sa == 0 && sb == 0 { if a != b2 { cur = self.ex.cst(if a < b2 { 0xffff_ffff } else { 1 }, 32); } continue; }
                    let ea = if sa != 0 { sa } else { self.ex.cst(a as u128, 8) }; let eb = if sb != 0 { sb } else { self.ex.cst(b2 as u128, 8) };
                    let eq = self.ex.eq(ea, eb); let lt = self.ex.cmp(Op::Ult, ea, eb); let m1 = self.ex.cst(0xffff_ffff, 32); let p1 = self.ex.cst(1, 32); let ne = self.ex.ite(lt, m1, p1); cur = self.ex.ite(eq, cur, ne); }
                let v = self.fv(cur); ret!(v); }
            Bk::Strlen => { let p = c!(0); let mut i = 0; loop { let (b2, s) = st.mem.get(p + i); if s != 0 { return Err("strlen of symbolic".into()); } if b2 == 0 { break; } i += 1; } ret!(V::C(i)); }
            Bk::MemchrFwd | Bk::MemchrRev => return Err("memchr".into()),
            Bk::Panic => {
                if st.allowed_panic { return Ok(Flow::End(End::Assumed)); }
                let mut loc = String::from("?");
                for i in (0..args.len()).rev() { if let V::C(p) = v!(i) { if p > 4096 && p < self.m.gend { let l = self.cstr_loc(st, p); if l != "?" && l.contains(".rs") { loc = l; break; } } } }
                return Ok(Flow::End(self.violate(st, "panic", "the code panics".into(), loc)));
            }
            Bk::Abort => { return Ok(Flow::End(self.violate(st, "abort", "the code aborts".into(), String::new()))); }
            Bk::GetRandom => { let (p, n) = (c!(0), c!(1)); let buf: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect(); m!(st.mem.write(p, &buf)); ret!(V::C(n)); }
            Bk::Syscall => { let nr = c!(0); match nr { 318 => { let (p, n) = (c!(1), c!(2)); let buf: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect(); m!(st.mem.write(p, &buf)); ret!(V::C(n)); }
                332 => { self.errno(st, 38)?; ret!(V::C(mask64(u64::MAX, rw.max(1)))); } // statx: not available, callers fall back
                202 => ret!(V::C(0)), 186 => ret!(V::C(1)), x => return Err(format!("syscall {}", x)) } }
            Bk::Errno => ret!(V::C(ERRNO_ADDR)),
            Bk::Zero | Bk::IgnoreUnit => { ret!(V::C(0)); }
            Bk::KeyCreate => { let p = c!(0); let kk = st.heap; let _ = kk; m!(st.mem.store64(p, 4, 7)); ret!(V::C(0)); }
            Bk::Open => { let p = c!(0); let name = Self::norm_path(&self.cstr(st, p)); match st.files.iter().position(|f| f.0 == name) { Some(i) => { let fds = Rc::make_mut(&mut st.fds); fds.push((i, 0)); let fd = 99 + fds.len() as u64; ret!(V::C(fd)); } None => { self.errno(st, 2)?; ret!(V::C(0xffff_ffff)); } } }
            Bk::Read => { let (fd, p, n) = (c!(0), c!(1), c!(2)); let i = (fd as usize).wrapping_sub(100); if i >= st.fds.len() { return Err(format!("read from fd {}", fd)); } let (fi, pos) = st.fds[i]; let (_, a, l) = st.files[fi].clone(); let k = n.min(l - pos); m!(st.mem.copy(p, a + pos, k)); Rc::make_mut(&mut st.fds)[i].1 += k; ret!(V::C(k)); }
            Bk::Lseek => { let (fd, off, wh) = (c!(0), c!(1), c!(2)); let i = (fd as usize).wrapping_sub(100); if i >= st.fds.len() { return Err("lseek".into()); } let (fi, pos) = st.fds[i]; let l = st.files[fi].2; let np = match wh { 0 => off, 1 => pos.wrapping_add(off), _ => l.wrapping_add(off) }; Rc::make_mut(&mut st.fds)[i].1 = np; ret!(V::C(np)); }
            Bk::Fstat | Bk::Stat => { self.fstat(st, &k, d, args) .map(|_| ())?; return Ok(Flow::Next); }
            Bk::Close => { ret!(V::C(0)); }
            Bk::Realpath => { let (p, out) = (c!(0), c!(1)); let name = Self::norm_path(&self.cstr(st, p)); let known = st.files.iter().any(|f| f.0 == name || (f.0.starts_with(&name) && f.0.get(name.len()) == Some(&b'/'))); if !known { self.errno(st, 2)?; ret!(V::C(0)); } let a = if out == 0 { self.alloc(st, name.len() as u64 + 1, 16)? } else { out }; m!(st.mem.write(a, &name)); m!(st.mem.set(a + name.len() as u64, 0, 0)); ret!(V::C(a)); }
            Bk::Getcwd => { let (p, n) = (c!(0), c!(1)); let s = b"/vpfs\0"; if n < s.len() as u64 { self.errno(st, 34)?; ret!(V::C(0)); } m!(st.mem.write(p, s)); ret!(V::C(p)); }
            Bk::Getenv => ret!(V::C(0)),
            Bk::Write => { let n = if args.len() > 2 { c!(2) } else { 0 }; ret!(V::C(n)); }
            Bk::CxaAtexit => ret!(V::C(0)),
            Bk::TlsAddr => { let x = v!(0); ret!(x); }
            Bk::Mmap => return Err("mmap".into()),
            Bk::Fmath(n, w) => { let v = self.fmath(st, &n, w, args)?; ret!(v); }
            Bk::Intr(n, _) => { let v = match self.intr(st, &n, d, args, rw)? { Some(v) => v, None => return Ok(Flow::Next) }; ret!(v); }
            Bk::Unknown(n) => Err(format!("call to unmodelled external {}", n)),
        }
    }
    fn fstat(&mut self, st: &mut State, k: &Bk, d: u32, args: &[Opnd]) -> Result<(), String> {
        let a0 = match Self::rd(st.frames.last().unwrap(), &args[0]) { V::C(x) => x, _ => return Err("stat arg".into()) };
        let buf = match Self::rd(st.frames.last().unwrap(), &args[1]) { V::C(x) => x, _ => return Err("stat arg".into()) };
        let ent: Option<(bool, u64)> = if matches!(k, Bk::Fstat) { let i = (a0 as usize).wrapping_sub(100); st.fds.get(i).map(|f| (false, st.files[f.0].2)) } else { let name = Self::norm_path(&self.cstr(st, a0)); match st.files.iter().find(|f| f.0 == name) { Some(f) => Some((false, f.2)), None => if st.files.iter().any(|f| f.0.starts_with(&name) && f.0.get(name.len()) == Some(&b'/')) { Some((true, 4096)) } else { None } } };
        match ent { Some((dir, l)) => { let mut b = [0u8; 144]; let mode: u32 = if dir { 0o040755 } else { 0o100644 }; b[24..28].copy_from_slice(&mode.to_le_bytes()); b[48..56].copy_from_slice(&l.to_le_bytes()); st.mem.write(buf, &b).map_err(|_| "stat".to_string())?; Self::setd(st, d, V::C(0)); } None => { self.errno(st, 2)?; Self::setd(st, d, V::C(0xffff_ffff)); } }
        Ok(())
    }
    fn fmath(&mut self, st: &mut State, n: &str, w: u32, args: &[Opnd]) -> Result<V, String> {
        let xs: Vec<V> = args.iter().map(|a| Self::rd(st.frames.last().unwrap(), a)).collect();
        if xs.iter().all(|x| matches!(x, V::C(_))) {
            let f = |x: &V| -> f64 { if let V::C(c) = x { if w == 64 { f64::from_bits(*c) } else { f32::from_bits(*c as u32) as f64 } } else { 0.0 } };
            let a = f(&xs[0]); let b = if xs.len() > 1 { f(&xs[1]) } else { 0.0 };
            let r = match n { "fmod" => a % b, "sin" => a.sin(), "cos" => a.cos(), "tan" => a.tan(), "atan2" => a.atan2(b), "atan" => a.atan(), "asin" => a.asin(), "acos" => a.acos(), "sqrt" => a.sqrt(), "exp" => a.exp(), "log" => a.ln(), "pow" => a.powf(b), "floor" => a.floor(), "ceil" => a.ceil(), "round" => a.round(), "trunc" => a.trunc(), "hypot" => a.hypot(b), "log10" => a.log10(), "log2" => a.log2(), "cbrt" => a.cbrt(), "sinh" => a.sinh(), "cosh" => a.cosh(), "tanh" => a.tanh(), "rint" | "nearbyint" | "roundeven" => a.round_ties_even(), "exp_m1" | "expm1" => a.exp_m1(), "log1p" => a.ln_1p(), "exp2" => a.exp2(), _ => return Err(format!("libm {}", n)) };
            return Ok(V::C(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 }));
        }
        let e = self.exof(&xs[0], w);
        let op = match n { "sqrt" => Op::FSqrt, "floor" => Op::FFloor, "ceil" => Op::FCeil, "trunc" => Op::FTrunc, "round" => Op::FRound, "rint" | "nearbyint" | "roundeven" => Op::FRint, _ => return Err(format!("symbolic argument of libm {}", n)) };
        let r = self.ex.un(op, e, w); Ok(self.fv(r))
    }
    fn intr(&mut self, st: &mut State, n: &str, _d: u32, args: &[Opnd], rw: u32) -> Result<Option<V>, String> {
        let (base, tys) = match self.intr_cache.get(n) { Some(x) => x.clone(), None => { let x = parse_intr(n); self.intr_cache.insert(n.to_string(), x.clone()); x } };
        let (w, lanes, isf) = tys.first().copied().unwrap_or((rw, 0, false));
        let a: Vec<V> = args.iter().map(|o| Self::rd(st.frames.last().unwrap(), o)).collect();
        match base.as_str() {
            "is.constant" => return Ok(Some(V::C(0))),
            "expect" | "expect.with.probability" | "ssa.copy" | "launder.invariant.group" | "strip.invariant.group" | "ptr.annotation" | "annotation" | "arithmetic.fence" => return Ok(Some(a[0].clone())),
            "lifetime.start" | "lifetime.end" | "assume" | "donothing" | "sideeffect" | "va_start" | "va_end" => return Ok(None),
            "stacksave" => return Ok(Some(V::C(st.sp))), "stackrestore" => return Ok(None),
            "objectsize" => return Ok(Some(V::C(u64::MAX))), "returnaddress" | "frameaddress" => return Ok(Some(V::C(0))),
            "ptrmask" => return Ok(Some(self.bin1(Bop::And, 64, &a[0], &a[1])?)),
            _ => {}
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let vs = match &a[0] { V::A(v) => v.clone(), _ => return Err("reduce".into()) };
            if r == "fadd" || r == "fmul" { return Err("vector fp reduce".into()); }
            let mut acc = vs[0].clone(); for x in vs.iter().skip(1) { acc = match r { "or" => self.bin1(Bop::Or, w, &acc, x)?, "and" => self.bin1(Bop::And, w, &acc, x)?, "xor" => self.bin1(Bop::Xor, w, &acc, x)?, "add" => self.bin1(Bop::Add, w, &acc, x)?, "mul" => self.bin1(Bop::Mul, w, &acc, x)?, "umax" | "umin" | "smax" | "smin" => self.intr1(r, w, &[acc, x.clone()], &tys)?, _ => return Err(format!("llvm.vector.reduce.{}", r)) }; }
            return Ok(Some(acc));
        }
        if lanes > 0 { let mut o = vec![]; for k in 0..lanes as usize { let l: Vec<V> = a.iter().map(|x| match x { V::A(v) => v[k].clone(), y => y.clone() }).collect(); o.push(if isf { self.fintr1(&base, w, &l)? } else { self.intr1(&base, w, &l, &tys)? }); }
            if base.ends_with("with.overflow") { return Err("vector overflow intrinsic".into()); }
            return Ok(Some(V::A(Rc::new(o)))); }
        // no overflow possible by the ranges of the operands
        if w <= 64 && base.ends_with("with.overflow") && !base.contains("sub") && (matches!(a[0], V::S(_)) || matches!(a[1], V::S(_))) {
            let (x, y) = (self.exof(&a[0], w), self.exof(&a[1], w)); let mut memo = HashMap::new();
            let (ix, iy) = (self.ex.interval(x, &st.dom, &mut memo).1, self.ex.interval(y, &st.dom, &mut memo).1);
            let top = if base.starts_with('s') { 1u128 << (w - 1) } else { 1u128 << w };
            let mul = base.contains("mul"); let r = if mul { ix.checked_mul(iy).unwrap_or(u128::MAX) } else { ix + iy };
            if ix < top && iy < top && r < top { let v = self.bin1(if mul { Bop::Mul } else { Bop::Add }, w, &a[0], &a[1])?; return Ok(Some(V::A(Rc::new(vec![v, V::C(0)])))); }
        }
        // lengths and offsets: choose a side instead of building a conditional term
        if w == 64 && !isf && matches!(base.as_str(), "umin" | "umax" | "smin" | "smax" | "usub.sat") && (matches!(a[0], V::S(_)) || matches!(a[1], V::S(_))) {
            let p = match base.as_str() { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, "smax" => Pred::Sgt, _ => Pred::Ult };
            let c = self.icmp1(p, 64, &a[0], &a[1]);
            let t = match c { V::C(x) => x == 1, V::S(e) => self.decide(st, e)?, _ => unreachable!() };
            return Ok(Some(if base == "usub.sat" { if t { V::C(0) } else { self.bin1(Bop::Sub, 64, &a[0], &a[1])? } } else if t { a[0].clone() } else { a[1].clone() }));
        }
        Ok(Some(if isf && !base.starts_with("fpto") { self.fintr1(&base, w, &a)? } else { self.intr1(&base, w, &a, &tys)? }))
    }
    fn fintr1(&mut self, base: &str, w: u32, a: &[V]) -> Result<V, String> {
        match base {
            "fabs" => { let m = V::C(mask64(u64::MAX, w) >> 1); self.bin1(Bop::And, w, &a[0], &m) }
            "copysign" => { let lo = V::C(mask64(u64::MAX, w) >> 1); let hi = V::C(1u64 << (w - 1)); let x = self.bin1(Bop::And, w, &a[0], &lo)?; let y = self.bin1(Bop::And, w, &a[1], &hi)?; self.bin1(Bop::Or, w, &x, &y) }
            "fmuladd" | "fma" => { if let (V::C(x), V::C(y), V::C(z), "fma") = (&a[0], &a[1], &a[2], base) { return Ok(if w == 64 { V::C(f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z)).to_bits()) } else { V::C(f32::from_bits(*x as u32).mul_add(f32::from_bits(*y as u32), f32::from_bits(*z as u32)).to_bits() as u64) }); } if base == "fma" { return Err("symbolic fma".into()); } let t = self.bin1(Bop::FMul, w, &a[0], &a[1])?; self.bin1(Bop::FAdd, w, &t, &a[2]) }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let lt = self.fcmp1(FPred::Olt, w, &a[0], &a[1]); let un0 = self.fcmp1(FPred::Uno, w, &a[0], &a[0]); let un1 = self.fcmp1(FPred::Uno, w, &a[1], &a[1]);
                let (x, y) = if base.starts_with("min") { (&a[0], &a[1]) } else { (&a[1], &a[0]) };
                let r = self.sel1(&lt, x, y, w); let r = self.sel1(&un0, &a[1], &r, w); Ok(self.sel1(&un1, &a[0], &r, w)) }
            _ => Err(format!("intrinsic llvm.{} (fp)", base)),
        }
    }
    fn sel1(&mut self, c: &V, a: &V, b: &V, w: u32) -> V { match c { V::C(1) => a.clone(), V::C(_) => b.clone(), V::S(e) => { let (x, y) = (self.exof(a, w), self.exof(b, w)); let r = self.ex.ite(*e, x, y); self.fv(r) } _ => unreachable!() } }
    fn intr1(&mut self, base: &str, w: u32, a: &[V], tys: &[(u32, u32, bool)]) -> Result<V, String> {
        let cc = |i: usize| -> Option<u128> { a.get(i).and_then(Self::c128) };
        let allc = a.iter().all(|x| Self::c128(x).is_some());
        match base {
            "umin" | "umax" | "smin" | "smax" => { let p = match base { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt }; let c = self.icmp1w(p, w, &a[0], &a[1]); Ok(self.sel1(&c, &a[0], &a[1], w)) }
            "abs" => { let z = Self::mkv(0, w); let n = self.bin1(Bop::Sub, w, &z, &a[0])?; let c = self.icmp1w(Pred::Slt, w, &a[0], &z); Ok(self.sel1(&c, &n, &a[0], w)) }
            "ucmp" | "scmp" => { // result width is the first type, operand width the second
                let (rw, ow) = (tys[0].0, tys[1].0); let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp1w(lt, ow, &a[0], &a[1]); let g = self.icmp1w(gt, ow, &a[0], &a[1]); let m1 = Self::mkv(u128::MAX, rw); let one = Self::mkv(1, rw); let zero = Self::mkv(0, rw);
                let r = self.sel1(&g, &one, &zero, rw); Ok(self.sel1(&l, &m1, &r, rw)) }
            "uadd.sat" => { let s = self.bin1(Bop::Add, w, &a[0], &a[1])?; let c = self.icmp1w(Pred::Ult, w, &s, &a[0]); let mx = Self::mkv(u128::MAX, w); Ok(self.sel1(&c, &mx, &s, w)) }
            "usub.sat" => { let s = self.bin1(Bop::Sub, w, &a[0], &a[1])?; let c = self.icmp1w(Pred::Ult, w, &a[0], &a[1]); let z = Self::mkv(0, w); Ok(self.sel1(&c, &z, &s, w)) }
            "sadd.sat" | "ssub.sat" => { if w > 64 { return Err(base.into()); } let op = if base.starts_with("sadd") { Bop::Add } else { Bop::Sub }; let x = self.cast1(Cast::SExt, w, 128.min(w * 2), &a[0]); let y = self.cast1(Cast::SExt, w, 128.min(w * 2), &a[1]); let w2 = w * 2; let s = self.bin1(op, w2, &x, &y)?; let mx = Self::mkv((1u128 << (w - 1)) - 1, w2); let mn = Self::mkv(!((1u128 << (w - 1)) - 1), w2); let hi = self.icmp1w(Pred::Sgt, w2, &s, &mx); let s = self.sel1(&hi, &mx, &s, w2); let lo = self.icmp1w(Pred::Slt, w2, &s, &mn); let s = self.sel1(&lo, &mn, &s, w2); Ok(self.cast1w(Cast::Trunc, w2, w, &s)) }
            "uadd.with.overflow" => { let s = self.bin1(Bop::Add, w, &a[0], &a[1])?; let c = self.icmp1w(Pred::Ult, w, &s, &a[0]); Ok(V::A(Rc::new(vec![s, c]))) }
            "usub.with.overflow" => { let s = self.bin1(Bop::Sub, w, &a[0], &a[1])?; let c = self.icmp1w(Pred::Ult, w, &a[0], &a[1]); Ok(V::A(Rc::new(vec![s, c]))) }
            "sadd.with.overflow" | "ssub.with.overflow" => { let add = base.starts_with("sadd"); let s = self.bin1(if add { Bop::Add } else { Bop::Sub }, w, &a[0], &a[1])?;
                // overflow: sign rule
                let x = self.bin1(Bop::Xor, w, &a[0], &s)?; let y = if add { self.bin1(Bop::Xor, w, &a[1], &s)? } else { self.bin1(Bop::Xor, w, &a[0], &a[1])? }; let z = self.bin1(Bop::And, w, &x, &y)?; let zero = Self::mkv(0, w); let c = self.icmp1w(Pred::Slt, w, &z, &zero); Ok(V::A(Rc::new(vec![s, c]))) }
            "umul.with.overflow" | "smul.with.overflow" => { let sg = base.starts_with('s');
                if allc { let (x, y) = (cc(0).unwrap(), cc(1).unwrap()); if w > 64 { return Err("128-bit multiplication overflow".into()); } let (p, o) = if sg { let (x, y) = (sext128(x, w), sext128(y, w)); let p = x * y; (p as u128, p != sext128(mask128(p as u128, w), w)) } else { let p = x.wrapping_mul(y); (p, p != mask128(p, w)) }; return Ok(V::A(Rc::new(vec![Self::mkv(p, w), V::C(o as u64)]))); }
                if w > 64 { return Err("symbolic 128-bit multiplication overflow".into()); }
                let ext = if sg { Cast::SExt } else { Cast::ZExt }; let w2 = w * 2; let x = self.cast1w(ext, w, w2, &a[0]); let y = self.cast1w(ext, w, w2, &a[1]); let p = self.bin1(Bop::Mul, w2, &x, &y)?; let lo = self.cast1w(Cast::Trunc, w2, w, &p); let s = self.bin1(Bop::Mul, w, &a[0], &a[1])?; let back = self.cast1w(ext, w, w2, &lo); let c = self.icmp1w(Pred::Ne, w2, &p, &back);
                Ok(V::A(Rc::new(vec![s, c]))) }
            "ctpop" => { if let Some(x) = cc(0) { return Ok(Self::mkv(x.count_ones() as u128, w)); } let e = self.exof(&a[0], w); let mut acc = self.ex.cst(0, w); for i in 0..w { let b = self.ex.extract(e, i, i); let z = self.ex.zext(b, w); acc = self.ex.bin(Op::Add, acc, z); } Ok(self.fv(acc)) }
            "cttz" | "ctlz" => { if let Some(x) = cc(0) { let r = if x == 0 { w } else if base == "cttz" { x.trailing_zeros() } else { x.leading_zeros() - (128 - w) }; return Ok(Self::mkv(r as u128, w)); }
                let e = self.exof(&a[0], w); let mut r = self.ex.cst(w as u128, w);
                let order: Vec<u32> = if base == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                for i in order { let b = self.ex.extract(e, i, i); let kk = self.ex.cst(if base == "cttz" { i } else { w - 1 - i } as u128, w); r = self.ex.ite(b, kk, r); } Ok(self.fv(r)) }
            "bswap" => { if let Some(x) = cc(0) { return Ok(Self::mkv(x.swap_bytes() >> (128 - w), w)); } let e = self.exof(&a[0], w); let mut r: Option<E> = None; for i in 0..w / 8 { let b = self.ex.extract(e, 8 * i + 7, 8 * i); r = Some(match r { None => b, Some(h) => self.ex.concat(h, b) }); } Ok(self.fv(r.unwrap())) }
            "bitreverse" => { if let Some(x) = cc(0) { return Ok(Self::mkv(x.reverse_bits() >> (128 - w), w)); } let e = self.exof(&a[0], w); let mut r: Option<E> = None; for i in 0..w { let b = self.ex.extract(e, i, i); r = Some(match r { None => b, Some(h) => self.ex.concat(h, b) }); } Ok(self.fv(r.unwrap())) }
            "fshl" | "fshr" => { if w > 64 { return Err("wide funnel shift".into()); } let s = match cc(2) { Some(s) => (s % w as u128) as u32, None => return self.fsh_sym(base, w, a) }; if s == 0 { return Ok(if base == "fshl" { a[0].clone() } else { a[1].clone() }); } let l = if base == "fshl" { s } else { w - s }; let k1 = Self::mkv(l as u128, w); let k2 = Self::mkv((w - l) as u128, w); let x = self.bin1(Bop::Shl, w, &a[0], &k1)?; let y = self.bin1(Bop::LShr, w, &a[1], &k2)?; self.bin1(Bop::Or, w, &x, &y) }
            "fptosi.sat" | "fptoui.sat" => { let (tw, fw) = (tys[0].0, tys[1].0); let sg = base == "fptosi.sat";
                if let Some(x) = cc(0) { let f = if fw == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 }; let r: u128 = if sg { let (mn, mx) = (-(1i128 << (tw - 1)), (1i128 << (tw - 1)) - 1); (f as i128).clamp(mn, mx) as u128 } else { (f as u128).min(mask128(u128::MAX, tw)) }; return Ok(Self::mkv(r, tw)); }
                let e = self.exof(&a[0], fw); let fb = |x: f64| -> u128 { if fw == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 } };
                let (lo, hi) = if sg { (-(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1)) } else { (0.0, 2f64.powi(tw as i32)) };
                let lov = if sg { 1u128 << (tw - 1) } else { 0 }; let hiv = if sg { (1u128 << (tw - 1)) - 1 } else { mask128(u128::MAX, tw) };
                let conv = self.ex.un(if sg { Op::FpToSi } else { Op::FpToUi }, e, tw);
                let kh = self.ex.cst(fb(hi), fw); let kl = self.ex.cst(fb(lo), fw);
                let ge = self.ex.fcmp(Op::FLe, kh, e); let lt = self.ex.fcmp(Op::FLt, e, kl); let nn = self.ex.fcmp(Op::FEq, e, e);
                let h = self.ex.cst(hiv, tw); let l = self.ex.cst(lov, tw); let z = self.ex.cst(0, tw);
                let r = self.ex.ite(ge, h, conv); let r = self.ex.ite(lt, l, r); let r = self.ex.ite(nn, r, z); Ok(self.fv(r)) }
            _ => Err(format!("intrinsic llvm.{}", base)),
        }
    }
    /// choose a side of a condition; the other feasible side is queued and re-executes the instruction
    fn decide(&mut self, st: &mut State, e: E) -> Result<bool, String> {
        let cur = self.eval(st, e) == 1; let ne = self.ex.not(e);
        let (here, other) = if cur { (e, ne) } else { (ne, e) };
        if let Some(m) = self.solve(st, other)? { let mut s = self.fork(st); self.set_model(&mut s, &m); self.add(&mut s, other); self.work.push(s); self.add(st, here); }
        Ok(cur)
    }
    fn fsh_sym(&mut self, base: &str, w: u32, a: &[V]) -> Result<V, String> { let wv = Self::mkv(w as u128, w); let s = self.bin1(Bop::URem, w, &a[2], &wv)?; let inv = self.bin1(Bop::Sub, w, &wv, &s)?; let z = Self::mkv(0, w); let is0 = self.icmp1w(Pred::Eq, w, &s, &z);
        let (x, y) = if base == "fshl" { (self.bin1(Bop::Shl, w, &a[0], &s)?, self.bin1(Bop::LShr, w, &a[1], &inv)?) } else { (self.bin1(Bop::Shl, w, &a[0], &inv)?, self.bin1(Bop::LShr, w, &a[1], &s)?) }; let o = self.bin1(Bop::Or, w, &x, &y)?; Ok(self.sel1(&is0, if base == "fshl" { &a[0] } else { &a[1] }, &o, w)) }
    /// comparison that also handles wide concrete operands
    fn icmp1w(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V { self.icmp1(p, w, a, b) }
    fn cast1w(&mut self, op: Cast, fw: u32, tw: u32, a: &V) -> V { if let Some(x) = Self::c128(a) { return match op { Cast::Trunc | Cast::ZExt => Self::mkv(x, tw), Cast::SExt => Self::mkv(sext128(x, fw) as u128, tw), _ => self.cast1(op, fw, tw, a) }; } self.cast1(op, fw, tw, a) }
}
pub const ERRNO_ADDR: u64 = 0x10000;
