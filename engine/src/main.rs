//! vpsym: symbolic execution of LLVM IR with z3.
//!   vpsym IR.ll --out DIR --harness a,b,c [--max-time S] [--workers N] [--max-steps N] [--concrete HEX] [--trace] [--forks]
//! Writes one part file per worker process: DIR/<harness>.<pid>.json
mod arith; mod exec; mod expr; mod ir; mod mem; mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::{Duration, Instant};
extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn _exit(c: i32) -> !; fn getpid() -> i32; fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32; }

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

fn report(e: &Engine, h: &str, wall: f64, extra_incomplete: &[String]) -> String {
    let s = &e.st;
    let mut o = String::new();
    o.push_str(&format!("{{\"harness\":{},\"wall\":{:.3},\"z3\":{},", esc(h), wall, esc(&z3::Z3::version())));
    o.push_str(&format!("\"paths\":{},\"done\":{},\"assumed\":{},\"violated\":{},\"instrs\":{},\"forks\":{},\"dom_decided\":{},\"iv_decided\":{},\"z3_calls\":{},\"z3_time\":{:.3},\"z3_sat\":{},\"z3_unsat\":{},\"cache_hits\":{},\"asserts\":{},\"assert_z3\":{},\"assert_folded\":{},\"max_forks\":{},\"max_path_instrs\":{},", s.paths, s.done, s.assumed, s.violated, s.instrs, s.forks, s.dom_decided, s.iv_decided, s.z3_calls, s.z3_time, s.z3_sat, s.z3_unsat, s.cache_hits, s.asserts, s.assert_z3, s.assert_struct, s.max_forks, s.max_path_instrs));
    o.push_str("\"covers\":{"); o.push_str(&e.covers.iter().map(|(k, v)| format!("\"{}\":[{},\"{}\"]", k, v.0, hex(&v.1))).collect::<Vec<_>>().join(",")); o.push_str("},");
    o.push_str("\"assert_ids\":{"); o.push_str(&e.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")); o.push_str("},");
    let mut inc: BTreeMap<String, u64> = e.incomplete.clone(); for x in extra_incomplete { *inc.entry(x.clone()).or_insert(0) += 1; }
    o.push_str("\"incomplete\":{"); o.push_str(&inc.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")); o.push_str("},");
    o.push_str("\"violations\":["); o.push_str(&e.violations.values().map(|(v, n)| format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"input\":\"{}\",\"count\":{},\"trace\":{},\"notes\":{}}}", esc(&v.kind), esc(&v.msg), esc(&v.loc), hex(&v.input), n, list(&v.trace), list(&v.notes))).collect::<Vec<_>>().join(",")); o.push_str("],");
    o.push_str(&format!("\"samples\":{},", list(&e.samples)));
    o.push_str(&format!("\"last_notes\":{},", list(&e.last_notes)));
    o.push_str("\"fork_prof\":{"); let mut fp: Vec<_> = e.fork_prof.iter().collect(); fp.sort_by_key(|x| std::cmp::Reverse(*x.1)); o.push_str(&fp.iter().take(40).map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")); o.push_str("},");
    let mut fs: Vec<String> = e.fexec.iter().map(|i| demangle(&e.m.funcs[*i].name)).filter(|n| n.starts_with("vatsim_parser") || n.contains("vatsim_parser")).collect(); fs.sort(); fs.dedup();
    o.push_str(&format!("\"functions_total\":{},\"functions\":{}}}", e.fexec.len(), list(&fs)));
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut out = String::from("."); let mut hs: Vec<String> = vec![]; let mut max_time = 600.0f64; let mut workers = 8i64; let mut max_steps = 400_000_000u64; let mut concrete: Option<Vec<u8>> = None; let mut trace = false; let mut forks = false; let mut rlimit = 0u32; let mut list_h = false; let mut max_paths = u64::MAX; let mut stop_after = 1e9f64;
    let mut i = 1; while i < a.len() { match a[i].as_str() { "--out" => { i += 1; out = a[i].clone(); } "--harness" => { i += 1; hs = a[i].split(',').map(|s| s.to_string()).collect(); } "--max-time" => { i += 1; max_time = a[i].parse().unwrap(); } "--workers" => { i += 1; workers = a[i].parse().unwrap(); } "--max-steps" => { i += 1; max_steps = a[i].parse().unwrap(); } "--stop-after-violation" => { i += 1; stop_after = a[i].parse().unwrap(); } "--max-paths" => { i += 1; max_paths = a[i].parse().unwrap(); } "--rlimit" => { i += 1; rlimit = a[i].parse().unwrap(); } "--concrete" => { i += 1; concrete = Some((0..a[i].len() / 2).map(|k| u8::from_str_radix(&a[i][2 * k..2 * k + 2], 16).unwrap()).collect()); } "--trace" => trace = true, "--forks" => forks = true, "--list" => list_h = true, x => ll = x.to_string() } i += 1; }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    if list_h { for f in &m.funcs { if f.name.starts_with("h_") && !f.is_decl { println!("{}", f.name); } } return; }
    if trace { eprintln!("loaded {} functions in {:.1}s", m.funcs.len(), t0.elapsed().as_secs_f64()); }
    let free: &AtomicI64 = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const AtomicI64) };
    free.store(workers, Ordering::SeqCst);
    let deadline = t0 + Duration::from_secs_f64(max_time);
    let cfg = Cfg { max_steps, max_paths, deadline, max_viol: 1000, trace, profile: false, dbg_forks: forks };
    let mut eng = Engine::new(m, cfg, rlimit);
    if let Some(c) = concrete { eng.fixed_input = c; eng.concrete = true; }
    let mut kids: Vec<(i32, String)> = vec![]; let mut bad = 0;
    let reap = |kids: &mut Vec<(i32, String)>, bad: &mut i32, all: bool| { let mut k = 0; while k < kids.len() { let mut st = 0i32; let r = unsafe { waitpid(kids[k].0, &mut st, if all { 0 } else { 1 }) }; if r == kids[k].0 { if st != 0 { eprintln!("ENGINE-ERROR: worker for {} ended abnormally (status {:#x})", kids[k].1, st); *bad += 1; std::fs::write(format!("{}/{}.dead{}.json", out, kids[k].1, kids[k].0), format!("{{\"harness\":{},\"incomplete\":{{\"worker died (status {:#x})\":1}}}}", esc(&kids[k].1), st)).unwrap(); } kids.remove(k); } else { k += 1; } } };
    for h in hs {
        loop { if free.fetch_sub(1, Ordering::SeqCst) > 0 { break; } free.fetch_add(1, Ordering::SeqCst); reap(&mut kids, &mut bad, false); std::thread::sleep(Duration::from_millis(5)); }
        let pid = unsafe { fork() };
        if pid != 0 { kids.push((pid, h)); continue; }
        // ---- worker for one harness ----
        unsafe { prctl(1, 9, 0, 0, 0); }
        let th = std::thread::Builder::new().stack_size(2 << 30); // deep term recursion
        let free2: usize = free as *const _ as usize; let out2 = out.clone();
        let e2 = Box::into_raw(Box::new(std::mem::replace(&mut eng, Engine::dummy()))) as usize;
        let j = th.spawn(move || { let eng: &mut Engine = unsafe { &mut *(e2 as *mut Engine) }; let free: &AtomicI64 = unsafe { &*(free2 as *const AtomicI64) }; worker(eng, &h, free, &out2, max_paths, stop_after, t0) }).unwrap();
        let code = j.join().unwrap_or(4);
        unsafe { _exit(code) }
    }
    reap(&mut kids, &mut bad, true);
    if bad > 0 { std::process::exit(4); }
}

fn worker(eng: &mut Engine, h: &str, free: &AtomicI64, out: &str, max_paths: u64, stop_after: f64, t0: Instant) -> i32 {
    let stop: &AtomicI64 = unsafe { &*(free as *const AtomicI64).add(8) };
    let t = Instant::now(); let mut extra: Vec<String> = vec![];
    let mut kids: Vec<i32> = vec![]; let mut forked = false;
    match eng.init_state(h) { Some(s) => { eng.work.push(s); } None => { extra.push(format!("no harness function {}", h)); } }
    let deadline = eng.cfg.deadline;
    {
        let kids = &mut kids; let forked = &mut forked;
        eng.run(|e| {
            if Instant::now() > deadline { if !e.work.is_empty() { *e.incomplete.entry("time limit".into()).or_insert(0) += e.work.len() as u64; e.work.clear(); } return false; }
            if !e.violations.is_empty() && stop.load(Ordering::Relaxed) == 0 { stop.store(((t0.elapsed().as_secs_f64() + stop_after) * 1000.0).max(1.0).min(9e15) as i64, Ordering::Relaxed); }
            let sv = stop.load(Ordering::Relaxed); if sv != 0 && t0.elapsed().as_secs_f64() * 1000.0 > sv as f64 { if !e.work.is_empty() { *e.incomplete.entry("stopped after a violation".into()).or_insert(0) += e.work.len() as u64; e.work.clear(); } return false; }
            if e.st.paths >= max_paths { if !e.work.is_empty() { *e.incomplete.entry("path limit".into()).or_insert(0) += e.work.len() as u64; e.work.clear(); } return false; }
            while e.work.len() >= 2 && free.load(Ordering::Relaxed) > 0 {
                if free.fetch_sub(1, Ordering::SeqCst) <= 0 { free.fetch_add(1, Ordering::SeqCst); break; }
                let pid = unsafe { fork() };
                let mut mine = vec![]; let all = std::mem::take(&mut e.work);
                for (k, s) in all.into_iter().enumerate() { if (k % 2 == 0) == (pid == 0) { mine.push(s); } }
                e.work = mine;
                if pid == 0 { *forked = true; kids.clear(); unsafe { prctl(1, 9, 0, 0, 0); } e.st = Stats::default(); e.violations.clear(); e.incomplete.clear(); e.covers.clear(); e.assert_ids.clear(); e.fork_prof.clear(); e.samples.clear(); }
                else { kids.push(pid); }
            }
            true
        });
    }
    free.fetch_add(1, Ordering::SeqCst);
    for k in kids { let mut st = 0i32; unsafe { waitpid(k, &mut st, 0); } if st != 0 { extra.push(format!("worker died (status {:#x})", st)); } }
    let r = report(eng, h, t.elapsed().as_secs_f64(), &extra);
    std::fs::write(format!("{}/{}.{}.json", out, h, unsafe { getpid() }), r).expect("write part");
    if forked { unsafe { _exit(0) } }
    0
}
