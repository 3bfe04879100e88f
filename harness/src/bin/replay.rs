//! Native run of a harness on concrete input: replay HARNESS HEX SCRATCHDIR
//! exit 0: all assertions hold; 10: an assertion failed; 20: input outside the harness's assumptions; 101/134: panic
use std::sync::Mutex;
static IN: Mutex<(Vec<u8>, usize)> = Mutex::new((vec![], 0));
static ROOT: Mutex<String> = Mutex::new(String::new());
#[no_mangle] pub unsafe extern "C" fn vp_symbolic(p: *mut u8, n: usize) { let mut g = IN.lock().unwrap(); for i in 0..n { let k = g.1; let b = g.0.get(k).copied().unwrap_or(0); *p.add(i) = b; g.1 += 1; } }
#[no_mangle] pub unsafe extern "C" fn vp_assume(b: bool) { if !b { println!("ASSUME-FAILED"); std::process::exit(20); } }
#[no_mangle] pub unsafe extern "C" fn vp_assert(b: bool, _id: u32, p: *const u8, n: usize) { if !b { println!("ASSERT-FAILED: {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n))); std::process::exit(10); } }
#[no_mangle] pub unsafe extern "C" fn vp_cover(id: u32) { println!("COVER {}", id); }
#[no_mangle] pub unsafe extern "C" fn vp_note(p: *const u8, n: usize) { println!("NOTE {:?}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n))); }
#[no_mangle] pub unsafe extern "C" fn vp_file(p: *const u8, n: usize, q: *const u8, m: usize) { let path = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned(); let r = ROOT.lock().unwrap().clone(); assert!(path.starts_with(&r) && !path.contains("..")); let pb = std::path::PathBuf::from(&path); std::fs::create_dir_all(pb.parent().unwrap()).unwrap(); std::fs::write(pb, std::slice::from_raw_parts(q, m)).unwrap(); }
#[no_mangle] pub unsafe extern "C" fn vp_concrete(x: u64) -> u64 { x }
#[no_mangle] pub unsafe extern "C" fn vp_hash_mode(_m: u64) {}
#[no_mangle] pub unsafe extern "C" fn vp_root(p: *mut u8, cap: usize) -> usize { let r = ROOT.lock().unwrap().clone(); let n = r.len().min(cap); std::ptr::copy_nonoverlapping(r.as_ptr(), p, n); n }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = &a[2]; let input = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    IN.lock().unwrap().0 = input; *ROOT.lock().unwrap() = a[3].clone();
    let t = vpharness::table();
    let f = t.iter().find(|x| x.0 == a[1]).unwrap_or_else(|| { println!("NO-HARNESS"); std::process::exit(30) }).1;
    let j = std::thread::Builder::new().stack_size(31 << 20).spawn(move || f()).unwrap();
    if j.join().is_err() { std::process::exit(101); }
    println!("HARNESS-OK");
}
