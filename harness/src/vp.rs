//! Interface between harnesses and the engine (symbolic run) or the replay binary (native run).
extern "C" {
    fn vp_symbolic(p: *mut u8, n: usize);
    fn vp_assume(b: bool);
    fn vp_assert(b: bool, id: u32, p: *const u8, n: usize);
    fn vp_cover(id: u32);
    fn vp_note(p: *const u8, n: usize);
    fn vp_file(p: *const u8, n: usize, q: *const u8, m: usize);
    fn vp_concrete(x: u64) -> u64;
    fn vp_root(p: *mut u8, cap: usize) -> usize;
    fn vp_hash_mode(m: u64);
}
pub const fn fnv(s: &str) -> u32 { let b = s.as_bytes(); let mut h = 0x811c9dc5u32; let mut i = 0; while i < b.len() { h = (h ^ b[i] as u32).wrapping_mul(0x01000193); i += 1; } h & 0x7fff_ffff }
#[inline(never)] pub fn symbolic(b: &mut [u8]) { unsafe { vp_symbolic(b.as_mut_ptr(), b.len()) } }
#[inline(never)] pub fn assume(b: bool) { unsafe { vp_assume(b) } }
#[inline(never)] pub fn check_(b: bool, id: u32, m: &str) { unsafe { vp_assert(b, id, m.as_ptr(), m.len()) } }
#[inline(never)] pub fn cover_(id: u32) { unsafe { vp_cover(id) } }
#[inline(never)] pub fn note(s: &[u8]) { unsafe { vp_note(s.as_ptr(), s.len()) } }
#[inline(never)] pub fn file(p: &str, c: &[u8]) { unsafe { vp_file(p.as_ptr(), p.len(), c.as_ptr(), c.len()) } }
#[inline(never)] pub fn concrete(x: u64) -> u64 { unsafe { vp_concrete(x) } }
/// order in which hash tables are laid out (symbolic runs only)
#[inline(never)] pub fn hash_mode(m: u64) { unsafe { vp_hash_mode(m) } }
pub fn root() -> String { let mut b = vec![0u8; 256]; let n = unsafe { vp_root(b.as_mut_ptr(), 256) }; b.truncate(n); String::from_utf8(b).unwrap() }

#[macro_export] macro_rules! check { ($c:expr, $m:literal) => {{ const ID: u32 = $crate::vp::fnv($m); let c: bool = $c; $crate::vp::check_(c, ID, $m) }} }
#[macro_export] macro_rules! cover { ($m:literal) => {{ const ID: u32 = $crate::vp::fnv($m); $crate::vp::cover_(ID) }} }
#[macro_export] macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $( #[no_mangle] pub extern "C" fn $n() { $b } )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n as extern "C" fn()) ),* ];
    }
}
pub fn byte() -> u8 { let mut b = [0u8; 1]; symbolic(&mut b); b[0] }
pub fn byte_in(lo: u8, hi: u8) -> u8 { let b = byte(); assume(b >= lo && b <= hi); b }
pub fn flag() -> bool { let b = byte(); assume(b < 2); b == 1 }
/// a value in 0..n, one path per value
pub fn pick(n: u8) -> usize { let b = byte(); assume(b < n); concrete(b as u64) as usize }
pub fn u16s() -> u16 { let mut b = [0u8; 2]; symbolic(&mut b); u16::from_le_bytes(b) }
pub fn u32s() -> u32 { let mut b = [0u8; 4]; symbolic(&mut b); u32::from_le_bytes(b) }
pub fn i32s() -> i32 { u32s() as i32 }
pub fn u64s() -> u64 { let mut b = [0u8; 8]; symbolic(&mut b); u64::from_le_bytes(b) }
pub fn digit() -> u8 { byte_in(b'0', b'9') }
pub fn upper() -> u8 { byte_in(b'A', b'Z') }
pub fn lower() -> u8 { byte_in(b'a', b'z') }
pub fn alnum() -> u8 { let b = byte(); assume((b >= b'0' && b <= b'9') || (b >= b'A' && b <= b'Z')); b }
pub fn ascii() -> u8 { byte_in(0, 127) }
pub fn digits(n: usize) -> String { mk((0..n).map(|_| digit()).collect()) }
pub fn uppers(n: usize) -> String { mk((0..n).map(|_| upper()).collect()) }
pub fn alnums(n: usize) -> String { mk((0..n).map(|_| alnum()).collect()) }
/// n printable ASCII bytes none of which is in `not`
pub fn printable(n: usize, not: &[u8]) -> String { mk((0..n).map(|_| { let b = byte_in(b' ', b'~'); for x in not { assume(b != *x); } b }).collect()) }
/// n printable non-blank ASCII bytes none of which is in `not`
pub fn word(n: usize, not: &[u8]) -> String { mk((0..n).map(|_| { let b = byte_in(b'!', b'~'); for x in not { assume(b != *x); } b }).collect()) }
pub fn any_ascii(n: usize) -> String { mk((0..n).map(|_| ascii()).collect()) }
/// digit string of length lo..=hi (one path per length)
pub fn digits_upto(lo: usize, hi: usize) -> String { let k = lo + pick((hi - lo + 1) as u8); digits(k) }
pub fn mk(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
pub fn num(s: &str) -> i64 { let mut x = 0i64; for b in s.bytes() { x = x * 10 + (b - b'0') as i64; } x }
/// keeps a value alive without running its destructor
pub fn keep<T>(t: T) { std::mem::forget(t) }
/// s == t, as one comparison
pub fn same(s: &str, t: &str) -> bool { s.len() == t.len() && s.as_bytes() == t.as_bytes() }
pub fn same_opt(s: Option<&str>, t: Option<&str>) -> bool { match (s, t) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false } }
pub fn close(a: f64, b: f64) -> bool { let d = a - b; d < 1e-9 && d > -1e-9 }
/// an unsigned number of one to five digits, or of nine to eleven digits around the limits of 32-bit numbers
pub fn number() -> String { match pick(4) { 0 => digits_upto(1, 5), 1 => format!("{}{}", ["2147483", "4294967", "0000000"][pick(3)], digits(3)), 2 => format!("{}147483647", digits(2)), _ => format!("{}9", digits(2) + ["9999999", "4967296"][pick(2)]) } }
/// the text with one byte, anywhere, replaced by one of any value or left out
pub fn mutated(t: &str) -> Vec<u8> { let mut b = t.as_bytes().to_vec(); let i = pick(b.len() as u8); if pick(2) == 0 { b[i] = byte(); } else { b.remove(i); } b }
/// the text with one byte of any value anywhere between
pub fn inserted(t: &str) -> Vec<u8> { let mut b = t.as_bytes().to_vec(); let i = pick(b.len() as u8); b.insert(i, byte()); b }
/// the text with two bytes next to each other, anywhere, replaced by any of any value
pub fn mutated2(t: &str) -> Vec<u8> { let mut b = t.as_bytes().to_vec(); let i = pick(b.len() as u8 - 1); b[i] = byte(); b[i + 1] = byte(); b }
