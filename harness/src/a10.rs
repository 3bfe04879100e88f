//! A10: squawk ranges are octal and inclusive
use crate::{check, cover, vp::*};
use vatsim_parser::{adaptation::settings::SsrSettings, squawks::parse_squawks_json};
fn read(defs: &str) -> SsrSettings { let t = format!("{{\"NonDiscreteColor\":\"#01a0ff\",\"NonDiscreteMessage\":\"ND\",\"NonDiscrete\":[\"1000\"],\"Squawks\":[{defs}]}}"); note(t.as_bytes()); match parse_squawks_json(t.as_bytes()) { Ok(s) => SsrSettings::from_squawks_json(&s), Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
fn octal(n: usize) -> String { mk((0..n).map(|_| byte_in(b'0', b'7')).collect()) }
fn val(s: &str) -> u16 { let mut x = 0u16; for b in s.bytes() { x = x << 3 | (b - b'0') as u16; } x }
fn text(x: u16) -> String { mk(vec![b'0' + (x >> 9 & 7) as u8, b'0' + (x >> 6 & 7) as u8, b'0' + (x >> 3 & 7) as u8, b'0' + (x & 7) as u8]) }
fn code(c: &str, m: &str) -> String { format!("{{\"code\":\"{c}\",\"message\":\"{m}\",\"color\":\"#000000\"}}") }
fn range(a: &str, b: &str, m: &str) -> String { format!("{{\"range\":{{\"start\":\"{a}\",\"end\":\"{b}\"}},\"message\":\"{m}\",\"color\":\"#ffffff\"}}") }
fn is(s: &SsrSettings, c: &str, m: &str) -> bool { s.special_use_codes.get(c).is_some_and(|x| same(x, m)) }
crate::harnesses! {
    fn h_a10_code() { let c = octal(4); let m = format!("{}{}", word(1, b"\"\\"), printable(1, b"\"\\")); let s = read(&code(&c, &m)); cover!("code"); check!(s.special_use_codes.len() == 1, "one entry per code"); check!(is(&s, &c, &m), "a code prints as it is read and has its message"); keep(s); }
    // a range of up to five codes, with carries in every digit
    fn h_a10_range() { let d = ["00", "07", "17", "76"][pick(4)]; let e = if d != "76" && pick(2) == 1 { ["01", "10", "20"][["00", "07", "17"].iter().position(|x| *x == d).unwrap()] } else { d }; let (a, b) = (format!("{d}{}", octal(2)), format!("{e}{}", octal(2))); let (x, y) = (val(&a), val(&b)); assume(x <= y && y - x < 4); let n = concrete((y - x) as u64) as u16 + 1; let s = read(&range(&a, &b, "M")); cover!("range"); check!(s.special_use_codes.len() == n as usize, "a range covers as many codes as lie between its ends, both included"); for i in 0..n { check!(is(&s, &text(x + i), "M"), "a range covers every code from its start to its end, in octal order"); } keep(s); }
    // long ranges: how many codes, and whether a code belongs to them
    fn h_a10_long() { let (p, q) = [(0, 0o3777), (0o777, 0o1777), (0o7000, 0o7777)][pick(3)]; let s = read(&range(&format!("{p:04o}"), &format!("{q:04o}"), "M")); cover!("long range"); check!(s.special_use_codes.len() == (q - p) as usize + 1, "a range covers as many codes as lie between its ends, both included"); let mut ok = true; for x in p..=q { if x % 37 == 0 || x == q || x % 512 < 2 || x % 512 == 511 { ok &= is(&s, &text(x), "M"); } } check!(ok, "a range covers every code from its start to its end, in octal order"); keep(s); }
    fn h_a10_reversed() { let (a, b) = (octal(4), octal(4)); assume(val(&a) > val(&b)); let s = read(&format!("{},{}", range(&a, &b, "M"), code("7700", "N"))); cover!("reversed"); check!(s.special_use_codes.len() == 1 && is(&s, "7700", "N"), "a reversed range is empty"); keep(s); }
    // anything else than octal digits
    fn h_a10_invalid() { let x = byte_in(b' ', b'~'); assume(x != b'"' && x != b'\\' && x != b'+' && !(x >= b'0' && x <= b'7')); let c = mk(match pick(3) { 0 => vec![x, b'0', b'1', b'2'], 1 => vec![b'0', b'1', x, b'2'], _ => vec![b'7', b'7', b'7', x] }); let d = match pick(3) { 0 => code(&c, "M"), 1 => range(&c, "7777", "M"), _ => range("0000", &c, "M") }; let s = read(&format!("{d},{}", code("7600", "N"))); cover!("invalid"); check!(s.special_use_codes.len() == 1 && is(&s, "7600", "N"), "an invalid code or range is refused, the others are kept"); keep(s); }
    // both or neither of code and range
    fn h_a10_both() { let (a, b) = (octal(4), octal(4)); let d = if pick(2) == 0 { format!("{{\"code\":\"{a}\",\"range\":{{\"start\":\"{a}\",\"end\":\"{b}\"}},\"message\":\"M\",\"color\":\"#000000\"}}") } else { "{\"message\":\"M\",\"color\":\"#000000\"}".into() }; let s = read(&format!("{d},{}", code("7600", "N"))); cover!("both"); check!(s.special_use_codes.len() == 1 && is(&s, "7600", "N"), "a definition with both or neither of code and range is refused"); keep(s); }
    // several definitions
    fn h_a10_several() { let (p, q) = [("0", "0"), ("7", "7"), ("0", "4")][pick(3)]; let (a, b) = (format!("{p}{}00", octal(1)), format!("{q}{}00", octal(1))); let s = read(&format!("{},{}", code(&a, "M"), code(&b, "N"))); cover!("several"); if same(&a, &b) { check!(s.special_use_codes.len() == 1 && is(&s, &a, "N"), "the last definition of a code wins"); } else { check!(s.special_use_codes.len() == 2 && is(&s, &a, "M") && is(&s, &b, "N"), "every definition is kept"); } keep(s); }
    fn h_a10_overlap() { let a = octal(4); let x = val(&a); assume(x >= 0o100 && x <= 0o103); let s = read(&format!("{},{}", range("0077", "0103", "R"), code(&a, "C"))); cover!("overlap"); check!(s.special_use_codes.len() == 5, "a code within a range is one code"); for y in 0o77..=0o103u16 { check!(is(&s, &text(y), if y == x { "C" } else { "R" }), "the last definition of a code wins, the rest of a range is kept"); } keep(s); }
}
