//! S03: a line that cannot be read never disturbs its neighbours
use crate::{check, co::*, cover, vp::*};
use vatsim_parser::sct::Sct;
/// `x` between two good lines of each tolerant section
fn around(x: &str) {
    let ndb = pick(2) == 1; let (k, l, v) = (fixed(3), fixed(5), fixed(7));
    let t = if ndb { format!("[NDB]\nAAA 368 {}\n{x}\nBBB 369 {}\n[VOR]\nVVV 112.3 {}\n", k.t, l.t, v.t) } else { format!("[FIXES]\nAAA {}\n{x}\nBBB {}\n[VOR]\nVVV 112.3 {}\n", k.t, l.t, v.t) };
    note(t.as_bytes());
    let s = match Sct::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a file with a broken line is read"); return; } };
    let n = if ndb { s.ndbs.len() } else { s.fixes.len() }; check!(n == 2 || n == 3, "the lines before and after a broken line are kept, and nothing is made up");
    if n == 2 { cover!("a line is skipped"); } else { cover!("the line is read after all"); }
    let (a, b, p, q) = if ndb { (&s.ndbs[0].designator, &s.ndbs[n - 1].designator, &s.ndbs[0].coordinate, &s.ndbs[n - 1].coordinate) } else { (&s.fixes[0].designator, &s.fixes[n - 1].designator, &s.fixes[0].coordinate, &s.fixes[n - 1].coordinate) };
    check!(same(a, "AAA") && at(p, &k), "the line before is read as without the broken line"); check!(same(b, "BBB") && at(q, &l), "the line after is read as without the broken line");
    check!(s.vors.len() == 1 && same(&s.vors[0].designator, "VVV") && at(&s.vors[0].coordinate, &v), "other sections are read as without the broken line"); check!(if ndb { s.fixes.is_empty() } else { s.ndbs.is_empty() }, "no entry moves to another section");
    keep((t, s));
}
fn start() -> String { let b = byte_in(b'!', b'~'); assume(b != b'[' && b != b'#'); mk(vec![b]) }
const C: &str = "N001.02.03.000 E004.05.06.000";
crate::harnesses! {
    fn h_s03_junk() { let x = format!("{}{}", start(), printable(2, b"")); around(&x); }
    fn h_s03_spaced() { let x = format!("{}{} {C}", start(), printable(2, b"")); around(&x); }
    fn h_s03_after() { let x = format!("AB {}{C}{}", ["", "368 "][pick(2)], printable(2, b"")); around(&x); }
    fn h_s03_inside() { let i = pick(8); let c: String = C.chars().enumerate().map(|(k, c)| if k == [0, 1, 4, 8, 11, 14, 15, 16][i] { byte_in(b' ', b'~') as char } else { c }).collect(); around(&format!("AB {}{c}", ["", "368 "][pick(2)])); }
    fn h_s03_short() { let k = pick(12); let x = format!("AB 368.5 {C}"); around(&x[..[1, 2, 4, 6, 8, 10, 13, 17, 22, 24, 28, 37][k]]); }
    fn h_s03_first_last() { let x = format!("{}{}", start(), printable(1, b"")); let nl = ["", "\n"][pick(2)]; let k = fixed(3);
        let t = format!("[FIXES]\n{x}\nAAA {}\n[NDB]\nBBB 368 {}\n{x}{nl}", k.t, k.t); note(t.as_bytes());
        let s = match Sct::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a file with a broken line is read"); return; } };
        cover!("first and last"); check!(s.fixes.len() == 1 && s.ndbs.len() == 1 && same(&s.fixes[0].designator, "AAA") && same(&s.ndbs[0].designator, "BBB"), "a broken first or last line loses nothing else"); keep((t, s)); }
    fn t_s03_junk3() { let x = format!("{}{}", start(), printable(3, b"")); around(&x); }
}
