//! E01: controller positions are read field by field
use crate::{check, co::*, cover, vp::*};
use geo::Coord;
use vatsim_parser::ese::{Ese, Position};
fn read(t: &str) -> Ese { note(t.as_bytes()); match Ese::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
fn at(p: &Coord, c: &Co) -> bool { close(p.y, c.y) & close(p.x, c.x) }
/// the colon-separated coordinate
fn ct(c: &Co) -> String { c.t.replacen(' ', ":", 1) }
const X: &str = "Other:XX_CTR:127.950:OTH:O:XX:CTR:-:-:0010:0020:N003.00.00.000:E004.00.00.000\n";
fn other(e: &Ese) { let o = e.positions.get("OTH"); check!(o.is_some_and(|o| same(&o.name, "Other") & same(&o.callsign, "XX_CTR") & same(&o.frequency, "127.950") & same(&o.identifier, "OTH") & same(&o.middle, "O") & same(&o.prefix, "XX") & same(&o.suffix, "CTR") && o.squawk_range == Some((10, 20)) && o.visibility_points.len() == 1 && at(&o.visibility_points[0], &fixed(3))), "the position next to it is unaffected"); }
fn get<'a>(e: &'a Ese, id: &str) -> &'a Position { check!(e.positions.len() == 2, "one position per line"); match e.positions.get(id) { Some(p) => p, None => { check!(false, "the position is found under its identifier"); assume(false); unreachable!() } } }
fn w(n: usize) -> String { word(n, b":;*[") }
crate::harnesses! {
    // the texts
    fn h_e01_texts() { let (n, c, i, m, p, s) = (w(2), w(2), format!("I{}", w(1)), w(1), w(2), w(2)); let f = digits(6); let (f1, f2) = f.split_at(3); let first = pick(2) == 0;
        let l = format!("{n} {n}:{c}:{f1}.{f2}:{i}:{m}:{p}:{s}:-:-:1234:1277\n"); let t = if first { format!("[POSITIONS]\n{l}{X}") } else { format!("[POSITIONS]\n{X}{l}") };
        let e = read(&t); let q = get(&e, &i); check!(same(&q.name, &format!("{n} {n}")), "the name is the first field"); check!(same(&q.callsign, &c), "the callsign is the second field"); check!(same(&q.frequency, &format!("{f1}.{f2}")), "the frequency is the third field"); check!(same(&q.identifier, &i), "the identifier is the fourth field");
        check!(same(&q.middle, &m), "the middle letter is the fifth field"); check!(same(&q.prefix, &p), "the prefix is the sixth field"); check!(same(&q.suffix, &s), "the suffix is the seventh field"); check!(q.visibility_points.is_empty(), "no visibility points where none are given"); check!(q.squawk_range == Some((1234, 1277)), "the squawk range is the one given"); cover!("texts"); other(&e); keep(e); }
    // fields left empty
    fn h_e01_empty() { let k = pick(6); let v = w(1); let f = |i: usize| if i == k { "" } else { v.as_str() };
        let e = read(&format!("[POSITIONS]\n{}:{}:120.500:ID:{}:{}:{}:{}::1234:1277\n{X}", f(0), f(1), f(2), f(3), f(4), f(5))); let q = get(&e, "ID");
        check!(same(&q.name, f(0)) & same(&q.callsign, f(1)) & same(&q.middle, f(2)) & same(&q.prefix, f(3)) & same(&q.suffix, f(4)), "an empty field is empty and the others keep their place"); check!(q.squawk_range == Some((1234, 1277)), "the squawk range is the one given"); cover!("empty fields"); other(&e); keep(e); }
    // with and without squawk range, with up to four visibility points
    fn h_e01_points() { let r = pick(3); let n = pick(5); let (a, b) = (digits(4), digits(4));
        let mut cs = vec![]; for i in 0..n { cs.push(if i == 0 || i == 3 { co() } else { fixed(10 + i as u8) }); }
        // an absent range: both of its fields empty, or left out
        let l = format!("N:C:120.500:ID:M:P:S:-:-:{}{}{}\n", match r { 0 => format!("{a}:{b}"), 1 => ":".into(), _ => String::new() }, if n > 0 { ":" } else { "" }, cs.iter().map(ct).collect::<Vec<_>>().join(":"));
        let e = read(&format!("[POSITIONS]\n{X}{l}")); let q = get(&e, "ID"); let want = if r == 0 { Some((num(&a) as u16, num(&b) as u16)) } else { None };
        check!(q.squawk_range == want, "the squawk range is the one given"); check!(q.visibility_points.len() == n, "as many visibility points as the line has"); for (p, c) in q.visibility_points.iter().zip(&cs) { check!(at(p, c), "the visibility points are those of the line, in order"); }
        check!(same(&q.suffix, "S") & same(&q.identifier, "ID"), "an empty field is empty and the others keep their place"); cover!("points"); other(&e); keep(e); }
    // among other sections, comments and blank lines
    fn h_e01_place() { let k = pick(6); let i = format!("I{}", w(2)); let l = format!("N:C:120.500:{i}:M:P:S:-:-:0101:0177:N001.00.00.000:E002.00.00.000\n"); let t = match k { 0 => format!("[FREETEXT]\nA:B:C\n[POSITIONS]\n{l}{X}"), 1 => format!("[POSITIONS]\n{l}\n\n{X}\n[SIDSSTARS]\nSID:EDDM:26R:AB1C:AB CD\n"), 2 => format!("[POSITIONS]\n; c:c\n{l};{}\n{X}", printable(2, b"")), 3 => format!("[AIRSPACE]\nSECTORLINE:1\n\n[POSITIONS]\r\n{l}\r\n{X}[FREETEXT]\n\n"), 4 => format!("\n\n[POSITIONS]\n  {l}\t{X}[RADAR]\nx\n"), _ => format!("[SIDSSTARS]\n[POSITIONS]\n{l}{X}[AIRSPACE]\nMSAW:A:3000\nCOORD:N001.00.00.000:E001.00.00.000\n") };
        let e = read(&t); let q = get(&e, &i); check!(same(&q.name, "N") & same(&q.callsign, "C") & same(&q.middle, "M") & same(&q.prefix, "P") & same(&q.suffix, "S") && q.squawk_range == Some((101, 177)) && q.visibility_points.len() == 1 && at(&q.visibility_points[0], &fixed(1)), "the fields do not depend on what surrounds the line"); cover!("place"); other(&e); keep(e); }
}
