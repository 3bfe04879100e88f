//! E02: SIDs and STARs are read field by field
use crate::{check, cover, vp::*};
use vatsim_parser::ese::{Ese, SidStar};
fn read(t: &str) -> Ese { note(t.as_bytes()); match Ese::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
fn w(n: usize) -> String { word(n, b":;*[") }
fn desig(n: usize) -> String { mk((0..n).map(|_| { let b = byte(); assume((b >= b'0' && b <= b'9') || (b >= b'A' && b <= b'Z') || b == b'-'); b }).collect()) }
/// a designator whose class of characters does not fork
fn des(n: usize) -> String { if pick(2) == 0 { uppers(n) } else { digits(n) } }
/// (is a SID, airport, runway, name, route) of an entry
fn parts(e: &SidStar) -> (bool, &str, Option<&str>, &str, &[String]) { match e { SidStar::Sid(s) => (true, &s.airport, s.runway.as_deref(), &s.name, &s.waypoints), SidStar::Star(s) => (false, &s.airport, s.runway.as_deref(), &s.name, &s.waypoints) } }
fn is(e: &SidStar, sid: bool, a: &str, r: Option<&str>, n: &str, w: &[String]) {
    let p = parts(e); check!(p.0 == sid, "a SID is a SID and a STAR a STAR"); check!(same(p.1, a), "the airport is the first field"); check!(same_opt(p.2, r), "the runway is the second field, absent if empty"); check!(same(p.3, n), "the name is the third field");
    check!(p.4.len() == w.len(), "the route has as many points as the line"); for (x, y) in p.4.iter().zip(w) { check!(same(x, y), "the route's points are those of the line, in order"); }
}
fn upper_str() -> String { uppers(1) }
const K: [&str; 2] = ["SID", "STAR"];
fn s(x: &[&str]) -> Vec<String> { x.iter().map(|x| x.to_string()).collect() }
crate::harnesses! {
    fn h_e02_fields() { let k = pick(2); let a = des(4); let r = digits(2); let sfx = ["", "L", "C", "R", "G"][pick(5)]; let n = w(3); let p = [des(2), uppers(3), digits(1)];
        let e = read(&format!("[SIDSSTARS]\nSID:EDDF:18:ONE:A1 B2\n{}:{a}:{r}{sfx}:{n}:{} {} {}\nSTAR:EDDH:05:TWO:C3\n", K[k], p[0], p[1], p[2]));
        check!(e.sids_stars.len() == 3, "one procedure per line, in order"); cover!("fields"); is(&e.sids_stars[0], true, "EDDF", Some("18"), "ONE", &s(&["A1", "B2"])); is(&e.sids_stars[1], k == 0, &a, Some(&format!("{r}{sfx}")), &n, &p); is(&e.sids_stars[2], false, "EDDH", Some("05"), "TWO", &s(&["C3"])); keep(e); }
    // any character a designator may have
    fn h_e02_chars() { let a = desig(2); let p = desig(2); let e = read(&format!("[SIDSSTARS]\nSID:{a}::N M:{p}\n")); check!(e.sids_stars.len() == 1, "one procedure per line, in order"); is(&e.sids_stars[0], true, &a, None, "N M", &[p]); cover!("characters"); keep(e); }
    // routes of up to five points, runway and name present or not, any blanks between
    fn h_e02_shape() { let k = pick(2); let n = pick(6); let r = pick(2) == 1; let nm = ["", "N1A", "N 1 A"][pick(3)]; let sep = [" ", "  ", "\t"][pick(3)]; let p: Vec<String> = (0..n).map(|i| format!("{}{i}", uppers(1))).collect(); let rd = digits(2);
        let e = read(&format!("[SIDSSTARS]\n{}:EDDM:{}:{nm}:{}\nSTAR:EDDH:05:TWO:C3\n", K[k], if r { &rd } else { "" }, p.join(sep)));
        check!(e.sids_stars.len() == 2, "one procedure per line, in order"); cover!("shape"); is(&e.sids_stars[0], k == 0, "EDDM", if r { Some(&rd) } else { None }, nm, &p); is(&e.sids_stars[1], false, "EDDH", Some("05"), "TWO", &s(&["C3"])); keep(e); }
    // a route that names points more than once
    fn h_e02_route() { let k = pick(2); let p: Vec<String> = (0..4).map(|_| upper_str()).collect(); let e = read(&format!("[SIDSSTARS]\n{}:EDDM:26R:A1N:{} {} {} {}\n", K[k], p[0], p[1], p[2], p[3])); check!(e.sids_stars.len() == 1, "one procedure per line, in order"); cover!("route"); is(&e.sids_stars[0], k == 0, "EDDM", Some("26R"), "A1N", &p); keep(e); }
    // same name, airport and runway more than once: all are kept
    fn h_e02_repeated() { let n = uppers(2); let m = uppers(2); let (k, l) = (pick(2), pick(2)); let e = read(&format!("[SIDSSTARS]\n{}:EDDM:26R:{n}:A\n{}:EDDM:26R:{m}:B\n{}:EDDM:26R:{n}:A\n", K[k], K[l], K[k])); check!(e.sids_stars.len() == 3, "one procedure per line, in order"); cover!("repeated");
        is(&e.sids_stars[0], k == 0, "EDDM", Some("26R"), &n, &s(&["A"])); is(&e.sids_stars[1], l == 0, "EDDM", Some("26R"), &m, &s(&["B"])); is(&e.sids_stars[2], k == 0, "EDDM", Some("26R"), &n, &s(&["A"])); keep(e); }
    // among other sections, comments and blank lines
    fn h_e02_place() { let k = pick(5); let n = uppers(2); let l = format!("SID:EDDM:26R:{n}:A B\n"); let z = "STAR:EDDH:05:TWO:C3\n"; let t = match k { 0 => format!("[POSITIONS]\nN:C:1.5:I:M:P:S:-:-::\n[SIDSSTARS]\n{l}{z}[FREETEXT]\nSID:A:B\n"), 1 => format!("[SIDSSTARS]\n{l}\n\n{z}[POSITIONS]\n"), 2 => format!("[SIDSSTARS]\n; STAR:EDDM:26R:X:A\n{l};{}\n{z}", printable(2, b"")), 3 => format!("[SIDSSTARS]\r\n{l}\r\n{z}"), _ => format!("[SIDSSTARS]\n{}SID:EDDM:26R:{n}:A B ; c\n{z}", "  ") };
        let e = read(&t); check!(e.sids_stars.len() == 2, "one procedure per line, in order"); cover!("place"); is(&e.sids_stars[0], true, "EDDM", Some("26R"), &n, &s(&["A", "B"])); is(&e.sids_stars[1], false, "EDDH", Some("05"), "TWO", &s(&["C3"])); keep(e); }
}
