//! S01: writing a parsed sector file and reading it again is lossless
use crate::{check, co::*, cover, vp::*};
use vatsim_parser::sct::Sct;
/// every entry of a, the multiplicity included, is in b
fn all<T: PartialEq>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().all(|x| a.iter().filter(|y| *y == x).count() == b.iter().filter(|y| *y == x).count()) }
fn trip(t: &str) {
    note(t.as_bytes());
    let s = match Sct::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); return; } };
    let u = s.to_string(); note(u.as_bytes());
    let r = match Sct::parse(u.as_bytes()) { Ok(r) => r, Err(_) => { check!(false, "the text written is read again"); return; } };
    cover!("written and read");
    check!(s.info == r.info, "info survives");
    check!(s.colours.len() == r.colours.len() && s.colours.iter().all(|(n, c)| r.colours.get(n) == Some(c)), "colours survive");
    check!(all(&s.airports, &r.airports), "airports survive"); check!(all(&s.fixes, &r.fixes), "fixes survive"); check!(all(&s.ndbs, &r.ndbs), "NDBs survive"); check!(all(&s.vors, &r.vors), "VORs survive"); check!(all(&s.runways, &r.runways), "runways survive");
    check!(all(&s.sids, &r.sids), "SIDs survive"); check!(all(&s.stars, &r.stars), "STARs survive"); check!(all(&s.artccs_high, &r.artccs_high), "high ARTCCs survive"); check!(all(&s.artccs, &r.artccs), "ARTCCs survive"); check!(all(&s.artccs_low, &r.artccs_low), "low ARTCCs survive");
    check!(all(&s.high_airways, &r.high_airways), "high airways survive"); check!(all(&s.low_airways, &r.low_airways), "low airways survive"); check!(all(&s.regions, &r.regions), "regions survive"); check!(all(&s.labels, &r.labels), "labels survive"); check!(all(&s.geo, &r.geo), "GEO entries survive");
    keep((s, u, r));
}
fn sec() -> &'static str { ["SID", "STAR", "ARTCC HIGH", "ARTCC", "ARTCC LOW", "GEO"][pick(6)] }
/// one of several coordinates, milliseconds and carries included
fn pc() -> Co { let t = ["N048.21.13.999 E011.47.09.501", "S000.00.00.001 W000.00.59.999", "N089.59.59.999 W179.59.59.999", "S012.34.56.789 E123.45.57.123"][pick(4)]; Co { t: t.into(), y: 0.0, x: 0.0 } }
crate::harnesses! {
    fn h_s01_info() { let x = ["60", "39.5", "0.1234567", "1234.25", "0"]; let (i, j) = [(0, 1), (1, 0), (2, 3), (3, 4), (4, 2)][pick(5)]; let c = [("N048.12.13.123", "W111.59.59.999"), ("S000.00.00.001", "E011.12.00.000")][pick(2)]; let sg = ["", "-", "+"][pick(3)]; let n = printable(3, b" "); trip(&format!("[INFO]\nAB{n}\nEDMM_CTR\n{}\n{}\n{}\n{}\n{}\n{sg}{}\n{}[VOR]\n", uppers(4), c.0, c.1, x[i], x[j], x[i], if i > j { "1\n" } else { "" })); }
    fn h_s01_airport() { let c = pc(); trip(&format!("[AIRPORT]\nEDDM 000.000 {} D\n{} {} {} {}\n{} 118.1 {} B\n", fixed(3).t, alnums(4), [".", "120.55"][pick(2)], c.t, mk(vec![byte_in(b'A', b'G')]), "KJFK", fixed(7).t)); }
    fn h_s01_beacons() { let (n, v) = [("VOR", "NDB"), ("NDB", "VOR")][pick(2)]; let c = pc(); trip(&format!("[{n}]\n{} {}.{} {}\nBBB 112.3 {}\n[{v}]\nCC 368 {}\n", alnums(3), digits(3), digits(2), c.t, fixed(5).t, fixed(4).t)); }
    fn h_s01_fixes() { let c = pc(); trip(&format!("[FIXES]\nA{} {}\nKUNOD {}\n", word(2, b":;\"#$%&'*+,<=>?@\\^`{|}~/[]"), c.t, fixed(5).t)); }
    fn h_s01_runway() { let c = pc(); let (i, j) = ([("", ""), ("L", "R"), ("C", "G")])[pick(3)]; trip(&format!("[RUNWAY]\n{}{i} {}{j} {} {} {} {} {} Name\n09 27 090 270 {} {} EDMO\n08 26 1 9 {} {} EDDM\n", digits(2), digits(2), digits(3), digits(2), c.t, fixed(3).t, alnums(4), fixed(3).t, fixed(7).t, fixed(3).t, fixed(7).t)); }
    fn h_s01_airways() { let s = ["HIGH", "LOW"][pick(2)]; let f = alnums(4); let c = pc(); let x = [format!("{f} {f}"), c.t.clone()]; let (i, j) = (pick(2), pick(2)); trip(&format!("[{s} AIRWAY]\nT{} {} {}\nL1 ABC ABC DEF DEF\n", alnums(2), x[i], x[j])); }
    fn h_s01_regions() { let c = pc(); let two = pick(2) == 0; trip(&format!("[REGIONS]\nREGIONNAME {}\n{} {}\n{}REGIONNAME B\nXX {}\n  {}\n", printable(3, b";/[\" "), word(3, b"!\"#$%&'()*+,./:;<=>?@[\\]^`{|}~"), c.t, if two { format!(" {}\n", fixed(6).t) } else { String::new() }, fixed(4).t, fixed(5).t)); }
    fn h_s01_labels() { let c = pc(); trip(&format!("[LABELS]\n\"{}\" {} {}\n\"B\" {} green\n", printable(3, b"\""), c.t, uppers(3), fixed(5).t)); }
    fn h_s01_colours() { let c = byte(); let d = byte(); let n = concrete((c as u64 & 0) + [0u64, 255, 65535, 16777215, 8421504][pick(5)]); keep(d); trip(&format!("#define {} {n}\n#define B 7\n[GEO]\n#define {} 255\n", uppers(2), uppers(1))); }
    // drawings: three lines, chained or not, of no length or not, coloured or not, in each section
    fn h_s01_lines() { let s = sec(); let c = pc(); let p = [c.t.clone(), fixed(3).t, fixed(5).t, "ABC ABC".to_string()]; let col = ["", " red", " green"];
        let (a, b, k) = (pick(2), pick(3), pick(3)); let (d, e, l) = (pick(4), pick(4), pick(2));
        trip(&format!("[{s}]\nFirst one {} {}{}\n {} {}{}\nB {} {} x\n", p[a], p[b], col[k], p[d], p[e], col[l], p[1], p[2])); }
    fn h_s01_names() { let s = sec(); let n = printable(3, b" [];/"); trip(&format!("[{s}]\nA{n} {} {} x\nA{} {} {}\n", fixed(3).t, fixed(5).t, uppers(1), fixed(3).t, fixed(4).t)); }
    // several sections at once
    fn h_s01_sections() { let k = pick(2); let e = ["", "[REGIONS]\n"][k]; let u = uppers(2); trip(&format!("[INFO]\nA\nB\nC\nN001.00.00.000\nE001.00.00.000\n60\n40\n3\n1\n#define {u} 12\n[VOR]\nA 112.3 {}\n[FIXES]\n{u} {}\n{e}[GEO]\n{u} {} {}\n[LABELS]\n\"{u}\" {} {u}\n", fixed(1).t, fixed(2).t, fixed(3).t, fixed(4).t, fixed(5).t)); }
}
