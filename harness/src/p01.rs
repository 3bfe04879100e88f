//! P01: parsing a sector file never panics
use crate::{cover, vp::*};
use vatsim_parser::sct::Sct;
fn run(t: &str) { note(t.as_bytes()); let r = Sct::parse(t.as_bytes()); cover!("returned"); if r.is_ok() { cover!("read"); } else { cover!("refused"); } keep(r); }
const C: &str = "N048.21.13.999 E011.47.09.500";
/// n bytes of any ASCII value
fn raw(n: usize) -> String { any_ascii(n) }
const F: [&str; 8] = ["#define a 12\n[INFO]\nName\nCALL_1\nEDDM\nN048.21.13.999\nW011.47.09.500\n60\n39.5\n-3.1\n1\n", "[VOR]\nMUN 112.300 n048.21.13.999 w011.47.09.500\n[NDB]\nMN 368 S048.21.13.999 E011.47.09.500\n", "[FIXES]\nABCDE N048.21.13.999 E011.47.09.500\n[AIRPORT]\nEDDM 118.700 N048.21.13.999 E011.47.09.500 D\nEDDN N048.21.13.999 e011.47.09.500 C\n", "[RUNWAY]\n08L 26R 083 263 N048.21.13.999 E011.47.09.500 s048.21.13.999 E011.47.09.500 EDDM Munich\n", "[GEO]\nName N048.21.13.999 E011.47.09.500 ABC ABC red\n  ABC ABC N048.21.13.999 E011.47.09.500 red\n", "[HIGH AIRWAY]\nL12 ABC ABC N048.21.13.999 E011.47.09.500\n[LOW AIRWAY]\nT1 AB AB CD CD\n", "[REGIONS]\nREGIONNAME R\ngrass N048.21.13.999 E011.47.09.500\n N048.21.13.999 E011.47.10.500\n", "[LABELS]\n\"Text\" N048.21.13.999 E011.47.09.500 red\n[ARTCC LOW]\nA AB AB CD CD\n"];
crate::harnesses! {
    // numbers of any length in every numeric position
    fn h_p01_deg() { let d = digits_upto(1, 8); let h = ["N", "s"][pick(2)]; run(&format!("[AIRPORT]\nEDDM . {h}{d}.00.00.000 E011.00.00.000 D\n[FIXES]\nA {C}\n")); }
    fn h_p01_min() { let d = digits_upto(1, 6); let e = digits_upto(1, 3); run(&format!("[VOR]\nMUN 112.3 N048.{d}.00.000 W011.{e}.00\n")); }
    fn h_p01_sec() { let d = digits_upto(1, 12); let sg = ["", "-", "+", ".", "-."][pick(5)]; run(&format!("[GEO]\nG N048.12.{sg}{d} E011.00.00 {C} red\n")); }
    fn h_p01_headings() { let d = number(); let sg = ["", "+", "-"][pick(3)]; run(&format!("[RUNWAY]\n08 26 {sg}{d} 260 {C} {C} EDDM\n09 27 270 {d} {C} {C} EDDM\n")); }
    fn h_p01_colour() { let d = number(); let sg = ["", "+", "-"][pick(3)]; run(&format!("#define A {sg}{d}\n[GEO]\n#define B {d}\nG {C} {C}\n")); }
    fn h_p01_info() { let d = digits_upto(1, 12); let k = pick(5); let sg = ["", "+", "-", "."][pick(4)]; let x = format!("{sg}{d}"); let f = |i: usize, y: &str| if i == k { x.clone() } else { y.to_string() };
        run(&format!("[INFO]\nA\nB\nC\nN{}.00.00.000\nE011.00.00.000\n{}\n{}\n{}\n{}\n", f(0, "048"), f(1, "60"), f(2, "40"), f(3, "-3"), f(4, "1"))); }
    // bytes of any value at structural positions
    fn h_p01_start() { run(&raw(3)); }
    fn h_p01_header() { let s = ["[INFO", "[VOR", "[NDB", "[FIXES", "[AIRPORT", "[RUNWAY", "[SID", "[STAR", "[ARTCC", "[ARTCC HIGH", "[ARTCC LOW", "[HIGH AIRWAY", "[LOW AIRWAY", "[REGIONS", "[LABELS", "[GEO"][pick(16)]; run(&format!("{s}{}", raw(2))); }
    fn h_p01_body() { let s = ["VOR", "NDB", "FIXES", "AIRPORT", "RUNWAY", "SID", "STAR", "ARTCC", "ARTCC HIGH", "ARTCC LOW", "HIGH AIRWAY", "LOW AIRWAY", "REGIONS", "LABELS", "GEO"][pick(15)]; run(&format!("[{s}]\n{}\n", raw(2))); }
    fn h_p01_info_raw() { let k = pick(5); let x = raw(2); run(&format!("[INFO]\n{}A\n{}B\n{}C\nN048.00.00.000\nE011.00.00.000{}\n60\n39{}\n-3\n1\n", if k == 0 { &x } else { "" }, if k == 1 { &x } else { "" }, if k == 2 { &x } else { "" }, if k == 3 { &x } else { "" }, if k == 4 { &x } else { "" })); }
    fn h_p01_airport_raw() { let x = raw(2); let k = pick(3); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[AIRPORT]\nEDDM{} 120.5 N048.21.13.999 E011{}.47.09.500{} D\n", f(0), f(1), f(2))); }
    fn h_p01_ndb_raw() { let x = raw(3); let k = pick(3); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[NDB]\n{}M 368{} N048.21.13.999 E011.47.0{}9.500\nB 1 {C}\n", f(0), f(1), f(2))); }
    fn h_p01_fix_raw() { let x = raw(3); let k = pick(2); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[FIXES]\nAB{} {C}\nAB N048.21{}.13 E011.47.09\n", f(0), f(1))); }
    fn h_p01_runway_raw() { let x = raw(2); let k = pick(3); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[RUNWAY]\n08{} 26 083 26{}3 {C} {C} EDDM{}\n", f(0), f(1), f(2))); }
    fn h_p01_geo_raw() { let s = ["GEO", "SID", "ARTCC"][pick(3)]; let x = raw(2); let k = pick(4); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[{s}]\nG{} {C}{} ABC ABC red{}\n{} {C} {C}\n", f(0), f(1), f(2), f(3))); }
    fn h_p01_airway_raw() { let x = raw(2); let k = pick(3); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[HIGH AIRWAY]\nL1{} ABC{} ABC {C}{}\n", f(0), f(1), f(2))); }
    fn h_p01_regions_raw() { let x = raw(2); let k = pick(4); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[REGIONS]\nREGIONNAME {}R\n{}C {C}{}\n{}{C}\n", f(0), f(1), f(2), f(3))); }
    fn h_p01_labels_raw() { let x = raw(2); let k = pick(3); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("[LABELS]\n\"{}T\"{} {C} red{}\n", f(0), f(1), f(2))); }
    fn h_p01_define_raw() { let x = raw(3); let k = pick(3); let f = |i: usize| if i == k { x.as_str() } else { "" }; run(&format!("#define{} A{} 12{}\n[GEO]\n", f(0), f(1), f(2))); }
    // bytes that are not ASCII
    fn h_p01_bytes() { let mut b = b"[FIXES]\nAB".to_vec(); let mut x = [0u8; 3]; symbolic(&mut x); x[0] = [0xE2, 0xEF, 0xED, 0xF0, 0xC3, 0x80][pick(6)]; b.extend_from_slice(&x); b.extend_from_slice(b" N048.21.13.000 E011.47.09.000\n"); note(&b); let r = Sct::parse(&b); cover!("any bytes"); keep(r); }
    fn t_p01_start4() { run(&raw(4)); }
    fn t_p01_body3() { let s = ["VOR", "NDB", "FIXES", "AIRPORT", "RUNWAY", "SID", "REGIONS", "LABELS", "GEO", "LOW AIRWAY"][pick(10)]; run(&format!("[{s}]\n{}\n", raw(3))); }
    // one byte of a well-formed file replaced, left out or put in
    fn h_p01_mutated() { let b = mutated(F[pick(8)]); note(&b); let r = Sct::parse(&b); cover!("one byte changed"); keep(r); }
    fn h_p01_inserted() { let b = inserted(F[pick(8)]); note(&b); let r = Sct::parse(&b); cover!("one byte put in"); keep(r); }
    fn t_p01_pair() { let b = mutated2(F[pick(8)]); note(&b); let r = Sct::parse(&b); cover!("one byte changed"); keep(r); }
}
