//! P03: parsing .asr, symbology and .prf files never panics
use crate::{cover, vp::*};
use vatsim_parser::{asr::Asr, prf::Prf, symbology::Symbology};
fn raw(n: usize) -> String { any_ascii(n) }
fn sg() -> &'static str { ["", "-", "+", "."][pick(4)] }
fn holes(t: &str, x: &str, k: usize) -> String { let mut o = String::new(); for (i, p) in t.split('@').enumerate() { if i > 0 && i - 1 == k { o.push_str(x); } o.push_str(p); } o }
fn asr(t: &str) { note(t.as_bytes()); let r = Asr::parse(t.as_bytes()); cover!("asr"); if r.is_ok() { cover!("asr read"); } else { cover!("asr refused"); } keep(r); }
fn sym(t: &str) { note(t.as_bytes()); let r = Symbology::parse(t.as_bytes()); cover!("symbology"); if r.is_ok() { cover!("symbology read"); } else { cover!("symbology refused"); } keep(r); }
fn prf(t: &str) -> Option<Prf> { note(t.as_bytes()); let r = root(); let p = format!("{r}/x.prf"); file(&p, t.as_bytes()); match Prf::parse(std::path::Path::new(&p), t.as_bytes()) { Ok(p) => { cover!("profile read"); Some(p) } Err(_) => { cover!("profile refused"); None } } }
const PRF: &str = "Settings\tsector\t\\s.sct\nSettings\tairways\t\\a.txt\nSettings\tairportcoords\t\\c.txt\nSettings\tairlines\t\\l.txt\nSettings\taircraft\t\\f.txt\nSettings\tairports\t\\p.txt\nSettings\tSettingsfileSYMBOLOGY\t\\y.txt\n";
fn paths(p: &Prf) { keep((p.sct_path(), p.ese_path(), p.airways_path(), p.isec_path(), p.navdata_airports_path(), p.airlines_path(), p.aircraft_path(), p.airports_path(), p.symbology_path(), p.squawks_path(), p.topsky_path(), p.recent_path(1))); cover!("paths asked for"); }
fn one(k: usize, b: &[u8]) { note(b); match k { 0 => keep(Asr::parse(b)), 1 => keep(Symbology::parse(b)), _ => { let p = format!("{}/x.prf", root()); file(&p, b); if let Ok(p) = Prf::parse(std::path::Path::new(&p), b) { keep((p.squawks_path(), p.topsky_path(), p.recent_path(1), p)); } } } cover!("one byte changed"); }
const F: [(usize, &str); 5] = [(0, "ABOVE:100\nDisplayTypeName:Ground Radar display\nLEADER:-3\nSHOWC:1\nSIMULATION_MODE:4\nHISTORY_DOTS:5\nDisplayRotation:1.5\nWINDOWAREA:48.1:11.2:N049.10.20.300:W012.10.20.300\nPLUGIN:A:B:C\nTURNLEADER:0\n"), (0, "Runways:EDDM A B 08L-26R:centerline\nAirports:EDDM:symbol\nNDBs:A:frequency\nFixes:A B:name\nLow airways:L1:line\nSids:A:\nFree Text:A\\B:freetext\n"), (0, "Geo:A:\nGround Network:A:terminal taxiway\nRegions:A:polygon\nARTCC boundary:A:\nStars:A:\nARTCC high boundary:A:\nVORs:A:symbol\n"), (1, "SYMBOLOGY\nSYMBOLSIZE\nA:B:255:3.5:0:1:7\nC:D:0:1:2:-1:1\nSYMBOL:2\nSYMBOLITEM:MOVETO 0 -1\nSYMBOLITEM:ARC 1 2 3 4 5\nSYMBOLITEM:POLYGON 1 2 3 4\nm_ClipArea:5\nEND\n"), (2, "Settings\tsector\t\\s.sct\nRecentFiles\tRecent1\tC:\\x.asr\nPlugins\tPlugin0\t\\T/TopSky.dll\n")];
crate::harnesses! {
    fn h_p03_asr_numbers() { let k = pick(8); let d = if k == 3 { digits_upto(1, 4) } else { number() }; let k = ["ABOVE", "BELOW", "HISTORY_DOTS", "LEADER", "SIMULATION_MODE", "DisplayRotation", "SHOWC", "DISABLEPANNING"][k]; asr(&format!("{k}:{}{d}\nSHOWSB:1\n", sg())); }
    fn h_p03_asr_window() { let d = digits_upto(1, 6); let s = sg(); let k = pick(5); let f = |i: usize, x: &str| if i == k { format!("{s}{d}") } else { x.to_string() }; asr(&format!("WINDOWAREA:{}:{}:N{}.{}.{}:E012.00.00.000\n", f(0, "48.1"), f(1, "11.2"), f(2, "049"), f(3, "30"), f(4, "00.000"))); }
    fn h_p03_asr_start() { asr(&raw(3)); }
    fn h_p03_asr_raw() { let x = raw(2); asr(&holes("ABOVE:1@\nDisplayTypeName:A@\n@LEADER:3@\nWINDOWAREA:48.1@:11.2:N049.00.00.000:E@012.00.00.000@\nPLUGIN:A@:B@:C@\n", &x, pick(10))); }
    fn h_p03_asr_items() { let x = raw(2); let l = ["Runways:EDDM A B 08L-26R:centerline", "Airports:EDDM:symbol", "NDBs:A:frequency", "Fixes:A B:name", "Low airways:L1:line", "Sids:A:", "Free Text:A\\B:freetext", "Geo:A:", "Ground Network:A:name", "Regions:A:polygon", "ARTCC boundary:A:", "SHOWLEADER:1", "TAGFAMILY:A"][pick(13)]; let n = l.len(); let i = [n, n - 1, l.find(':').unwrap(), l.find(':').unwrap() + 2][pick(4)].min(n); asr(&format!("{}{x}{}\nSHOWC:1\n", &l[..i], &l[i..])); }
    fn h_p03_sym_numbers() { let k = pick(5); let d = if k == 3 { number() } else { digits_upto(1, 5) }; let s = sg(); let f = |i: usize, x: &str| if i == k { format!("{s}{d}") } else { x.to_string() }; sym(&format!("SYMBOLOGY\nSYMBOLSIZE\nA:B:{}:{}:0:{}:1\nSYMBOL:{}\nSYMBOLITEM:MOVETO 0 1\nm_ClipArea:{}\nEND\n", f(0, "255"), f(1, "3.5"), f(2, "1"), f(3, "2"), f(4, "5"))); }
    fn h_p03_sym_rules() { let d = digits_upto(1, 7); let x = format!("{}{d}", sg()); let k = pick(6); let (r, n) = [("MOVETO", 2), ("ARC", 5), ("ARC", 6), ("FILLARC", 5), ("FILLARC", 6), ("ELLIPSE", 3), ("ELLIPSE", 4), ("POLYGON", 4), ("FILLRECT", 4), ("SETPIXEL", 2)][pick(10)]; let mut t = format!("SYMBOLOGY\nSYMBOLSIZE\nA:B:255:3.5:0:1:1\nSYMBOL:2\nSYMBOLITEM:{r}"); for i in 0..n { t.push(' '); t.push_str(if i == k { &x } else { "1" }); } sym(&format!("{t}\nm_ClipArea:5\nEND\n")); }
    fn h_p03_sym_raw() { let x = raw(2); sym(&holes("SYMBOLOGY@\nSYMBOLSIZE\n@A:B@:255:3@.5:0@:1@:1@\nSYMBOL:2@\nSYMBOLITEM:@MOVETO@ 0@ 1@\nm_ClipArea@:5\nEND@\n", &x, pick(14))); }
    fn h_p03_sym_start() { sym(&raw(3)); }
    fn h_p03_prf_start() { if let Some(p) = prf(&raw(3)) { keep((p.squawks_path(), p.topsky_path(), p.recent_path(0), p)); } }
    fn h_p03_prf_raw() { let x = raw(2); let k = pick(5); let t = holes("@Recent@Files\tRecent1@\tC:\\x@.asr\nPlugins\tPlugin0\t\\T@/TopSky.dll\n", &x, k); if let Some(p) = prf(&t) { keep((p.squawks_path(), p.topsky_path(), p.recent_path(1), p)); } }
    fn h_p03_prf_values() { let x = raw(2); let k = pick(3); let t = PRF.replace("\\s.sct", &format!("{}{}{}", ["", "\\", "s."][k], x, ["", "s", ""][pick(3)])); if let Some(p) = prf(&t) { paths(&p); keep(p); } }
    // a profile without the setting asked for
    fn h_p03_prf_missing() { let k = pick(9); if let Some(p) = prf("Settings\tother\t\\x\n") { keep(match k { 0 => p.sct_path(), 1 => p.ese_path(), 2 => p.airways_path(), 3 => p.isec_path(), 4 => p.navdata_airports_path(), 5 => p.airlines_path(), 6 => p.aircraft_path(), 7 => p.airports_path(), _ => p.symbology_path() }); } }
    fn h_p03_prf_optional() { if let Some(p) = prf(&format!("Settings\tother\t\\x{}\n", raw(1))) { keep((p.squawks_path(), p.topsky_path(), p.recent_path(u16s() as u8 & 3))); cover!("optional settings"); } }
    fn h_p03_bytes() { let mut x = [0u8; 2]; symbolic(&mut x); x[0] = [0xE2, 0xED, 0xF0, 0xC3, 0x80][pick(5)]; let k = pick(3); let mut b = [&b"TAGFAMILY:A"[..], &b"SYMBOLOGY\nSYMBOLSIZE\nA:B"[..], &b"A\tB\tC"[..]][k].to_vec(); b.extend_from_slice(&x); b.extend_from_slice([&b"\n"[..], &b":255:3.5:0:1:1\nSYMBOL:2\nSYMBOLITEM:MOVETO 0 1\nm_ClipArea:5\nEND\n"[..], &b"\n"[..]][k]); note(&b); match k { 0 => keep(Asr::parse(&b)), 1 => keep(Symbology::parse(&b)), _ => { let p = format!("{}/x.prf", root()); file(&p, &b); keep(Prf::parse(std::path::Path::new(&p), &b)) } } cover!("any bytes"); }
    // one byte of a well-formed file replaced, left out or put in
    fn h_p03_mutated() { let (k, t) = F[pick(5)]; one(k, &mutated(t)); }
    fn h_p03_inserted() { let (k, t) = F[pick(5)]; one(k, &inserted(t)); }
    fn t_p03_pair() { let (k, t) = F[pick(5)]; one(k, &mutated2(t)); }
}
