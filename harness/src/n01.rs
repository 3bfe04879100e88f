//! N01: files are decoded as UTF-8 or else Windows-1252, without loss of bytes
use crate::{check, cover, vp::*};
use vatsim_parser::{asr::Asr, ese::Ese, icao_airlines::parse_airlines, icao_airports::parse_airports, icao_aircraft::parse_aircraft, navdata_airports::parse_navdata_airports, sct::Sct, symbology::Symbology, topsky::Topsky};
const HIGH: [u32; 32] = [0x20AC, 0x81, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0x8D, 0x17D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0x9D, 0x17E, 0x178];
fn cont(b: u8) -> bool { b & 0xC0 == 0x80 }
/// well-formed UTF-8 (Unicode table 3-7)
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i]; let r = &b[i + 1..];
        if c < 0x80 { i += 1; }
        else if (0xC2..0xE0).contains(&c) && !r.is_empty() && cont(r[0]) { i += 2; }
        else if (0xE0..0xF0).contains(&c) && r.len() > 1 && cont(r[0]) && cont(r[1]) && !(c == 0xE0 && r[0] < 0xA0) && !(c == 0xED && r[0] > 0x9F) { i += 3; }
        else if (0xF0..0xF5).contains(&c) && r.len() > 2 && cont(r[0]) && cont(r[1]) && cont(r[2]) && !(c == 0xF0 && r[0] < 0x90) && !(c == 0xF4 && r[0] > 0x8F) { i += 4; }
        else { return false; }
    }
    true
}
/// the text the bytes denote, itself written in UTF-8
fn text(b: &[u8], all: &[u8]) -> Vec<u8> {
    if utf8(all) { cover!("UTF-8"); return b.to_vec(); }
    cover!("Windows-1252");
    let mut o = vec![]; for &c in b { let u = if c < 0x80 { c as u32 } else if c < 0xA0 { HIGH[concrete((c - 0x80) as u64) as usize] } else { c as u32 };
        if u < 0x80 { o.push(u as u8); } else if u < 0x800 { o.push(0xC0 | (u >> 6) as u8); o.push(0x80 | (u & 63) as u8); } else { o.push(0xE0 | (u >> 12) as u8); o.push(0x80 | (u >> 6 & 63) as u8); o.push(0x80 | (u & 63) as u8); } }
    o
}
fn cat(v: &[&[u8]]) -> Vec<u8> { let b = v.concat(); note(&b); b }
fn is(got: Option<&str>, x: &[u8], all: &[u8]) { let e = text(x, all); match got { None => { check!(false, "a file of any bytes decodes"); } Some(g) => { check!(g.len() == e.len(), "no character is dropped or added"); check!(g.as_bytes() == &e[..], "a file is read as UTF-8 if it is, else as Windows-1252"); } } }
/// bytes that end no field of any format
fn some(n: usize) -> Vec<u8> { let mut x = vec![0u8; n]; symbolic(&mut x); for b in &x { assume(*b > b' ' && *b != b':' && *b != b';' && *b != b'/' && *b != b'"' && *b != b'[' && *b != b'*' && *b != b'|' && *b != b'='); assume(*b != 0x7f); } x }
fn three(x: &[u8]) { let all = cat(&[b"TAGFAMILY:A", x, b"B\nSHOWC:0\n"]); let a = Asr::parse(&all).ok(); is(a.as_ref().map(|a| &a.tag_family[..]).map(|t| { check!(t.len() > 1 && t.as_bytes()[0] == b'A' && t.as_bytes()[t.len() - 1] == b'B', "ASCII characters are kept"); &t[1..t.len() - 1] }), x, &all); check!(a.is_some_and(|a| !a.show_c), "the lines after it are read"); }
crate::harnesses! {
    // three bytes of any value in a text (what follows and precedes is ASCII)
    fn h_n01_bytes() { let x = some(3); assume(x[0] >= 0xDF && x[0] <= 0xF0 && x[1] >= 0x80); three(&x); }
    fn t_n01_bytes() { let x = some(3); three(&x); }
    fn h_n01_two() { let (x, y) = (some(1), some(1)); let all = cat(&[b"SECTORFILE:", &x, b"\nSECTORTITLE:", &y, b"\n"]); let a = Asr::parse(&all).ok(); is(a.as_ref().map(|a| &a.sector_file[..]), &x, &all); is(a.as_ref().map(|a| &a.sector_title[..]), &y, &all); }
    fn h_n01_four() { let mut x = vec![0u8; 4]; symbolic(&mut x); assume(x[0] >= 0xEF && x[0] <= 0xF5 && x[1] >= 0x80 && x[2] >= 0xBE && x[2] < 0xC2 && x[3] >= 0xBE && x[3] < 0xC2); let all = cat(&[b"TAGFAMILY:A", &x, b"\n"]); let a = Asr::parse(&all).ok(); is(a.as_ref().map(|a| &a.tag_family[1..]), &x, &all); }
    fn t_n01_four() { let mut x = vec![0u8; 4]; symbolic(&mut x); assume(x[0] >= 0xEF && x[1] >= 0x80 && x[2] >= 0x80 && x[3] >= 0x80); let all = cat(&[b"TAGFAMILY:A", &x, b"\n"]); let a = Asr::parse(&all).ok(); is(a.as_ref().map(|a| &a.tag_family[1..]), &x, &all); }
    fn h_n01_end() { let x = some(2); let all = cat(&[b"TAGFAMILY:A", &x]); let a = Asr::parse(&all).ok(); is(a.as_ref().map(|a| &a.tag_family[1..]), &x, &all); }
    // every kind of file
    fn h_n01_kinds() { let k = pick(8); let x = some(2); match k {
        0 => { let all = cat(&[b"[SIDSSTARS]\nSID:EDDM:26R:A", &x, b":A\n"]); let e = Ese::parse(&all).ok(); is(e.as_ref().and_then(|e| e.sids_stars.first()).map(|s| match s { vatsim_parser::ese::SidStar::Sid(s) => &s.name[1..], vatsim_parser::ese::SidStar::Star(s) => &s.name[1..] }), &x, &all); keep(e); }
        1 => { let all = cat(&[b"[LABELS]\n\"A", &x, b"\" N048.00.00.000 E011.00.00.000 red\n"]); let e = Sct::parse(&all).ok(); is(e.as_ref().and_then(|e| e.labels.first()).map(|s| &s.name[1..]), &x, &all); keep(e); }
        2 => { let all = cat(&[b"AAA\tA", &x, b"\tC\tL\n"]); let e = parse_airlines(&all).ok(); is(e.as_ref().and_then(|e| e.get("AAA")).map(|s| &s.name[1..]), &x, &all); keep(e); }
        3 => { let all = cat(&[b"AAAA\tA", &x, b"\tL\n"]); let e = parse_airports(&all).ok(); is(e.as_ref().and_then(|e| e.get("AAAA")).map(|s| &s.name[1..]), &x, &all); keep(e); }
        4 => { let all = cat(&[b"AAAA\tML2J\tM\tA", &x, b"\n"]); let e = parse_aircraft(&all).ok(); is(e.as_ref().and_then(|e| e.0.get("AAAA")).map(|s| &s.name[1..]), &x, &all); keep(e); }
        5 => { let all = cat(&[b"AAAA 1.5 2.5 A", &x, b"\n"]); let e = parse_navdata_airports(&all).ok(); is(e.as_ref().and_then(|e| e.get("AAAA")).map(|s| &s.name[1..]), &x, &all); keep(e); }
        6 => { let all = cat(&[b"SYMBOLOGY\nSYMBOLSIZE\nA", &x, b":B:255:3.5:0:1:1\nSYMBOL:2\nSYMBOLITEM:MOVETO 0 1\nm_ClipArea:5\nEND\n"]); let e = Symbology::parse(&all).ok(); is(e.as_ref().and_then(|e| e.items.0.values().next()).map(|s| &s.folder[1..]), &x, &all); keep(e); }
        _ => { let all = cat(&[b"MAP:M\nFOLDER:A", &x, b"\n"]); let r = root(); file(&format!("{r}/TopSkySettings.txt"), b"A=1\n"); file(&format!("{r}/TopSkyMaps.txt"), &all); let t = Topsky::parse(std::path::Path::new(&r)).ok(); let mut f = None; if let Some(t) = &t { if let Some(m) = t.maps.first() { for r in &m.rules { if let vatsim_parser::topsky::map::MapRule::Folder(x) = r { f = Some(&x[1..]); } } } } is(f, &x, &all); keep(t); }
    } cover!("every kind of file"); }
}
