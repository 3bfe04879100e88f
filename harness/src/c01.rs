//! C01: a coordinate denotes sign x (deg + min/60 + sec/3600)
use crate::{check, cover, vp::*};
use vatsim_parser::{sct::Sct, ese::Ese, DegMinSecExt, Sign, Location};
use geo::{Coord, Point};
/// hemisphere letter: (text, negative)
fn hemi(lat: bool) -> (char, bool) { let i = pick(4); let (c, n) = if lat { [('N', false), ('S', true), ('n', false), ('s', true)][i] } else { [('E', false), ('W', true), ('e', false), ('w', true)][i] }; (c, n) }
/// degrees (digits), two-digit minutes, seconds ss.mmm: (text, value in units of 1/1000 arc second)
fn part(nd: usize, ns: usize) -> (String, i64) {
    let d = digits(nd); let m = digits(2); let s = digits(2); let f = digits(ns);
    let mut k = 1000; for _ in 0..ns { k /= 10; }
    let v = num(&d) * 3_600_000 + num(&m) * 60_000 + num(&s) * 1000 + num(&f) * k;
    (if ns == 0 { format!("{d}.{m}.{s}") } else { format!("{d}.{m}.{s}.{f}") }, v)
}
fn denotes(got: f64, v: i64, neg: bool) {
    let e = v as f64 / 3_600_000.0; let e = if neg { -e } else { e };
    check!(close(got, e), "the coordinate is sign x (deg + min/60 + sec/3600) within 1e-9 degree");
    check!(got.is_sign_negative() == neg || v == 0, "southern and western coordinates are negative, others are not");
}
fn fix_line(h1: char, p1: &str, h2: char, p2: &str) -> Option<Point> {
    let t = format!("[FIXES]\nABCDE {h1}{p1} {h2}{p2}\n");
    match Sct::parse(t.as_bytes()) { Ok(s) => { let r = if s.fixes.len() == 1 { Some(s.fixes[0].coordinate) } else { None }; keep(s); r } Err(_) => None }
}
crate::harnesses! {
    // any degrees, minutes and seconds with three decimals, northern/eastern
    fn h_c01_sct_digits() {
        let (a, va) = part(3, 3); let (b, vb) = part(3, 3);
        match fix_line('N', &a, 'E', &b) { Some(p) => { cover!("sct fix read"); denotes(p.y(), va, false); denotes(p.x(), vb, false); } None => check!(false, "a well-formed coordinate is read") }
    }
    // all hemisphere letters
    fn h_c01_sct_hemi() {
        let (h1, n1) = hemi(true); let (h2, n2) = hemi(false);
        let d = digits(3);
        match fix_line(h1, &format!("{d}.07.30.5"), h2, "012.45.00.000") { Some(p) => { cover!("sct hemispheres"); denotes(p.y(), num(&d) * 3_600_000 + 7 * 60_000 + 30_500, n1); denotes(p.x(), 12 * 3_600_000 + 45 * 60_000, n2); } None => check!(false, "a well-formed coordinate is read") }
    }
    // zero degrees keep their sign
    fn h_c01_zero_degrees() {
        let m = digits(2); let s = digits(2);
        match fix_line('S', &format!("000.{m}.{s}.000"), 'W', &format!("0.{s}.{m}.000")) { Some(p) => { cover!("zero degrees"); denotes(p.y(), num(&m) * 60_000 + num(&s) * 1000, true); denotes(p.x(), num(&s) * 60_000 + num(&m) * 1000, true); } None => check!(false, "a well-formed coordinate is read") }
    }
    // other digit counts: 1..=4 degree digits, seconds without decimals or with up to 6
    fn h_c01_widths() {
        let nd = 1 + pick(4); let ns = pick(4);
        let (a, va) = part(nd, ns);
        match fix_line('N', &a, 'W', "000.00.00.000") { Some(p) => { cover!("digit counts"); denotes(p.y(), va, false); check!(p.x() == 0.0, "zero is read as zero"); } None => check!(false, "a well-formed coordinate is read") }
    }
    // the public constructor, every degree, minute and whole second plus thousandths
    fn h_c01_api() {
        let (d1, m1, s1, d2, m2, s2) = (u16s(), byte(), u32s(), u16s(), byte(), u32s()); assume(s1 < 60_000 && s2 < 60_000);
        let n1 = pick(2) == 1; let n2 = pick(2) == 1; let sg = |n| if n { Sign::Neg } else { Sign::Pos };
        let c = Coord::from_deg_min_sec((sg(n1), d1, m1, s1 as f64 / 1000.0), (sg(n2), d2, m2, s2 as f64 / 1000.0));
        cover!("constructor");
        denotes(c.y, d1 as i64 * 3_600_000 + m1 as i64 * 60_000 + s1 as i64, n1); denotes(c.x, d2 as i64 * 3_600_000 + m2 as i64 * 60_000 + s2 as i64, n2);
    }
    // extension file: sector border
    fn h_c01_ese() {
        let (h1, n1) = hemi(true); let (h2, n2) = hemi(false);
        let (a, va) = part(3, 3); let (b, vb) = part(3, 3);
        let t = format!("[AIRSPACE]\nSECTORLINE:L\nCOORD:{h1}{a}:{h2}{b}\nSECTOR:S:0:100\nOWNER:A\nBORDER:L\n");
        match Ese::parse(t.as_bytes()) { Ok(e) => {
            let l = e.sectors.get("S"); check!(l.is_some() && l.unwrap().border.len() == 1 && l.unwrap().border[0].points.0.len() == 1, "the border line is read with its point");
            let c = l.unwrap().border[0].points.0[0]; cover!("ese border point"); denotes(c.y, va, n1); denotes(c.x, vb, n2); keep(e); }
            Err(_) => check!(false, "a well-formed coordinate is read") }
    }
    // every other place of a sector file that holds a coordinate
    fn h_c01_sct_sites() {
        let d = digits(2); let m = digits(2); let s = digits(2); let f = digits(1);
        let v = num(&d) * 3_600_000 + num(&m) * 60_000 + num(&s) * 1000 + num(&f) * 100;
        let a = format!("S{d}.{m}.{s}.{f}"); let b = format!("E1{d}.{m}.{s}.{f}"); let w = v + 360_000_000;
        let k = pick(11);
        let t = match k {
            0 => format!("[AIRPORT]\nEDDM 120.5 {a} {b} D\n"), 1 => format!("[VOR]\nMUN 112.3 {a} {b}\n"), 2 => format!("[NDB]\nMNW 338 {a} {b}\n"),
            3 => format!("[RUNWAY]\n08L 26R 083 263 {a} {b} N001.00.00.000 E002.00.00.000 EDDM X\n"), 4 => format!("[RUNWAY]\n08L 26R 083 263 N001.00.00.000 E002.00.00.000 {a} {b} EDDM X\n"),
            5 => format!("[GEO]\nG {a} {b} N001.00.00.000 E002.00.00.000 C\n"), 6 => format!("[HIGH AIRWAY]\nL1 N001.00.00.000 E002.00.00.000 {a} {b}\n"),
            7 => format!("[REGIONS]\nREGIONNAME R\nC {a} {b}\n"), 8 => format!("[LABELS]\n\"T\" {a} {b} C\n"), 9 => format!("[STAR]\nS N001.00.00.000 E002.00.00.000 {a} {b}\n"),
            _ => format!("[INFO]\nA\nB\nC\n{a}\n{b}\n60\n39\n-3\n1\n") };
        match Sct::parse(t.as_bytes()) { Ok(r) => { let l = |l: &Location| match l { Location::Coordinate(p) => Some(*p), _ => None };
            let p = match k { 0 => r.airports.first().map(|x| x.coordinate), 1 => r.vors.first().map(|x| x.coordinate), 2 => r.ndbs.first().map(|x| x.coordinate), 3 => r.runways.first().map(|x| x.location.0), 4 => r.runways.first().map(|x| x.location.1),
                5 => r.geo.first().and_then(|x| l(&x.line_groups[0].lines[0].points[0])), 6 => r.high_airways.first().and_then(|x| l(&x.end)), 7 => r.regions.first().map(|x| Point(x.polygon[0])), 8 => r.labels.first().and_then(|x| l(&x.coordinate)),
                9 => r.stars.first().and_then(|x| l(&x.line_groups[0].lines[0].points[1])), _ => Some(r.info.centre_point) };
            cover!("sector-file sites"); match p { Some(p) => { denotes(p.y(), v, true); denotes(p.x(), w, false); } None => check!(false, "the coordinate is found where the file puts it") } keep(r); }
            Err(_) => check!(false, "a well-formed coordinate is read") }
    }
    // TopSky maps: degree-minute-second and decimal notation
    fn h_c01_topsky() {
        let (h1, n1) = hemi(true); let (h2, n2) = hemi(false);
        let (a, va) = part(3, 3); let (b, vb) = part(3, 3);
        topsky_coord(&format!("{h1}{a}:{h2}{b}"), |c| { cover!("topsky"); denotes(c.y(), va, n1); denotes(c.x(), vb, n2); });
    }
    fn h_c01_topsky_decimal() {
        let (i, f) = (digits(2), digits(3)); let n = pick(2) == 1; let v = (num(&i) * 1000 + num(&f)) * 3600; let (j, g) = (digits(3), digits(2)); let w = (num(&j) * 100 + num(&g)) * 36_000;
        topsky_coord(&format!("{}{i}.{f}:{j}.{g}", if n { "-" } else { "" }), |c| { cover!("topsky decimal"); denotes(c.y(), v, n); denotes(c.x(), w, false); });
    }
}
fn topsky_coord(c: &str, f: impl FnOnce(Point)) {
    use vatsim_parser::topsky::{Topsky, map::MapRule};
    let r = root(); file(&format!("{r}/TopSkySettings.txt"), b"Foo=1\n"); file(&format!("{r}/TopSkyMaps.txt"), format!("MAP:M\nCOORD:{c}\n").as_bytes());
    match Topsky::parse(std::path::Path::new(&r)) { Ok(t) => { check!(t.maps.len() == 1 && t.maps[0].rules.len() == 1, "the map holds its one coordinate");
        match &t.maps[0].rules[0] { MapRule::Coord(Location::Coordinate(p)) => f(*p), _ => check!(false, "the coordinate is read as a coordinate") } keep(t); }
        Err(_) => check!(false, "a well-formed coordinate is read") }
}
