//! S05: colour definitions are found wherever they stand, and the last one wins
use crate::{check, co::*, cover, vp::*};
use vatsim_parser::sct::Sct;
const SECS: [(&str, &str, &str); 15] = [("VOR", "A 112.3 ", ""), ("NDB", "A 368 ", ""), ("FIXES", "AAA ", ""), ("AIRPORT", "EDDM . ", " D"), ("RUNWAY", "08 26 83 263 N001.00.00 E001.00.00 ", " EDDM"), ("SID", "S A A ", " red"), ("STAR", "S A A ", ""), ("ARTCC HIGH", "S A A ", " red"), ("ARTCC", "S A A ", ""), ("ARTCC LOW", "S A A ", ""), ("HIGH AIRWAY", "L1 A A ", ""), ("LOW AIRWAY", "L1 A A ", ""), ("REGIONS", "REGIONNAME R\nC ", ""), ("LABELS", "\"A\" ", " red"), ("GEO", "S A A ", "")];
fn count(s: &Sct) -> [usize; 15] { [s.vors.len(), s.ndbs.len(), s.fixes.len(), s.airports.len(), s.runways.len(), s.sids.len(), s.stars.len(), s.artccs_high.len(), s.artccs.len(), s.artccs_low.len(), s.high_airways.len(), s.low_airways.len(), s.regions.len(), s.labels.len(), s.geo.len()] }
fn equal(a: &Sct, b: &Sct) -> bool { count(a) == count(b) && a.info == b.info && a.vors == b.vors && a.ndbs == b.ndbs && a.fixes == b.fixes && a.airports == b.airports && a.runways == b.runways && a.sids == b.sids && a.stars == b.stars && a.artccs == b.artccs && a.artccs_high == b.artccs_high && a.artccs_low == b.artccs_low && a.high_airways == b.high_airways && a.low_airways == b.low_airways && a.regions == b.regions && a.labels == b.labels && a.geo == b.geo }
fn read(t: &str) -> Sct { note(t.as_bytes()); match Sct::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a file with colour definitions is read"); assume(false); unreachable!() } } }
const INFO: [&str; 9] = ["[INFO]\n", "AB\n", "CS\n", "EDDM\n", "N001.00.00.000\n", "E001.00.00.000\n", "60\n40\n", "3\n", "1\n"];
/// a file with one text inserted before line `k` (0 top of the file, 1 after the header, 2 after one entry, 3 at the end)
fn file(i: usize, k: usize, x: &str) -> String { let (n, a, b) = SECS[i]; let f = |j: usize| if j == k { x } else { "" }; let (c, d) = (fixed(3).t, fixed(5).t); format!("{}[{n}]\n{}{a}{c}{b}\n{}{a}{d}{b}\n{}[{}]\n", f(0), f(1), f(2), f(3), if i == 0 { "GEO" } else { "VOR" }) }
fn has(s: &Sct, n: &str, v: i64) -> bool { match s.colours.get(n) { Some(c) => c.r as i64 == v & 255 && c.g as i64 == v >> 8 & 255 && c.b as i64 == v >> 16 & 255, None => false } }
crate::harnesses! {
    // every section, every place, any name, any number of up to five digits
    fn h_s05_place() { let i = pick(15); let k = pick(4); let n = format!("a{}", word(1, b"!\"#$%&'()*+,./:;<=>?@[\\]^`{|}~")); let d = digits(5); let s = read(&file(i, k, &format!("#define {n} {d}\n"))); let r = read(&file(i, 9, ""));
        cover!("placed"); check!(s.colours.len() == 1 && has(&s, &n, num(&d)), "the colour is recorded under its name, wherever it stands"); check!(equal(&s, &r), "the other entries are as without the definition"); check!(r.colours.is_empty(), "no colour is made up"); keep((s, r)); }
    fn h_s05_info() { let k = [0, 1, 9][pick(3)]; let d = digits(4); let mut t = String::new(); let mut u = String::new(); for j in 0..9 { if j == k { t.push_str(&format!("#define XY {d}\n")); } t.push_str(INFO[j]); u.push_str(INFO[j]); } if k == 9 { t.push_str(&format!("#define XY {d}\n")); } t.push_str("[VOR]\n"); u.push_str("[VOR]\n");
        let s = read(&t); let r = read(&u); cover!("around the info section"); check!(s.colours.len() == 1 && has(&s, "XY", num(&d)), "a colour next to the info section is recorded"); check!(equal(&s, &r), "the info section is as without the definition"); keep((s, r)); }
    // three definitions in different places: the last one of a name wins
    fn h_s05_last() { let (a, b, c) = (digits(3), digits(3), digits(3)); let (i, j) = (pick(3), pick(3)); let m = ["AA", "Aa", "AB"]; let x = fixed(3).t;
        let s = read(&format!("#define AA {a}\n[FIXES]\n#define {} {b}\nFFF {x}\n[VOR]\nV 112.3 {x}\n[GEO]\nG A A {x} red\n#define {} {c}\nH A A {x}\n", m[i], m[j]));
        cover!("repeated"); let mut e = vec![("AA", num(&a))]; for (n, v) in [(m[i], num(&b)), (m[j], num(&c))] { e.retain(|z| z.0 != n); e.push((n, v)); }
        check!(s.colours.len() == e.len(), "one colour per name"); for (n, v) in e { check!(has(&s, n, v), "the last definition of a name wins"); } check!(s.geo.len() == 2 && s.fixes.len() == 1 && s.vors.len() == 1, "no entry is lost"); keep(s); }
    // numbers that are no colour
    fn h_s05_invalid() { let i = pick(15); let k = pick(4); let n = ["16777216", "2147483647", "2147483648", "99999999999", "16777215", "+0"][pick(6)]; let s = read(&file(i, k, &format!("#define AA {n}\n#define BB 7\n"))); let r = read(&file(i, 9, ""));
        let ok = n == "16777215" || n == "+0"; cover!("no colour"); check!(s.colours.contains_key("AA") == ok, "only a number that is a colour is recorded"); check!(has(&s, "BB", 7), "an invalid number does not affect the definitions after it"); check!(equal(&s, &r), "an invalid number leaves the rest of the file readable"); keep((s, r)); }
    fn h_s05_big() { let d = digits(8); let s = read(&format!("[VOR]\n#define AA {d}\n")); cover!("eight digits"); let v = num(&d); check!(if v > 0xFFFFFF { s.colours.is_empty() } else { has(&s, "AA", v) }, "a number is a colour exactly up to 0xFFFFFF"); keep(s); }
}
