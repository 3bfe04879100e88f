//! C03: reading a millisecond-precise coordinate and writing it gives the same text
use crate::{check, cover, vp::*};
use vatsim_parser::{sct::Sct, DegMinSecExt};
fn sixty() -> String { mk(vec![byte_in(b'0', b'5'), digit()]) }
fn part() -> String { let d = digits(3); let m = sixty(); let s = sixty(); let f = digits(3); format!("{d}.{m}.{s}.{f}") }
fn trip(a: &str, b: &str) {
    let t = format!("[FIXES]\nABCDE {a} {b}\n");
    match Sct::parse(t.as_bytes()) { Ok(s) => { check!(s.fixes.len() == 1, "the fix is read"); let c = s.fixes[0].coordinate; cover!("round trip");
        let (x, y, z) = (c.lat_deg_min_sec_fmt(), c.lng_deg_min_sec_fmt(), c.deg_min_sec_fmt());
        check!(same(&x, a), "the latitude is written as it was read"); check!(same(&y, b), "the longitude is written as it was read");
        check!(same(&z, &format!("{x} {y}")), "both are written, latitude first"); keep((s, x, y, z)); }
        Err(_) => check!(false, "a well-formed coordinate is read") }
}
crate::harnesses! {
    fn h_c03_lat() { let h = ["N", "S"][pick(2)]; trip(&format!("{h}{}", part()), "E011.47.09.500"); }
    fn h_c03_lng() { let h = ["E", "W"][pick(2)]; trip("S048.21.13.999", &format!("{h}{}", part())); }
    fn t_c03_both() { let n = pick(4); let a = format!("{}{}", ["N", "S"][n & 1], part()); let b = format!("{}{}", ["E", "W"][n >> 1], part()); trip(&a, &b); }
    // fewer degree digits, lower-case letters: canonical form comes back
    fn h_c03_canonical() {
        let d = digits(2); let m = sixty(); let f = digits(1); let i = pick(2);
        let h = ["n", "s"][i]; let hc = ["N", "S"][i];
        let t = format!("[FIXES]\nABCDE {h}{d}.{m}.{m}.{f} w7.{m}.{m}\n");
        match Sct::parse(t.as_bytes()) { Ok(s) => { check!(s.fixes.len() == 1, "the fix is read"); let c = s.fixes[0].coordinate; cover!("canonical form");
            let z = c.deg_min_sec_fmt(); check!(same(&z, &format!("{hc}0{d}.{m}.{m}.{f}00 W007.{m}.{m}.000")), "the canonical form is written"); keep((s, z)); }
            Err(_) => check!(false, "a well-formed coordinate is read") }
    }
}
