//! C02: a coordinate is written as a well-formed degree-minute-second string that denotes it
use crate::{check, cover, vp::*};
use vatsim_parser::DegMinSecExt;
use geo::Coord;
/// checks hemisphere letter and shape; returns the value in thousandths of an arc second
fn shape(t: &str, neg: bool, pos_c: u8, neg_c: u8) -> Option<i64> {
    let b = t.as_bytes(); let n = b.len();
    if n < 14 { check!(false, "the text has hemisphere, three or more degree digits, minutes, seconds and thousandths"); return None; }
    check!(b[0] == if neg { neg_c } else { pos_c }, "the hemisphere letter is that of the sign");
    let dots = b[n - 4] == b'.' && b[n - 7] == b'.' && b[n - 10] == b'.';
    check!(dots, "degrees, minutes, seconds and thousandths are separated by dots");
    let mut ok = true; let dg = |i: usize, ok: &mut bool| -> u64 { let c = b[i]; *ok &= c >= b'0' && c <= b'9'; (c & 15) as u64 };
    let w = |a: u64, k: u64, b: u64| a.wrapping_mul(k).wrapping_add(b);
    let mut deg = 0u64; for i in 1..n - 10 { deg = w(deg, 10, dg(i, &mut ok)); }
    let m = w(dg(n - 9, &mut ok), 10, dg(n - 8, &mut ok)); let s = w(dg(n - 6, &mut ok), 10, dg(n - 5, &mut ok)); let f = w(w(dg(n - 3, &mut ok), 10, dg(n - 2, &mut ok)), 10, dg(n - 1, &mut ok));
    check!(ok, "every other character is a decimal digit");
    check!(m < 60, "minutes are below 60"); check!(s < 60, "seconds are below 60");
    Some(w(w(w(deg, 60, m), 60, s), 1000, f) as i64)
}
/// the text denotes y to half a thousandth of an arc second (plus 2e-12 relative noise)
fn denotes(v: i64, y: f64) {
    let e = if y < 0.0 { -y } else { y };
    let d = v as f64 / 3_600_000.0 - e;
    check!(d < 1.3889e-7 + 1e-11 && d > -(1.3889e-7 + 1e-11), "the text denotes the coordinate to within half a thousandth of an arc second");
}
fn run(y: f64, x: f64, ny: bool, nx: bool) {
    let c = Coord { x, y };
    let (a, b) = (c.lat_deg_min_sec_fmt(), c.lng_deg_min_sec_fmt());
    if let Some(v) = shape(&a, ny, b'N', b'S') { denotes(v, y); }
    if let Some(v) = shape(&b, nx, b'E', b'W') { denotes(v, x); }
    keep(a); keep(b);
}
/// a fraction of a degree with k bits, as exact binary fraction
fn deg() -> u16 { byte_in(0, 3) as u16 * 256 + byte() as u16 }
fn frac() -> f64 { u32s() as f64 / 4294967296.0 }
crate::harnesses! {
    // any degree 0..=1023 with any 32-bit binary fraction, all four sign combinations
    fn h_c02_any() {
        let d = deg(); let n = pick(4);
        let y = d as f64 + frac(); let (ny, nx) = (n & 1 == 1, n & 2 == 2);
        assume(y != 0.0);
        cover!("formatted");
        let y = if ny { -y } else { y }; let x = if nx { -11.25 } else { 11.25 };
        run(y, x, ny, nx);
    }
    // longitude
    fn h_c02_lng() {
        let d = deg(); let n = flag();
        let x = d as f64 + frac(); assume(x != 0.0); cover!("longitude");
        if n { run(0.5, -x, false, true) } else { run(0.5, x, false, false) }
    }
    // just below a full minute, second or degree (53-bit fractions)
    fn h_c02_carry() {
        let d = byte(); let k = [1u16, 60, 3540, 3600][pick(4)]; let e = u16s();
        // d degrees + 1, 60, 3540 or 3600 seconds - up to 2^-16 of a millisecond in 2^-32 steps
        let y = d as f64 + k as f64 / 3600.0 - e as f64 / 4294967296.0 / 3600.0 / 1000.0;
        cover!("carry");
        run(y, 0.25, false, false);
    }
    // zero keeps the northern/eastern hemisphere
    fn h_c02_zero() { let c = Coord { x: 0.0, y: 0.0 }; cover!("zero"); let t = c.deg_min_sec_fmt(); check!(same(&t, "N000.00.00.000 E000.00.00.000"), "zero is written with zeros"); keep(t); }
}
