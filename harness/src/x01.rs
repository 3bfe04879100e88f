//! X01: isec data is written back losslessly
use crate::{check, cover, vp::*};
use vatsim_parser::isec::{parse_isec_txt, IsecMap};
fn read(t: &str) -> IsecMap { note(t.as_bytes()); match parse_isec_txt(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
fn des(n: usize) -> String { if pick(2) == 0 { uppers(n) } else { digits(n) } }
const V: [(&str, f64); 12] = [("0.000000", 0.0), ("-0.500000", -0.5), ("48.353784", 48.353784), ("-11.786086", -11.786086), ("179.999999", 179.999999), ("-99.000001", -99.000001), ("-179.999999", -179.999999), ("-100.123456", -100.123456), ("89.999999", 89.999999), ("0.000001", 0.000001), ("-9.999999", -9.999999), ("100.000005", 100.000005)];
/// the fixes of a designator, in order
fn of<'a>(m: &'a IsecMap, d: &str) -> Vec<(&'a str, f64, f64)> { m.get_vec(d).map_or(vec![], |v| v.iter().map(|f| (&f.designator[..], f.coordinate.y(), f.coordinate.x())).collect()) }
crate::harnesses! {
    // the fields of a line
    fn h_x01_fields() { let d = des(3); assume(!same(&d, "ZZZ")); let (g, h) = (digits(4), digits(3)); let (s, u) = (["", "-"][pick(2)], ["", "-"][pick(2)]); let sep = ["\t", "  ", " \t "][pick(3)]; let nl = ["\n", "\r\n", "\n\n"][pick(3)]; let l = format!("{d}{sep}{s}{}.{}{sep}{u}{}.{}{sep}15{nl}", &g[..2], &g[2..], &h[..2], &h[2..]); let o = "ZZZ 1.5 2.5 15\n"; let m = read(&if pick(2) == 0 { format!("{l}{o}") } else { format!("{nl}{o}{l}") }); cover!("fields");
        let v = of(&m, &d); check!(v.len() == 1, "every fix is kept under its designator"); if v.len() == 1 { let f = |t: &str, k: f64, s: &str| { let v = num(t) as f64 / k; if s == "-" { -v } else { v } }; check!(same(v[0].0, &d), "the designator is that of the line"); check!(close(v[0].1, f(&g, 100.0, s)), "the latitude is the first number"); check!(close(v[0].2, f(&h, 10.0, u)), "the longitude is the second number"); } check!(of(&m, "ZZZ") == [("ZZZ", 1.5, 2.5)], "lines next to it are kept, too"); check!(m.len() == 2, "one fix per line"); keep(m); }
    // repeated designators: all fixes, in order
    fn h_x01_repeated() { let d = [uppers(1), uppers(1), uppers(1)]; let m = read(&format!("{} 1.0 2.0 15\n{} 3.0 4.0 15\n{} {} 15\n", d[0], d[1], d[2], ["5.0 6.0", "1.0 2.0"][pick(2)])); cover!("repeated"); let mut n = 0; for (i, x) in d.iter().enumerate() { let w: Vec<usize> = (0..3).filter(|j| same(&d[*j], x)).collect(); let v = of(&m, x); check!(v.len() == w.len(), "every fix of a repeated designator is kept"); for (f, j) in v.iter().zip(&w) { check!(f.1 == [1.0, 3.0, f.1][*j], "fixes of a repeated designator stand in file order"); } if w[0] == i { n += v.len(); } } check!(n == 3, "one fix per line"); keep(m); }
    // written and read again
    fn h_x01_written() { let (a, b) = (des(2), des(2)); let (i, j) = (pick(12), pick(12)); let (k, l) = (pick(2), pick(3)); let m = read(&format!("{a} {} {} 15\n{b} {} {} 15\n", V[i].0, V[j].0, V[k * 7].0, V[l].0)); let t = m.to_string(); note(t.as_bytes()); let n = read(&t); cover!("written and read"); for x in [&a, &b] { let (v, w) = (of(&m, x), of(&n, x)); check!(v.len() == w.len(), "no fix is lost or added"); for (p, q) in v.iter().zip(&w) { check!(same(p.0, q.0), "designators are kept"); check!(p.1 == q.1 && p.2 == q.2, "coordinates are kept"); } } let v = of(&m, &a); check!(v[0].1 == V[i].1 && v[0].2 == V[j].1, "the coordinates are those of the file"); check!(t.matches('\n').count() == 2, "one line per fix"); keep((m, n)); }
}
