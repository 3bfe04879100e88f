//! P05: parsing airway, isec, ICAO, airport-data and squawk files never panics
use crate::{cover, vp::*};
use vatsim_parser::{airway::parse_airway_txt, icao_aircraft::parse_aircraft, icao_airlines::parse_airlines, icao_airports::parse_airports, isec::parse_isec_txt, navdata_airports::parse_navdata_airports, squawks::parse_squawks_json};
fn raw(n: usize) -> String { any_ascii(n) }
fn holes(t: &str, x: &str, k: usize) -> String { let mut o = String::new(); for (i, p) in t.split('@').enumerate() { if i > 0 && i - 1 == k { o.push_str(x); } o.push_str(p); } o }
fn any(k: usize, b: &[u8]) { note(b); let ok = match k { 0 => { let r = parse_airway_txt(b); let o = r.is_ok(); keep(r); o } 1 => { let r = parse_isec_txt(b); let o = r.is_ok(); keep(r); o } 2 => { let r = parse_aircraft(b); let o = r.is_ok(); keep(r); o } 3 => { let r = parse_airlines(b); let o = r.is_ok(); keep(r); o } 4 => { let r = parse_airports(b); let o = r.is_ok(); keep(r); o } 5 => { let r = parse_navdata_airports(b); let o = r.is_ok(); keep(r); o } _ => { let r = parse_squawks_json(b); let o = r.is_ok(); keep(r); o } };
    cover!("returned"); if ok { cover!("read"); } else { cover!("refused"); } }
const AWY: &str = "AB@C\t48@.5\t11.@5\t14\tL1@\tB@\tDEF\t48.6@\t11.6\t0@5000\tY\t@GHI\t48.7\t11.7\tNESTB@\tN@\n";
const SQK: &str = "{\"NonDiscreteColor\":\"#0@1f0@2c\",\"NonDiscreteMessage\":\"a@\",\"NonDiscrete\":[\"10@00\"],\"Squawks\":[{\"code\":\"77@00\",\"message\":\"m\",\"color\":\"#@ff0000@\"},{\"range\":{\"start\":\"1@\",\"end\":\"2\"},\"message\":\"\",\"color\":\"#aabbcc\"}@]}";
const F: [(usize, &str); 9] = [(0, "ABC\t48.5\t-11.5\t14\tL1\tB\tDEF\t48.6\t11.6\t05000\tY\tGHI\t48.7\t11.7\tNESTB\tN\n"), (0, "DEF\t48.6\t11.6\t14\tL1\tH\t\t\t\t\tN\tABC\t48.5\t11.5\t\tY\nJKL\t1.5\t2.5\t14\tT2\tL\t\t0\t0\t0\t0N\n"), (1, "ABC\t48.5\t-11.5\t15\nD1 1.0 2.0 15\n"), (2, "EUFI\tML2J\tALENIA\tEurofighter\nZEPP\t-T-R\tM\tN\nABCD\tLHCE\tM\tN\nABCE\tHG1T\tM\tN\n"), (2, "ABCF\tJA4P\tM\tN\nABCH\tLS8-\tM\tN\nmore\n"), (3, "ABC\tAirline\tCALL\tCountry\n; c\nDEF\t\t\t\n"), (4, "EDDM\tMunich\tGermany\n; c\n"), (5, "EDDM 48.35 -11.7 Munich\n; c\n"), (6, "{\"NonDiscreteColor\":\"#00ff2c\",\"NonDiscreteMessage\":\"a\",\"NonDiscrete\":[\"1000\"],\"Squawks\":[{\"range\":{\"start\":\"1\",\"end\":\"2\"},\"code\":null,\"message\":\"m\",\"color\":\"#aabbcc\"}]}")];
crate::harnesses! {
    // (JSON: no fraction or exponent, whose value would be printed in the refusal)
    fn h_p05_start() { let k = pick(7); let x = raw(3); if k == 6 { for b in x.bytes() { assume(b != b'.' && b | 32 != b'e'); } } any(k, x.as_bytes()); }
    fn h_p05_airway_numbers() { let d = number(); let k = pick(4); let f = |i: usize, x: &str| if i == k { d.clone() } else { x.to_string() }; any(0, format!("ABC\t{}.5\t-1.{}\t14\tL1\tB\tDEF\t{}.5\t1.5\t{}\tY\t\t\t\t\tN\n", f(0, "48"), f(1, "5"), f(2, "48"), f(3, "5000")).as_bytes()); }
    fn h_p05_airway_raw() { let x = raw(2); any(0, holes(AWY, &x, pick(11)).as_bytes()); }
    fn h_p05_isec() { let x = raw(2); any(1, holes("AB@C\t48@.5\t-@11.5@\t1@5\n@D 1.0 2.0 15@\n", &x, pick(7)).as_bytes()); }
    fn h_p05_isec_numbers() { let d = digits_upto(1, 12); any(1, format!("A\t{}{d}.5 1.{d}\t15\n", ["", "-"][pick(2)]).as_bytes()); }
    fn h_p05_aircraft() { let x = raw(2); any(2, holes("EU@FI\t@M@L@2@J\t@ALENIA@\tEurofighter@\n@more\nA\tLL1P\tB\tC\n", &x, pick(9)).as_bytes()); }
    // one character out of every class the grammar distinguishes in the type column
    fn h_p05_aircraft_type() { let t = printable(4, b""); any(2, format!("EUFI\t{t}\tALENIA\tEurofighter\n").as_bytes()); }
    fn h_p05_airlines() { let x = raw(2); any(3, holes("AB@C\t@Airline@\tCALL@\tCountry@\n@; c\n", &x, pick(6)).as_bytes()); }
    fn h_p05_airports() { let x = raw(2); any(4, holes("ED@DM\t@Munich@\tGermany@\n@; c\n", &x, pick(5)).as_bytes()); }
    fn h_p05_navdata() { let x = raw(2); any(5, holes("ED@DM @48.3@5\t11.@7@ Munich@\n@; c\n", &x, pick(7)).as_bytes()); }
    fn h_p05_navdata_numbers() { let d = digits_upto(1, 12); let s = ["", "-", "+", ".", "-."][pick(5)]; any(5, format!("EDDM {s}{d} 1{s}{d} X\n").as_bytes()); }
    fn h_p05_squawks() { let x = raw(2); any(6, holes(SQK, &x, pick(9)).as_bytes()); }
    // a colour with two bytes of any value
    fn h_p05_colour() { let mut x = [0u8; 2]; symbolic(&mut x); let mut b = b"{\"NonDiscreteColor\":\"#012".to_vec(); b.extend_from_slice(&x); b.extend_from_slice(b"2\",\"NonDiscreteMessage\":\"\",\"NonDiscrete\":[],\"Squawks\":[]}"); any(6, &b); }
    fn h_p05_bytes() { let mut x = [0u8; 2]; symbolic(&mut x); x[0] = [0xE2, 0xED, 0xF0, 0xC3, 0x80][pick(5)]; let k = pick(7); let mut b = [&b"A"[..], &b"A"[..], &b"E"[..], &b"ABC\tA"[..], &b"E"[..], &b"EDDM 1.0 2.0 A"[..], &b"{\"NonDiscreteMessage\":\""[..]][k].to_vec(); b.extend_from_slice(&x); b.extend_from_slice([&b"\t48.5\t11.5\t14\tL1\tB\t\t\t\t\tN\t\t\t\t\tN\n"[..], &b" 1.0 2.0 15\n"[..], &b"\tML2J\tA\tB\n"[..], &b"\tB\tC\n"[..], &b"\tA\tB\n"[..], &b"\n"[..], &b"\"}"[..]][k]); any(k, &b); cover!("any bytes"); }
    // one byte of a well-formed file replaced, left out or put in
    fn h_p05_mutated() { let (k, t) = F[pick(9)]; any(k, &mutated(t)); }
    fn h_p05_inserted() { let (k, t) = F[pick(8)]; any(k, &inserted(t)); }
    fn t_p05_pair() { let (k, t) = F[pick(8)]; any(k, &mutated2(t)); }
}
