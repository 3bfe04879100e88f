//! I01: ICAO and airport lists: every line decoded, first definition wins
use crate::{check, cover, vp::*};
use vatsim_parser::{adaptation::icao::{AircraftType as T, EngineType as E, Wtc as W}, icao_aircraft::parse_aircraft, icao_airlines::parse_airlines, icao_airports::parse_airports, navdata_airports::parse_navdata_airports};
macro_rules! read { ($f:ident, $t:expr) => {{ let t = $t; note(t.as_bytes()); match $f(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed list is read"); assume(false); unreachable!() } } }} }
const NL: [&str; 2] = ["\n", "\r\n"];
/// text of a column: starts and ends with something other than a blank
fn col() -> String { format!("{}{}{}", word(1, b";/"), printable(1, b"/"), word(1, b"")) }
fn des(n: usize) -> String { if pick(2) == 0 { uppers(n) } else { digits(n) } }
const WT: [(&str, W); 5] = [("L", W::LIGHT), ("M", W::MEDIUM), ("H", W::HEAVY), ("J", W::SUPER), ("-", W::UNKNOWN)];
const TY: [(&str, T); 7] = [("L", T::LANDPLANE), ("S", T::SEAPLANE), ("A", T::AMPHIBIAN), ("G", T::GYROCOPTER), ("H", T::HELICOPTER), ("T", T::TILTROTOR), ("-", T::UNKNOWN)];
const EN: [(&str, E); 6] = [("P", E::PISTON), ("T", E::TURBOPROP), ("J", E::JET), ("E", E::ELECTRIC), ("R", E::ROCKET), ("-", E::UNKNOWN)];
const AC: &str = "ZZ\tJA4R\tOTHER\tOther name\n";
crate::harnesses! {
    fn h_i01_aircraft_texts() { let d = format!("A{}", des(2)); let (m, n) = (col(), col()); let nl = NL[pick(2)]; let k = digits(1); let l = format!("{d}\tML{k}J\t{m}\t{n}{nl}"); let a = read!(parse_aircraft, match pick(4) { 0 => format!("{l}{AC}"), 1 => format!("{AC}{l}"), 2 => format!("; c\n{l}more text\n{AC}"), _ => format!("{nl}{AC}// c\nAB\n{l}") }); cover!("aircraft"); check!(a.0.len() == 2, "one entry per designator");
        match a.0.get(&d) { None => { check!(false, "an aircraft is found under its designator"); } Some(x) => { check!(same(&x.designator, &d), "the designator is the first column"); check!(same(&x.manufacturer, &m), "the manufacturer is the third column"); check!(same(&x.name, &n), "the name is the fourth column"); check!(x.num_engines as i64 == num(&k), "the number of engines is the third character of the second column"); check!(x.wtc == W::MEDIUM && x.aircrafttype == T::LANDPLANE && x.enginetype == E::JET, "category, kind and engine stand in the second column"); } }
        check!(a.0.get("ZZ").is_some_and(|x| x.wtc == W::SUPER && x.aircrafttype == T::AMPHIBIAN && x.num_engines == 4 && x.enginetype == E::ROCKET && x.name == "Other name"), "lines next to it are decoded, too"); keep(a); }
    fn h_i01_aircraft_codes() { let (w, t, e) = match pick(3) { 0 => (WT[pick(5)], TY[0], EN[2]), 1 => (WT[1], TY[pick(7)], EN[0]), _ => (WT[2], TY[3], EN[pick(6)]) }; let n = pick(3); let a = read!(parse_aircraft, format!("{AC}ABCD\t{}{}{}{}\tM\tN\n", w.0, t.0, ["2", "C", "-"][n], e.0)); cover!("codes");
        check!(a.0.get("ABCD").is_some_and(|x| x.wtc == w.1), "the category is the first character of the second column"); check!(a.0.get("ABCD").is_some_and(|x| x.aircrafttype == t.1), "the kind is the second character of the second column"); check!(a.0.get("ABCD").is_some_and(|x| x.enginetype == e.1), "the engine is the fourth character of the second column"); check!(a.0.get("ABCD").is_some_and(|x| x.num_engines == if n == 0 { 2 } else { 0 }), "an unknown number of engines is none"); check!(a.wtc(Some("ABCD")) == w.1 && a.wtc(None) == W::UNKNOWN && a.wtc(Some("A")) == W::UNKNOWN, "the category of a type is that of its entry"); keep(a); }
    fn h_i01_aircraft_first() { let (d, e) = (des(2), des(2)); let a = read!(parse_aircraft, format!("{d}\tML2J\tM\tN1\n{AC}{e}\tHL4T\tM\tN2\n")); cover!("repeated aircraft"); let eq = d == e; check!(a.0.len() == if eq { 2 } else { 3 } || same(&d, "ZZ") || same(&e, "ZZ"), "one entry per designator"); check!(a.0.get(&d).is_some_and(|x| x.name == "N1" && x.num_engines == 2), "the first definition wins"); if !eq && !same(&e, "ZZ") { check!(a.0.get(&e).is_some_and(|x| x.name == "N2" && x.wtc == W::HEAVY), "another definition is kept"); } keep(a); }
    fn h_i01_airlines() { let d = uppers(3); assume(d != "ZZZ"); let (n, c, l) = (col(), col(), col()); let nl = NL[pick(2)]; let x = format!("{d}\t{n}\t{c}\t{l}{nl}"); const O: &str = "ZZZ\tOther name\tOTHER\tLand\n"; let a = read!(parse_airlines, match pick(4) { 0 => format!("{x}{O}"), 1 => format!("{O}{x}"), 2 => format!("; c{nl}{x}; d{nl}{O}"), _ => format!("{nl}{O}{nl}// c{nl}{x}") }); cover!("airlines"); check!(a.len() == 2, "one airline per line");
        match a.get(&d) { None => { check!(false, "an airline is found under its code"); } Some(x) => { check!(same(&x.designator, &d) & same(&x.name, &n) & same(&x.callsign, &c) & same(&x.country, &l), "an airline has name, callsign and country of its columns"); } } check!(a.get("ZZZ").is_some_and(|x| x.name == "Other name" && x.callsign == "OTHER" && x.country == "Land"), "airlines next to it are decoded, too"); keep(a); }
    fn h_i01_airlines_first() { let (d, e) = (uppers(3), uppers(3)); let a = read!(parse_airlines, format!("{d}\tA\tB\tC\n{e}\tD\tE\tF\n")); cover!("repeated airline"); let eq = d == e; check!(a.len() == if eq { 1 } else { 2 }, "one airline per code"); check!(a.get(&d).is_some_and(|x| x.name == "A" && x.country == "C"), "the first airline of a code wins"); if !eq { check!(a.get(&e).is_some_and(|x| x.name == "D"), "another airline is kept"); } keep(a); }
    // the first definition wins as a whole, empty columns included
    fn h_i01_empty() { let k = pick(8); let f = |i: usize, x: &str| if k >> i & 1 == 1 { String::new() } else { x.to_string() }; let d = uppers(3); let (x, y, z) = (uppers(2), uppers(1), uppers(1)); let a = read!(parse_airlines, format!("{d}\t{}\t{}\t{}\n{d}\t{x}\t{y}\t{z}\n", f(0, "A"), f(1, "B"), f(2, "C"))); cover!("empty columns"); check!(a.len() == 1, "one airline per code"); check!(a.get(&d).is_some_and(|a| same(&a.name, &f(0, "A")) & same(&a.callsign, &f(1, "B")) & same(&a.country, &f(2, "C"))), "the first airline of a code wins");
        let b = read!(parse_airports, format!("{d}\t{}\t{}\n{d}\t{x}\t{y}\n", f(0, "A"), f(1, "B"))); check!(b.len() == 1 && b.get(&d).is_some_and(|b| same(&b.name, &f(0, "A")) & same(&b.country, &f(1, "B"))), "the first airport of a code wins"); let c = read!(parse_aircraft, format!("{d}\tML2J\t{}\t{}\n{d}\tHA4P\t{x}\t{y}\n", f(0, "A"), f(1, "B"))); check!(c.0.len() == 1 && c.0.get(&d).is_some_and(|c| same(&c.manufacturer, &f(0, "A")) & same(&c.name, &f(1, "B")) & (c.num_engines == 2) & (c.wtc == W::MEDIUM)), "the first definition wins"); keep((a, b, c)); }
    fn h_i01_airports() { let d = format!("E{}", des(2)); let (n, l) = (col(), col()); let nl = NL[pick(2)]; let x = format!("{d}\t{n}\t{l}{nl}"); const O: &str = "ZZZZ\tOther name\tLand\n"; let a = read!(parse_airports, match pick(3) { 0 => format!("{x}{O}"), 1 => format!("{O}{x}"), _ => format!("{nl}; c{nl}{x}// d{nl}{O}") }); cover!("airports"); check!(a.len() == 2, "one airport per line");
        match a.get(&d) { None => { check!(false, "an airport is found under its code"); } Some(x) => { check!(same(&x.designator, &d) & same(&x.name, &n) & same(&x.country, &l), "an airport has name and country of its columns"); } } check!(a.get("ZZZZ").is_some_and(|x| x.name == "Other name" && x.country == "Land"), "airports next to it are decoded, too"); keep(a); }
    fn h_i01_airports_first() { let (d, e) = (uppers(2), uppers(2)); let a = read!(parse_airports, format!("{d}\tA\tB\n{e}\tC\tD\n")); cover!("repeated airport"); let eq = d == e; check!(a.len() == if eq { 1 } else { 2 }, "one airport per code"); check!(a.get(&d).is_some_and(|x| x.name == "A" && x.country == "B"), "the first airport of a code wins"); if !eq { check!(a.get(&e).is_some_and(|x| x.name == "C"), "another airport is kept"); } keep(a); }
    fn h_i01_navdata() { let d = format!("E{}", des(2)); let n = format!("{}{}", word(1, b";/"), printable(2, b"/")); let (g, h) = (digits(3), digits(3)); let (s, u) = (["", "-", "+"][pick(3)], ["", "-"][pick(2)]); let nl = NL[pick(2)]; let sep = ["\t", " ", "  \t"][pick(3)]; let x = format!("{d}{sep}{s}{}.{}{sep}{u}{}.{}{sep}{n}{nl}", &g[..1], &g[1..], &h[..2], &h[2..]); const O: &str = "ZZZZ 1.5 2.5 Other name\n"; let a = read!(parse_navdata_airports, match pick(3) { 0 => format!("{x}{O}"), 1 => format!("{O}{x}"), _ => format!("{nl}; c{nl}{x}// d{nl}{O}") }); cover!("airport data"); check!(a.len() == 2, "one airport per line");
        let v = |t: &str, k: f64, s: &str| { let v = num(t) as f64 / k; if s == "-" { -v } else { v } }; match a.get(&d) { None => { check!(false, "airport data are found under the code"); } Some(x) => { check!(same(&x.designator, &d) & same(&x.name, &n), "airport data have the name of the line"); check!(close(x.location.y(), v(&g, 100.0, s)), "the latitude is the first number"); check!(close(x.location.x(), v(&h, 10.0, u)), "the longitude is the second number"); } } check!(a.get("ZZZZ").is_some_and(|x| x.name == "Other name" && x.location.y() == 1.5 && x.location.x() == 2.5), "airport data next to it are decoded, too"); keep(a); }
    fn h_i01_navdata_first() { let (d, e) = (uppers(2), uppers(2)); let a = read!(parse_navdata_airports, format!("{d} 1.0 2.0 A\n{e} 3.0 4.0 B\n")); cover!("repeated airport data"); let eq = d == e; check!(a.len() == if eq { 1 } else { 2 }, "airport data once per code"); check!(a.get(&d).is_some_and(|x| x.name == "A" && x.location.y() == 1.0), "the first airport data of a code win"); if !eq { check!(a.get(&e).is_some_and(|x| x.name == "B"), "other airport data are kept"); } keep(a); }
}
