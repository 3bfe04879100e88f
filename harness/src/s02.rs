//! S02: every entry is kept, in order, with its fields in the right place
use crate::{check, co::*, cover, vp::*};
use vatsim_parser::{sct::Sct, Location};
use geo::Point;
fn read(t: &str) -> Sct { match Sct::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
crate::harnesses! {
    fn h_s02_airport() {
        let d = alnums(4); let a = mk(vec![byte_in(b'A', b'G')]); let (c, k) = (co(), fixed(3)); let fr = ["120.500", ".", "118.1"][pick(3)];
        let s = read(&format!("[AIRPORT]\nEDDM 000.000 {} D\n{d} {fr} {} {a}\nKJFK 000.000 {} B\n", k.t, c.t, k.t));
        check!(s.airports.len() == 3, "one airport per line"); cover!("airports");
        let p = &s.airports[1];
        check!(same(&p.designator, &d), "the airport is called what its line says"); check!(at(&p.coordinate, &c), "the airport is where its line says"); check!(same(&p.ctr_airspace, &a), "the airspace class is that of the line");
        check!(same(&s.airports[0].designator, "EDDM") && at(&s.airports[0].coordinate, &k) && same(&s.airports[0].ctr_airspace, "D"), "the airport before is unaffected");
        check!(same(&s.airports[2].designator, "KJFK") && same(&s.airports[2].ctr_airspace, "B"), "the airport after is unaffected"); keep(s);
    }
    fn h_s02_beacons() {
        let v = pick(2) == 0; let d = alnums(3); let f = digits(3); let g = digits(2); let (c, k) = (co(), fixed(3));
        let s = read(&format!("[{}]\nAAA 110.000 {}\n{d} {f}.{g} {}\nZZZ 119.500 {}\n", if v { "VOR" } else { "NDB" }, k.t, c.t, k.t));
        let n = if v { s.vors.len() } else { s.ndbs.len() };
        check!(n == 3, "one beacon per line"); check!(s.vors.len() + s.ndbs.len() == 3, "a beacon is of the kind of its section"); cover!("beacons");
        let (x, y, z) = if v { let b = &s.vors[1]; (&b.designator, &b.frequency, &b.coordinate) } else { let b = &s.ndbs[1]; (&b.designator, &b.frequency, &b.coordinate) };
        check!(same(x, &d), "the beacon is called what its line says"); check!(same(y, &format!("{f}.{g}")), "the frequency is that of the line"); check!(at(z, &c), "the beacon is where its line says");
        let (x, y) = if v { (&s.vors[2].designator, &s.vors[2].frequency) } else { (&s.ndbs[2].designator, &s.ndbs[2].frequency) };
        check!(same(x, "ZZZ") && same(y, "119.500"), "the beacon after is unaffected"); keep(s);
    }
    fn h_s02_fixes() {
        let d = alnums(5); let e = alnums(3); let (c, k) = (co(), co());
        let s = read(&format!("[FIXES]\n{d} {}\n{e}    {}\n", c.t, k.t));
        check!(s.fixes.len() == 2, "one fix per line"); cover!("fixes");
        check!(same(&s.fixes[0].designator, &d) && same(&s.fixes[1].designator, &e), "fixes are called what their lines say, in order");
        check!(at(&s.fixes[0].coordinate, &c) && at(&s.fixes[1].coordinate, &k), "fixes are where their lines say"); keep(s);
    }
    fn h_s02_runway() {
        let (a, b) = (digits(2), digits(2)); let (i, j) = ([("", ""), ("L", "R"), ("C", "C"), ("R", "L"), ("G", "G")][pick(5)]);
        let (h, g) = (digits(3), digits(3)); let (c, k) = (co(), co()); let d = alnums(4);
        let s = read(&format!("[RUNWAY]\n08L 26R 083 263 {} {} EDDM\n{a}{i} {b}{j} {h} {g} {} {} {d} Name of it\n09 27 090 270 {} {} EDMO\n", fixed(3).t, fixed(5).t, c.t, k.t, fixed(3).t, fixed(7).t));
        check!(s.runways.len() == 3, "one runway per line"); cover!("runways");
        let r = &s.runways[1];
        check!(same(&r.designators.0, &format!("{a}{i}")) && same(&r.designators.1, &format!("{b}{j}")), "both runway ends are called what the line says");
        check!(r.headings.0 as i64 == num(&h) && r.headings.1 as i64 == num(&g), "both headings are those of the line");
        check!(at(&r.location.0, &c) && at(&r.location.1, &k), "both thresholds are where the line says"); check!(same(&r.aerodrome, &d), "the aerodrome is that of the line");
        check!(same(&s.runways[0].aerodrome, "EDDM") && same(&s.runways[2].aerodrome, "EDMO") && s.runways[2].headings.0 == 90 && s.runways[2].headings.1 == 270, "the runways around it are unaffected"); keep(s);
    }
    fn h_s02_airways() {
        let hi = pick(2) == 0; let d = alnums(4); let f = alnums(5); let (c, k) = (co(), co()); let m = pick(4);
        let st = if m & 1 == 1 { format!("{f} {f}") } else { c.t.clone() }; let en = if m & 2 == 2 { "KUNOD KUNOD".to_string() } else { k.t.clone() };
        let s = read(&format!("[{} AIRWAY]\nT1 ABC ABC DEF DEF\n{d} {st} {en}\nT1 DEF DEF GHI GHI\n", if hi { "HIGH" } else { "LOW" }));
        let v = if hi { &s.high_airways } else { &s.low_airways };
        check!(v.len() == 3, "one airway per line"); check!(s.high_airways.len() + s.low_airways.len() == 3, "an airway is of the kind of its section"); cover!("airways");
        let w = &v[1]; check!(same(&w.designator, &d), "the airway is called what its line says");
        check!(if m & 1 == 1 { matches!(&w.start, Location::Fix(x) if same(x, &f)) } else { loc(&w.start, &c) }, "the airway starts where its line says");
        check!(if m & 2 == 2 { matches!(&w.end, Location::Fix(x) if same(x, "KUNOD")) } else { loc(&w.end, &k) }, "the airway ends where its line says");
        check!(matches!(&v[0].start, Location::Fix(x) if same(x, "ABC")) && matches!(&v[2].end, Location::Fix(x) if same(x, "GHI")), "the airways around it are unaffected"); keep(s);
    }
    fn h_s02_regions() {
        let n = alnums(3); let cn = uppers(3); let (c, k, l) = (co(), co(), fixed(3));
        let s = read(&format!("[REGIONS]\nREGIONNAME R1\nAAA {}\n    {}\nREGIONNAME {n}\n{cn} {}\n   {}\n   {}\n", l.t, l.t, c.t, k.t, l.t));
        check!(s.regions.len() == 2, "one region per REGIONNAME"); cover!("regions");
        let r = &s.regions[1]; check!(same(&r.name, &n), "the region is called what its line says"); check!(same(&r.colour_name, &cn), "the colour is that of the region");
        check!(r.polygon.len() == 3, "the polygon has one vertex per line"); let p = |i: usize| Point::from(r.polygon[i]);
        check!(at(&p(0), &c) & at(&p(1), &k) & at(&p(2), &l), "the vertices are those of the lines, in order");
        check!(same(&s.regions[0].name, "R1") && s.regions[0].polygon.len() == 2, "the region before is unaffected"); keep(s);
    }
    fn h_s02_labels() {
        let n = printable(4, b"\"/;"); let cn = uppers(3); let c = co(); let l = fixed(3);
        let s = read(&format!("[LABELS]\n\"A\" {} red\n\"{n}\" {} {cn}\n\"B\" {} green\n", l.t, c.t, l.t));
        check!(s.labels.len() == 3, "one label per line"); cover!("labels");
        let b = &s.labels[1]; check!(same(&b.name, &n), "the label holds the quoted text"); check!(loc(&b.coordinate, &c), "the label is where its line says"); check!(same(&b.colour_name, &cn), "the colour is that of the line");
        check!(same(&s.labels[0].name, "A") && same(&s.labels[2].colour_name, "green"), "the labels around it are unaffected"); keep(s);
    }
    fn h_s02_info() {
        let (n, cs, ap) = (uppers(4), alnums(5), alnums(4)); let (a, b) = (digits(2), digits(2)); let sc = pick(2) == 0;
        let s = read(&format!("[INFO]\n{n} x\n{cs}\n{ap}\nN0{a}.30.00.000\nE0{b}.15.00.000\n60\n39.5\n-3.25\n{}", if sc { "1.5\n" } else { "" }));
        let i = &s.info; cover!("info");
        check!(same(&i.name, &format!("{n} x")) && same(&i.default_callsign, &cs) && same(&i.default_airport, &ap), "names in the order of the lines");
        check!(close(i.centre_point.y(), num(&a) as f64 + 0.5) && close(i.centre_point.x(), num(&b) as f64 + 0.25), "latitude before longitude");
        check!(i.miles_per_deg_lat == 60.0 && i.miles_per_deg_lng == 39.5 && i.magnetic_variation == -3.25, "scales in the order of the lines"); check!(i.scale_factor == if sc { 1.5 } else { 0.0 }, "the scale factor is optional"); keep(s);
    }
}
