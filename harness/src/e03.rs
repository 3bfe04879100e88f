//! E03: airspace sectors keep owners, borders, levels and runway filters
use crate::{check, co::*, cover, vp::*};
use vatsim_parser::ese::{Ese, Sector, SectorLine};
fn read(t: &str) -> Ese { note(t.as_bytes()); match Ese::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
fn w(n: usize) -> String { word(n, b":;*[") }
fn des(n: usize) -> String { if pick(2) == 0 { uppers(n) } else { digits(n) } }
fn ct(c: &Co) -> String { c.t.replacen(' ', ":", 1) }
/// a border line with the corners given
struct B { id: String, pts: Vec<Co> }
impl B { fn text(&self, extra: &str) -> String { let mut t = format!("SECTORLINE:{}\n", self.id); for (i, c) in self.pts.iter().enumerate() { if i == 1 { t.push_str(extra); } t.push_str(&format!("COORD:{}\n", ct(c))); } if self.pts.len() < 2 { t.push_str(extra); } t }
    fn is(&self, l: &SectorLine) { check!(l.points.0.len() == self.pts.len(), "a border line has as many points as the file says"); for (p, c) in l.points.0.iter().zip(&self.pts) { check!(close(p.y, c.y) & close(p.x, c.x), "the points of a border line are those of the file, in order"); } } }
fn b(id: &str, n: u8) -> B { B { id: id.into(), pts: (0..n).map(|i| fixed(i + 1)).collect() } }
const OTHER: &str = "SECTOR:OTHER:24500:66000\nOWNER:OX:OY\nBORDER:L9\nDEPAPT:EDDH\n";
const L9: &str = "SECTORLINE:L9\nCOORD:N080.00.00.000:E081.00.00.000\n";
fn other(e: &Ese) { let o = e.sectors.get("OTHER"); check!(o.is_some_and(|o| o.bottom == 24500 && o.top == 66000 && l(&o.owner_priority, &["OX", "OY"]) && l(&o.departure_airports, &["EDDH"]) && o.arrival_airports.is_empty() && o.runway_filter.is_empty() && o.border.len() == 1 && o.border[0].points.0.len() == 1 && close(o.border[0].points.0[0].y, 80.0)), "the sector next to it is unaffected"); }
fn get<'a>(e: &'a Ese, id: &str, n: usize) -> &'a Sector { check!(e.sectors.len() == n, "one sector per SECTOR line"); match e.sectors.get(id) { Some(p) => { check!(same(&p.id, id), "a sector knows its name"); p } None => { check!(false, "the sector is found under its name"); assume(false); unreachable!() } } }
fn l(a: &[String], b: &[&str]) -> bool { let mut ok = a.len() == b.len(); for (x, y) in a.iter().zip(b) { ok = ok & same(x, y); } ok }
fn list(k: &str, v: &[&str]) -> String { if v.is_empty() { String::new() } else { format!("{k}:{}\n", v.join(":")) } }
crate::harnesses! {
    // every combination and order of the lines of a sector
    fn h_e03_lines() { let on = pick(64); let has = |i: usize| on >> i & 1 == 1; let (o1, o2) = (w(1), w(2)); let a = uppers(4); let r = digits(2); let d = [uppers(4), uppers(4)];
        let mut ls: Vec<String> = vec![]; if has(0) { ls.push(format!("OWNER:{o1}:{o2}\n")); } if has(1) { ls.push("BORDER:L1:L2\n".into()); } if has(2) { ls.push(format!("ACTIVE:{a}:{r}R\nACTIVE:EDDF:18\n")); } if has(3) { ls.push(format!("DEPAPT:{}:EDDM\n", d[0])); } if has(4) { ls.push(format!("ARRAPT:EDDN:{}\n", d[1])); } if has(5) { ls.push("ALTOWNER:N:AA:BB\nGUEST:GG:*:EDDM\n".into()); }
        let n = ls.len(); if n > 1 { let k = pick(3); if k == 1 { ls.reverse(); } else if k == 2 { ls.rotate_left(1); } }
        let e = read(&format!("[AIRSPACE]\n{OTHER}SECTOR:S:10:19500\n{}{L9}{}{}", ls.concat(), b("L1", 2).text(""), b("L2", 3).text(""))); let s = get(&e, "S", 2); cover!("lines");
        check!(s.bottom == 10 && s.top == 19500, "the lower level comes first, then the upper");
        check!(if has(0) { l(&s.owner_priority, &[&o1, &o2]) } else { s.owner_priority.is_empty() }, "the owners are those of the OWNER line, in order"); check!(s.border.len() == if has(1) { 2 } else { 0 }, "one border line per name on the BORDER line"); if has(1) { b("L1", 2).is(&s.border[0]); b("L2", 3).is(&s.border[1]); }
        check!(s.runway_filter.len() == if has(2) { 2 } else { 0 }, "one runway condition per ACTIVE line"); if has(2) { let f = &s.runway_filter; check!(same(&f[0].icao, &a) & same(&f[0].designator, &format!("{r}R")) & same(&f[1].icao, "EDDF") & same(&f[1].designator, "18"), "a runway condition holds airport and runway"); }
        check!(if has(3) { l(&s.departure_airports, &[&d[0], "EDDM"]) } else { s.departure_airports.is_empty() }, "the departure airports are those of the DEPAPT line"); check!(if has(4) { l(&s.arrival_airports, &["EDDN", &d[1]]) } else { s.arrival_airports.is_empty() }, "the arrival airports are those of the ARRAPT line"); other(&e); keep(e); }
    fn h_e03_levels() { let (a, b) = (digits_upto(1, 5), digits_upto(1, 5)); let id = w(2); let e = read(&format!("[AIRSPACE]\nSECTOR:{id}X:{a}:{b}\n{OTHER}{L9}")); let s = get(&e, &format!("{id}X"), 2); check!(s.bottom as i64 == num(&a) && s.top as i64 == num(&b), "the lower level comes first, then the upper"); cover!("levels"); other(&e); keep(e); }
    // lists of up to five entries
    fn h_e03_lists() { let n = 1 + pick(5); let k = pick(3); let v: Vec<String> = (0..n).map(|i| if k == 0 { format!("{}{i}", w(1)) } else { format!("{}{i}", uppers(1)) }).collect(); let r: Vec<&str> = v.iter().map(|x| x.as_str()).collect(); let key = ["OWNER", "DEPAPT", "ARRAPT"][k];
        let e = read(&format!("[AIRSPACE]\nSECTOR:S:0:1\n{}{OTHER}{L9}", list(key, &r))); let s = get(&e, "S", 2); cover!("lists"); let e0: &[&str] = &[];
        check!(l(&s.owner_priority, if k == 0 { &r } else { e0 }), "the owners are those of the OWNER line, in order"); check!(l(&s.departure_airports, if k == 1 { &r } else { e0 }), "the departure airports are those of the DEPAPT line"); check!(l(&s.arrival_airports, if k == 2 { &r } else { e0 }), "the arrival airports are those of the ARRAPT line"); other(&e); keep(e); }
    // border lines: any number of points and names, declared before or after, shared, with display conditions
    fn h_e03_borders() { let n = pick(4); let before = pick(2) == 1; let ids = [w(1), w(1), w(1)]; let names: Vec<String> = ids.iter().enumerate().map(|(i, x)| format!("{x}{i}")).collect(); let bs: Vec<B> = names.iter().enumerate().map(|(i, x)| B { id: x.clone(), pts: (0..i + 1).map(|j| if j == 0 { co() } else { fixed(20 + (3 * i + j) as u8) }).collect() }).collect();
        let ex = ["", "DISPLAY:A:A:B\nDISPLAY:B:A:B\n"][pick(2)]; let lt = format!("{}{}{}{L9}", bs[0].text(ex), bs[1].text(""), bs[2].text(ex)); let perm = [[0, 1, 2], [2, 0, 1], [1, 1, 0]][pick(3)]; let bn: Vec<&str> = perm[..n].iter().map(|i| names[*i].as_str()).collect(); let st = format!("SECTOR:S:0:1\n{}{OTHER}SECTOR:T:2:3\nBORDER:{}\n", list("BORDER", &bn), names[1]);
        let e = read(&format!("[AIRSPACE]\n{}", if before { format!("{lt}{st}") } else { format!("{st}{lt}") })); let s = get(&e, "S", 3); cover!("borders"); check!(s.border.len() == n, "one border line per name on the BORDER line"); for (i, x) in s.border.iter().enumerate() { bs[perm[i]].is(x); } let t = get(&e, "T", 3); check!(t.border.len() == 1, "one border line per name on the BORDER line"); bs[1].is(&t.border[0]); other(&e); keep(e); }
    // coordinates of border lines in both notations
    fn h_e03_decimal() { let d = digits(4); let sg = ["", "-", "+"][pick(3)]; let e = read(&format!("[AIRSPACE]\nSECTOR:S:0:1\nBORDER:A\n{OTHER}{L9}SECTORLINE:A\nCOORD:{sg}{}.{}:12.5\n", &d[..2], &d[2..])); let s = get(&e, "S", 2); let v = num(&d) as f64 / 100.0; check!(s.border.len() == 1 && s.border[0].points.0.len() == 1 && close(s.border[0].points.0[0].y, if sg == "-" { -v } else { v }) && close(s.border[0].points.0[0].x, 12.5), "the points of a border line are those of the file, in order"); cover!("decimal"); keep(e); }
    // among other lines of the section
    fn h_e03_place() { let id = w(1); let st = format!("SECTOR:{id}:5:6\nOWNER:A\nACTIVE:EDDM:08L\nBORDER:L9\n"); let cop = "COPX:*:*:FIX:*:*:A:B:*:7000:N\n"; let t = match pick(6) { 0 => format!("{cop}{st}{cop}{OTHER}{L9}"), 1 => format!("{L9}\n\n{st}\n{OTHER}{cop}"), 2 => format!("{st};{}\n{OTHER}{L9}", printable(2, b"")), 3 => format!("MSAW:A:3000\nCOORD:N001.00.00.000:E001.00.00.000\n{st}CIRCLE_SECTORLINE:C:FIX:2.5\nDISPLAY:A:A:B\n{OTHER}{L9}"), 4 => format!("DISPLAY_SECTORLINE:1:A:A:B\n{st}\r\n{OTHER}{L9}[POSITIONS]\n"), _ => format!("{st}OWNER:ZZ\nBORDER:ZZ\n{OTHER}{L9}") };
        let e = read(&format!("[SIDSSTARS]\n[AIRSPACE]\n{t}")); let s = get(&e, &id, 2); cover!("place"); check!(s.bottom == 5 && s.top == 6 && l(&s.owner_priority, &["A"]) && s.runway_filter.len() == 1 && s.border.len() == 1, "the fields do not depend on what surrounds the sector"); other(&e); keep(e); }
}
