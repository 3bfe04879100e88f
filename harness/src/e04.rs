//! E04: coordination agreements are read field by field, wildcards as absent
use crate::{check, cover, vp::*};
use vatsim_parser::ese::{Constraint, Ese};
fn read(t: &str) -> Ese { note(t.as_bytes()); match Ese::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
fn w(n: usize) -> String { word(n, b":;*[") }
fn des(n: usize) -> String { if pick(2) == 0 { uppers(n) } else { digits(n) } }
struct F { prev: Option<String>, dep: Option<String>, fix: Option<String>, next: Option<String>, arr: Option<String>, from: String, to: String, climb: Option<String>, desc: Option<String>, text: String }
fn o(x: &Option<String>) -> &str { x.as_deref().unwrap_or("*") }
impl F {
    fn plain() -> F { let t = |x: &str| Some(x.to_string()); F { prev: t("PREV"), dep: t("26R"), fix: t("FIX"), next: t("NEXT"), arr: t("08L"), from: "FROM".into(), to: "TO".into(), climb: t("5000"), desc: t("12000"), text: "TEXT".into() } }
    fn line(&self, k: &str) -> String { format!("{k}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}\n", o(&self.prev), o(&self.dep), o(&self.fix), o(&self.next), o(&self.arr), self.from, self.to, o(&self.climb), o(&self.desc), self.text) }
    fn is(&self, c: &Constraint) {
        check!(same_opt(c.previous_fix.as_deref(), self.prev.as_deref()), "the point before is the first field"); check!(same_opt(c.departure_runway.as_deref(), self.dep.as_deref()), "the departure runway is the second field"); check!(same_opt(c.fix.as_deref(), self.fix.as_deref()), "the point itself is the third field");
        check!(same_opt(c.subsequent_fix.as_deref(), self.next.as_deref()), "the point after is the fourth field"); check!(same_opt(c.arrival_runway.as_deref(), self.arr.as_deref()), "the arrival runway is the fifth field"); check!(same(&c.exit_sector, &self.from), "the sector left is the sixth field"); check!(same(&c.entry_sector, &self.to), "the sector entered is the seventh field");
        let lv = |g: Option<u32>, x: &Option<String>| match (g, x) { (None, None) => true, (Some(g), Some(x)) => g as i64 == num(x), _ => false };
        check!(lv(c.climb_level, &self.climb), "the climb level is the eighth field"); check!(lv(c.descent_level, &self.desc), "the descent level is the ninth field"); check!(same(&c.description, &self.text), "the description is the tenth field"); check!(c.coord_timing.is_none(), "a file sets no timings");
    }
}
const K: [&str; 2] = ["COPX", "FIR_COPX"];
const L: &str = "COPX:*:*:OTHER:*:*:A B:C D:*:7000:NOTE\n";
fn other(c: &Constraint) { check!(c.previous_fix.is_none() && c.departure_runway.is_none() && same_opt(c.fix.as_deref(), Some("OTHER")) && c.subsequent_fix.is_none() && c.arrival_runway.is_none() && same(&c.exit_sector, "A B") && same(&c.entry_sector, "C D") && c.climb_level.is_none() && c.descent_level == Some(7000) && same(&c.description, "NOTE"), "the agreement next to it is unaffected"); }
fn run(f: &F, k: usize, order: usize) {
    let l = f.line(K[k]); let e = read(&if order == 0 { format!("[AIRSPACE]\n{l}{L}") } else { format!("[AIRSPACE]\n{L}{l}") });
    check!(e.constraints.len() == 2, "one agreement per line, in order"); cover!("agreement"); f.is(&e.constraints[order]); other(&e.constraints[1 - order]); keep(e);
}
crate::harnesses! {
    // every combination of wildcards
    fn h_e04_wildcards() { let mut f = F::plain(); if flag() { f.prev = None; } if flag() { f.dep = None; } if flag() { f.fix = None; } if flag() { f.next = None; } if flag() { f.arr = None; } let c = pick(4); if c & 1 > 0 { f.climb = None; } if c & 2 > 0 { f.desc = None; } run(&f, pick(2), 1); }
    // any text in every field
    fn h_e04_texts() { let f = F { prev: Some(w(2)), dep: Some(des(2)), fix: Some(w(2)), next: Some(w(2)), arr: Some(des(3)), from: format!("{}\u{b7}{}", w(1), w(1)), to: w(2), climb: Some(digits(3)), desc: Some(digits(3)), text: format!("{} {}", w(1), w(1)) }; run(&f, pick(2), pick(2)); }
    fn h_e04_levels() { let mut f = F::plain(); f.climb = if pick(2) == 0 { None } else { Some(digits_upto(1, 5)) }; f.desc = if pick(2) == 0 { None } else { Some(digits_upto(1, 5)) }; run(&f, pick(2), 0); }
    // fields left empty
    fn h_e04_empty() { let mut f = F::plain(); let x = [Some(String::new()), None][pick(2)].clone(); match pick(6) { 0 => { f.prev = Some(String::new()); f.next = x } 1 => { f.fix = Some(String::new()); f.prev = x } 2 => { f.next = Some(String::new()); f.fix = x } 3 => f.from.clear(), 4 => f.to.clear(), _ => f.text.clear() } run(&f, pick(2), 0); }
    // among other lines of the section
    fn h_e04_place() { let f = F { text: uppers(1), fix: Some(uppers(2)), ..F::plain() }; let l = f.line(K[pick(2)]); let s = "SECTOR:A:0:100\nOWNER:X\n"; let b = "SECTORLINE:1\nDISPLAY:A:A:B\nCOORD:N001.00.00.000:E002.00.00.000\n"; let t = match pick(6) { 0 => format!("{s}{l}{L}{b}"), 1 => format!("{b}\n{l}{s}{L}"), 2 => format!("{l};{}\n{L}", printable(2, b"")), 3 => format!("MSAW:A:3000\nCOORD:N001.00.00.000:E002.00.00.000\n{l}CIRCLE_SECTORLINE:C:FIX:2.5\n{L}"), 4 => format!("DISPLAY_SECTORLINE:1:A:A:B\n{l}\r\n{L}[POSITIONS]\n"), _ => format!("{l}{s}ACTIVE:EDDM:26R\nBORDER:1:2\nDEPAPT:EDDM\nARRAPT:EDDM:EDDF\nGUEST:A:*:EDDM\nALTOWNER:X:Y:Z\n{L}") };
        let e = read(&format!("[SIDSSTARS]\n[AIRSPACE]\n{t}")); check!(e.constraints.len() == 2, "one agreement per line, in order"); cover!("place"); f.is(&e.constraints[0]); other(&e.constraints[1]); keep(e); }
    // agreements which agree in everything are all kept
    fn h_e04_repeated() { let f = F { fix: Some(uppers(2)), climb: Some(digits(2)), ..F::plain() }; let g = F { fix: Some(uppers(2)), desc: Some(digits(2)), ..F::plain() }; let k = pick(2); let e = read(&format!("[AIRSPACE]\n{}{}{}", f.line(K[k]), g.line(K[1 - k]), f.line(K[k]))); check!(e.constraints.len() == 3, "one agreement per line, in order"); cover!("repeated"); f.is(&e.constraints[0]); g.is(&e.constraints[1]); f.is(&e.constraints[2]); keep(e); }
}
