//! S04: line groups contain exactly the segments of the file
use crate::{check, co::*, cover, vp::*};
use vatsim_parser::{sct::{ColouredLines, Sct}, Location};
/// a point: text, and whether two of them are the same place
#[derive(Clone)] struct P { t: String, fix: bool, d: i64 }
fn sym() -> P { let d = digits(1); P { t: format!("N00{d}.00.00.000 E010.00.00.000"), fix: false, d: num(&d) } }
fn fix(a: u8) -> P { P { t: format!("F{a} F{a}"), fix: true, d: a as i64 } }
fn eq(a: &P, b: &P) -> bool { a.fix == b.fix && a.d == b.d }
fn is(l: &Location, p: &P) -> bool { match l { Location::Fix(f) => p.fix && same(f, &format!("F{}", p.d)), Location::Coordinate(c) => !p.fix && close(c.y(), p.d as f64) && close(c.x(), 10.0) } }
struct L { a: P, b: P, c: usize }
const COL: [&str; 3] = ["", "red", "green"];
fn expect(g: &[ColouredLines], ls: &[L]) {
    let mut got: Vec<(&Location, &Location, Option<&str>)> = vec![];
    for x in g { for l in &x.lines { for w in l.points.windows(2) { got.push((&w[0], &w[1], x.colour_name.as_deref())); } } }
    let want: Vec<&L> = ls.iter().filter(|l| !eq(&l.a, &l.b)).collect();
    check!(got.len() == want.len(), "as many segments as the file has");
    for (g, w) in got.iter().zip(want.iter()) { check!(is(g.0, &w.a) && is(g.1, &w.b), "the segments are those of the file, in order"); check!(same_opt(g.2, if w.c == 0 { None } else { Some(COL[w.c]) }), "every segment has its own colour"); }
}
fn groups<'a>(s: &'a Sct, k: usize, i: usize) -> (&'a str, &'a [ColouredLines], usize) { match k { 0 => (&s.sids[i].name, &s.sids[i].line_groups, s.sids.len()), 1 => (&s.stars[i].name, &s.stars[i].line_groups, s.stars.len()), 2 => (&s.artccs_high[i].name, &s.artccs_high[i].line_groups, s.artccs_high.len()), 3 => (&s.artccs[i].name, &s.artccs[i].line_groups, s.artccs.len()), 4 => (&s.artccs_low[i].name, &s.artccs_low[i].line_groups, s.artccs_low.len()), _ => (&s.geo[i].name, &s.geo[i].line_groups, s.geo.len()) } }
fn total(s: &Sct) -> usize { s.sids.len() + s.stars.len() + s.artccs_high.len() + s.artccs.len() + s.artccs_low.len() + s.geo.len() }
const SEC: [&str; 6] = ["SID", "STAR", "ARTCC HIGH", "ARTCC", "ARTCC LOW", "GEO"];
fn line(l: &L) -> String { format!("{} {}{}{}", l.a.t, l.b.t, if l.c == 0 { "" } else { " " }, COL[l.c]) }
/// one entry with these lines (comment `cm` after line `at`), another after it
fn run(k: usize, ls: Vec<L>, at: usize, cm: &str) {
    let mut t = format!("[{}]\nOne name ", SEC[k]); for (i, l) in ls.iter().enumerate() { if i > 0 { t.push_str("     "); } t.push_str(&line(l)); if i == at { t.push_str(cm); } t.push('\n'); }
    t.push_str("Other     F1 F1 N002.00.00.000 E010.00.00.000 blue\n[VOR]\n"); note(t.as_bytes());
    let s = match Sct::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); return; } };
    check!(total(&s) == 2, "one drawing per name, in its own section"); cover!("drawing");
    let (n, g, c) = groups(&s, k, 0); check!(c == 2, "the drawings are in the section they are written in"); check!(same(n, "One name"), "the drawing is called what the line says"); expect(g, &ls);
    let (n, g, _) = groups(&s, k, 1); check!(same(n, "Other"), "the next drawing is called what the line says"); check!(g.len() == 1 && g[0].lines.len() == 1 && g[0].lines[0].points.len() == 2 && same_opt(g[0].colour_name.as_deref(), Some("blue")), "the next drawing is unaffected"); keep((t, s));
}
crate::harnesses! {
    // two lines anywhere (any of the points may coincide), any colours
    fn h_s04_two() { let k = pick(6); let (c, d) = (pick(3), pick(3)); run(k, vec![L { a: sym(), b: sym(), c }, L { a: sym(), b: sym(), c: d }], 9, ""); }
    // three lines: chains, interruptions, colour changes and back
    fn h_s04_three() { let k = [0, 3, 5][pick(3)]; let (c, d, e) = ([1, 1, 1, 1, 2, 0, 0][pick(7)], [1, 2, 0][pick(3)], [1, 2, 0][pick(3)]); let (p, q, r) = (sym(), sym(), sym()); let m = pick(4);
        let v = match m { 0 => [p.clone(), q.clone(), q, r.clone(), r, p], 1 => [p.clone(), q.clone(), q.clone(), r, q, p], 2 => [p.clone(), q.clone(), q, p.clone(), p, r], _ => [p.clone(), q.clone(), r.clone(), q, p, r] };
        let [a, b, x, y, z, w] = v; run(k, vec![L { a, b, c }, L { a: x, b: y, c: d }, L { a: z, b: w, c: e }], 9, ""); }
    // fixes and coordinates mixed
    fn h_s04_fixes() { let k = pick(6); let m = pick(4); let s = sym(); let v = match m { 0 => [fix(1), s.clone(), s, fix(2)], 1 => [s.clone(), fix(1), fix(1), s], 2 => [fix(1), fix(2), fix(2), fix(1)], _ => [fix(1), fix(1), fix(2), s] }; let [a, b, x, y] = v; let (c, d) = [(1, 1), (0, 0), (1, 2), (0, 1)][pick(4)]; run(k, vec![L { a, b, c }, L { a: x, b: y, c: d }], 9, ""); }
    // comments after any of the lines
    fn h_s04_comment() { let k = pick(6); let at = pick(3); let c = [0, 1][pick(2)]; let cm = [format!(" ; {}", printable(2, b"")), format!("//{}", printable(1, b"")), "   ".to_string(), " ;".to_string()][pick(4)].clone(); run(k, vec![L { a: sym(), b: sym(), c }, L { a: fix(2), b: sym(), c: 1 }, L { a: fix(3), b: fix(2), c }], at, &cm); }
    // the file ends right after the first or second line
    fn h_s04_end() { let k = pick(6); let c = pick(2); let l = L { a: sym(), b: sym(), c }; let m = L { a: fix(1), b: sym(), c: 0 }; let two = pick(2) == 1; let t = format!("[{}]\nN {}{}", SEC[k], line(&l), if two { format!("\n  {}", line(&m)) } else { String::new() }); note(t.as_bytes());
        match Sct::parse(t.as_bytes()) { Ok(s) => { let (n, g, c) = groups(&s, k, 0); check!(c == 1 && same(n, "N"), "the last drawing is read"); expect(g, &if two { vec![l, m] } else { vec![l] }); cover!("end of file"); keep(s); } Err(_) => check!(false, "a file without a final line break is read") } }
}
