//! A09: coordination timings resolve per field: constraint, then FIR, then global
use crate::{check, cover, vp::*};
use uom::si::{f32::Time, time::second};
use vatsim_parser::adaptation::settings::{CoordinationSettings, CoordinationTiming};
fn t(x: u16) -> Time { Time::new::<second>(f32::from(x)) }
fn opt(p: bool, x: u16) -> Option<Time> { if p { Some(t(x)) } else { None } }
struct L([u16; 3], [bool; 3]);
fn level() -> L { L([u16s(), u16s(), u16s()], [pick(2) == 1, pick(2) == 1, pick(2) == 1]) }
fn timing(l: &L) -> CoordinationTiming { CoordinationTiming { act_time: opt(l.1[0], l.0[0]), abi_time: opt(l.1[1], l.0[1]), rev_time: opt(l.1[2], l.0[2]) } }
fn settings(g: &[u16; 3], firs: Vec<(String, CoordinationTiming)>) -> CoordinationSettings { let mut s = CoordinationSettings { act_time: t(g[0]), abi_time: t(g[1]), rev_time: t(g[2]), ..Default::default() }; for (n, x) in firs { s.fir_overrides.insert(n, x); } s }
crate::harnesses! {
    // every combination of set fields of the two levels, every value
    fn h_a09_levels() { let g = [u16s(), u16s(), u16s()]; let (c, f) = (level(), level()); let s = settings(&g, vec![("EDMM".into(), timing(&f)), ("EDGG".into(), CoordinationTiming { act_time: Some(t(7)), abi_time: Some(t(8)), rev_time: Some(t(9)) })]); let r = s.resolve(Some("EDMM"), Some(&timing(&c))); cover!("levels");
        let e = |i: usize| t(if c.1[i] { c.0[i] } else if f.1[i] { f.0[i] } else { g[i] }); check!(r.act_time == e(0), "the activation time is the constraint's, else the FIR's, else the global one"); check!(r.abi_time == e(1), "the boundary information time is the constraint's, else the FIR's, else the global one"); check!(r.rev_time == e(2), "the revision time is the constraint's, else the FIR's, else the global one"); keep(s); }
    // levels that are missing altogether
    fn h_a09_missing() { let g = [u16s(), u16s(), u16s()]; let (c, f) = (level(), level()); let k = pick(4); let s = settings(&g, if k == 3 { vec![] } else { vec![("EDMM".into(), timing(&f))] }); let ct = timing(&c); let wc = pick(2) == 1; let fir = [None, Some("EDMM"), Some("EDM"), Some("EDMM")][k]; let r = s.resolve(fir, if wc { Some(&ct) } else { None }); cover!("missing levels");
        let e = |i: usize| t(if wc && c.1[i] { c.0[i] } else if k == 1 && f.1[i] { f.0[i] } else { g[i] }); check!(r.act_time == e(0) && r.abi_time == e(1) && r.rev_time == e(2), "a missing constraint or FIR leaves the less specific level"); keep(s); }
    // the FIR that is asked for and no other
    fn h_a09_firs() { let (a, b, q) = (uppers(2), uppers(2), uppers(2)); assume(!same(&a, &b)); let (x, y) = (u16s(), u16s()); let one = |x| CoordinationTiming { abi_time: Some(t(x)), ..Default::default() }; let s = settings(&[1, 2, 3], vec![(a.clone(), one(x)), (b.clone(), one(y))]); let r = s.resolve(Some(&q), None); cover!("FIRs"); check!(r.abi_time == t(if same(&q, &a) { x } else if same(&q, &b) { y } else { 2 }), "the FIR level is that of the FIR asked for"); check!(r.act_time == t(1) && r.rev_time == t(3), "other timings are not affected"); keep(s); }
    fn h_a09_defaults() { let s = CoordinationSettings::default(); let r = s.resolve(None, None); cover!("defaults"); check!(r.act_time == Time::new::<second>(900.0) && r.abi_time == Time::new::<second>(1800.0) && r.rev_time == Time::new::<second>(300.0), "the documented defaults are 15, 30 and 5 minutes"); keep(s); }
}
