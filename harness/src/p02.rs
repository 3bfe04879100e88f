//! P02: parsing an extension file never panics
use crate::{cover, vp::*};
use vatsim_parser::ese::Ese;
fn run(t: &str) { note(t.as_bytes()); let r = Ese::parse(t.as_bytes()); cover!("returned"); if r.is_ok() { cover!("read"); } else { cover!("refused"); } keep(r); }
const C: &str = "N048.21.13.999:E011.47.09.500";
fn raw(n: usize) -> String { any_ascii(n) }
fn sg() -> &'static str { ["", "-", "+"][pick(3)] }
/// k-th hole filled with x
fn holes(t: &str, x: &str, k: usize) -> String { let mut o = String::new(); for (i, p) in t.split('@').enumerate() { if i > 0 && i - 1 == k { o.push_str(x); } o.push_str(p); } o }
const F: [&str; 7] = ["[POSITIONS]\nN:C:120.500:I:M:P:S:-:-:1234:5677:N048.10.20.300:W011.10.20.300\nO:D:119.1:J:::::::s001.02.03.400:e005.06.07.800\n", "[AIRSPACE]\nSECTOR:A:0:100\nOWNER:A:B\nALTOWNER:C:A\nBORDER:B:C\nACTIVE:EDDM:26R\nDEPAPT:EDDM:EDMO\nARRAPT:EDDN\nGUEST:A:*:EDDM\n", "[AIRSPACE]\nSECTORLINE:A\nDISPLAY:A:B:C\nCOORD:N048.10.20.300:E011.10.20.300\nCOORD:1.5:-2.5\n", "[AIRSPACE]\nDISPLAY_SECTORLINE:A:B:C:D\nCIRCLE_SECTORLINE:A:FIX:2.5\nMSAW:A:3000\nCOORD:N048.10.20.300:E011.10.20.300\n", "[AIRSPACE]\nCOPX:*:*:ABC:DEF:26R:C:D:*:7000:N\nFIR_COPX:EDDM:08L:*:*:*:A:B:9000:*:ABC\n", "[SIDSSTARS]\nSID:EDDM:26R:ABC1N:AB CD\nSTAR:EDDN::N:EF\n", "[FREETEXT]\nN048.10.20.300:E011.10.20.300:G:T\n[POSITIONS]\n"];
crate::harnesses! {
    // numbers of any length and sign in every numeric position
    fn h_p02_sector() { let d = number(); let s = sg(); let k = pick(2); run(&format!("[AIRSPACE]\nSECTOR:A:{}:{}\nOWNER:X\nSECTOR:B:1:2\n", if k == 0 { format!("{s}{d}") } else { "0".into() }, if k == 1 { format!("{s}{d}") } else { "500".into() })); }
    fn h_p02_cop() { let d = number(); let s = sg(); let k = pick(2); run(&format!("[AIRSPACE]\n{}:*:*:A:*:*:B:C:{}:{}:D\n", ["COPX", "FIR_COPX"][pick(2)], if k == 0 { format!("{s}{d}") } else { "*".into() }, if k == 1 { format!("{s}{d}") } else { "7000".into() })); }
    fn h_p02_msaw() { let d = digits_upto(1, 12); run(&format!("[AIRSPACE]\nMSAW:A:{}{d}\nCOORD:{C}\n", sg())); }
    fn h_p02_squawk() { let d = digits_upto(1, 7); let s = sg(); let k = pick(2); run(&format!("[POSITIONS]\nN:C:120.5:I:M:P:S:-:-:{}:{}:{C}\n", if k == 0 { format!("{s}{d}") } else { "0".into() }, if k == 1 { format!("{s}{d}") } else { "7777".into() })); }
    fn h_p02_deg() { let d = digits_upto(1, 8); let h = ["N", "s"][pick(2)]; run(&format!("[AIRSPACE]\nSECTORLINE:A\nCOORD:{h}{d}.00.00.000:E011.00.00.000\n")); }
    fn h_p02_min() { let d = digits_upto(1, 6); let e = digits_upto(1, 3); run(&format!("[AIRSPACE]\nSECTORLINE:A\nCOORD:N048.{d}.00.000:W011.{e}.00\n")); }
    fn h_p02_sec() { let d = digits_upto(1, 12); let s = ["", "-", "+", ".", "-."][pick(5)]; run(&format!("[POSITIONS]\nN:C:120.5:I:M:P:S:-:-::N048.12.{s}{d}:E011.00.00\n")); }
    fn h_p02_decimal() { let k = pick(3); let d = if k == 1 { digits_upto(1, 6) } else { digits_upto(1, 12) }; let s = ["", "-", "+", ".", "-.", "1."][pick(6)]; run(&match k { 0 => format!("[AIRSPACE]\nSECTORLINE:A\nCOORD:{s}{d}:E011.00.00.000\n"), 1 => format!("[AIRSPACE]\nCIRCLE_SECTORLINE:A:FIX:{s}{d}\n"), _ => format!("[POSITIONS]\nN:C:{s}{d}:I:M:P:S:-:-::1.5:{s}{d}\n") }); }
    // bytes of any value at structural positions
    fn h_p02_start() { run(&raw(3)); }
    fn h_p02_header() { let s = ["[POSITIONS", "[AIRSPACE", "[SIDSSTARS", "[FREETEXT"][pick(4)]; run(&format!("{s}{}", raw(2))); }
    fn h_p02_body() { let s = ["POSITIONS", "AIRSPACE", "SIDSSTARS", "RADAR"][pick(4)]; run(&format!("[{s}]\n{}\n", raw(3))); }
    fn h_p02_position_raw() { let x = raw(2); run(&holes("[POSITIONS]\n@N:C@:12@0.5:I:M:P:S:@-:-:@12:34@:N048.00.00.000:E011.00.0@0.000@\n", &x, pick(8))); }
    fn h_p02_sector_raw() { let x = raw(2); run(&holes("[AIRSPACE]\nSECTOR:A:0@:100@\nOWNER:A@\nBORDER:B:C\nACTIVE:@EDDM:26R@\nDEPAPT@:EDDM\nARRAPT:E@\nGUEST:A:*@:B\nALTOWNER:A:@B\n", &x, pick(9))); }
    fn h_p02_line_raw() { let x = raw(2); run(&holes("[AIRSPACE]\nSECTORLINE:@A\nDISPLAY:A@:B:C\nCOORD:@N048.00.00.000:E@011.00.00.000@\nDISPLAY_SECTORLINE:A@:B:C:D\nCIRCLE_SECTORLINE:A:F@:2.5@\n", &x, pick(8))); }
    fn h_p02_cop_raw() { let x = raw(2); run(&holes("[AIRSPACE]\nCOPX:*@:*@:A:B@:26R:C:D:@*:700@0:N@\nFIR_COPX:*:*:A:*:*:A:B:*:1@:A\nMSAW:@A:30@\nCOORD:1.0:2.0\n", &x, pick(9))); }
    fn h_p02_sid_raw() { let x = raw(2); run(&holes("[SIDSSTARS]\nSID:ED@DM:26R@:A1@:AB CD@\nSTAR@:EDDM::N:@A\n", &x, pick(6))); }
    // bytes that are not ASCII
    fn h_p02_bytes() { let mut x = [0u8; 3]; symbolic(&mut x); x[0] = [0xE2, 0xEF, 0xED, 0xF0, 0xC3, 0x80][pick(6)]; let mut b = [&b"[SIDSSTARS]\nSID:EDDM:26R:A"[..], &b"[POSITIONS]\nN"[..], &b"[AIRSPACE]\nSECTORLINE:"[..]][pick(3)].to_vec(); b.extend_from_slice(&x); b.extend_from_slice(b":A\n"); note(&b); let r = Ese::parse(&b); cover!("any bytes"); keep(r); }
    fn t_p02_start4() { run(&raw(4)); }
    fn t_p02_body4() { let s = ["POSITIONS", "AIRSPACE", "SIDSSTARS", "RADAR"][pick(4)]; run(&format!("[{s}]\n{}\n", raw(4))); }
    fn t_p02_sector3() { let x = raw(3); run(&holes("[AIRSPACE]\nSECTOR:A:0@:100@\nOWNER:A@\nACTIVE:@EDDM:26R@\n", &x, pick(5))); }
    // one byte of a well-formed file replaced, left out or put in
    fn h_p02_mutated() { let b = mutated(F[pick(7)]); note(&b); let r = Ese::parse(&b); cover!("one byte changed"); keep(r); }
    fn h_p02_inserted() { let b = inserted(F[pick(7)]); note(&b); let r = Ese::parse(&b); cover!("one byte put in"); keep(r); }
    fn t_p02_pair() { let b = mutated2(F[pick(7)]); note(&b); let r = Ese::parse(&b); cover!("one byte changed"); keep(r); }
}
