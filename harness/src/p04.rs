//! P04: loading a TopSky directory never panics
use crate::{cover, vp::*};
use vatsim_parser::topsky::Topsky;
fn raw(n: usize) -> String { any_ascii(n) }
fn sg() -> &'static str { ["", "-", "+", "."][pick(4)] }
fn holes(t: &str, x: &str, k: usize) -> String { let mut o = String::new(); for (i, p) in t.split('@').enumerate() { if i > 0 && i - 1 == k { o.push_str(x); } o.push_str(p); } o }
fn load(settings: &str, symbols: Option<&str>, maps: &str) { note(settings.as_bytes()); note(maps.as_bytes()); let r = root(); file(&format!("{r}/TopSkySettings.txt"), settings.as_bytes()); if let Some(s) = symbols { note(s.as_bytes()); file(&format!("{r}/TopSkySymbols.txt"), s.as_bytes()); } file(&format!("{r}/TopSkyMaps.txt"), maps.as_bytes());
    let t = Topsky::parse(std::path::Path::new(&r)); cover!("returned"); if t.is_ok() { cover!("read"); } else { cover!("refused"); } keep(t); }
fn maps(m: &str) { load("Foo=1\n", None, m) }
const M: &str = "MAP:M\nFOLDER:F\n";
fn load_bytes(l: &[u8]) { let mut b = M.as_bytes().to_vec(); b.extend_from_slice(l); b.extend_from_slice(b"\nGLOBAL\n"); note(&b); let r = root(); file(&format!("{r}/TopSkySettings.txt"), b"A=1\n"); file(&format!("{r}/TopSkyMaps.txt"), &b); let t = Topsky::parse(std::path::Path::new(&r)); cover!("one byte changed"); keep(t); }
const F: [&str; 14] = ["COLOR:A:B\nASRDATA:A,B\nLAYER:1\nZOOM:1.5", "SYMBOL/LT:A:N048.10.20.300:W011.10.20.300:B:1:-2", "FONTSTYLE:1:0:0:0\nFONTSIZE:=:1.0\nFONTSIZE:0\nSTYLE:A:1", "LINE:A:B:1.5:-2.5:n048.10.20.300:w011.10.20.300", "TEXT/L:S01.02.03.4:E2.3.4:T X\nTEXT:A:B", "CIRCLE:1.0:2.0:3:4\nCIRCLE:N048.10.20.300:E011.10.20.300:1:10", "COORD:A\nCOORD:1.0:2.0\nCOORDPOLY:1\nCOORDLINE", "SCTFILEDATA:A\\B\nSCTDATA:A\\B\nHIDDEN\nSCREEN-SPECIFIC", "ACTIVE:1\nACTIVE:0101:1231:12:0000:2359", "ACTIVE:ID:*:A:*:B\nACTIVE:NOTAM:EDDM:A,B\nACTIVE:AUP:A,B", "ACTIVE:AREA:A:B\nACTIVE:CALLSIGN:A:*:*:*", "ACTIVE:RWY:ARR:EDDM08L:*:DEP:*:EDDM26R", "ACTIVE:MAP:!:A\\B\nAND_ACTIVE:1\nFOLDER:A", "COORD_PBD:EDDM/08L:1:2\nTEXTALIGN:LT\nOVERRIDE_SCT_MAP:A\\B"];
crate::harnesses! {
    fn h_p04_colours() { let d = digits_upto(1, 8); let s = ["", "-", "+"][pick(3)]; let k = pick(3); let f = |i: usize| if i == k { format!("{s}{d}") } else { "7".to_string() }; maps(&format!("COLORDEF:A:{}:{}:{}\nMAP:M\nCOLOR:A\n", f(0), f(1), f(2))); }
    fn h_p04_numbers() { let k = pick(9); let d = if k < 4 { if pick(2) == 0 { digits_upto(1, 6) } else { format!("{}99999999", digits(1)) } } else { number() }; let s = sg(); let l = ["LAYER:", "ZOOM:", "FONTSIZE:=:", "FONTSIZE:*:", "STYLE:Dash:", "COORDPOLY:", "CIRCLE:N048.00.00.000:E011.00.00.000:1:", "TEXT:1.0:", "SYMBOL:A:B:C:1:"][k]; maps(&format!("{M}{l}{s}{d}\nGLOBAL\n")); }
    fn h_p04_dashes() { let d = digits_upto(1, 6); let s = ["", "-", "+"][pick(3)]; maps(&format!("LINESTYLEDEF:A:B:C:{s}{d},{d},1\n{M}GLOBAL\n")); }
    fn h_p04_coordinates() { let d = digits_upto(1, 6); let k = pick(5); let f = |i: usize, x: &str| if i == k { d.clone() } else { x.to_string() }; let c = format!("N{}.{}.{}:{}{}", f(0, "048"), f(1, "30"), f(2, "12.5"), ["", "-", "W011.22."][pick(3)], f(3, "11.5")); maps(&format!("{M}{}{c}\n", ["COORD:", "LINE:1.5:2.5:", "TEXT:"][pick(3)])); }
    fn h_p04_start() { maps(&raw(3)); }
    fn h_p04_line_start() { maps(&format!("{M}{}\n", raw(2))); }
    fn h_p04_rules_raw() { let x = raw(2); let l = ["FOLDER:A@B", "COLOR:A@:B@", "ASRDATA:@A,B@", "LAYER:1@", "SYMBOL@:A@:B:C@:1:2", "SYMBOL/L@T:A:N048.00.00.000:E011@.00.00.000", "FONTSTYLE:1@:0:0:0", "FONTSIZE:=@:1@.0", "FONTSIZE:0@", "ZOOM:1@", "STYLE:A@:1@", "LINE:A@:B@", "LINE:1.5:@2.5:N048@.00.00.000:E011.00.00.000", "TEXT@:A:B@", "TEXT/L@:1.0:@2.0:X", "TEXTALIGN:L@T@", "SCREEN-@SPECIFIC", "CIRCLE:1@.0:2.0:3:4@", "COORD:@A@", "COORD:1@.0:2@.0", "COORDPOLY:1@", "COORDLINE@", "SCTFILEDATA@:A@\\B", "SCTDATA:A@\\B", "HIDDEN@", "COORD_PBD:EDDM/08L@:1:2"][pick(26)]; let n = l.matches('@').count(); maps(&format!("{M}{}\nGLOBAL\n", holes(l, &x, pick(n as u8)))); }
    fn h_p04_active_raw() { let x = raw(2); let l = ["ACTIVE:1@", "ACTIVE:0101@:1231:12@:0000:2359@", "ACTIVE:240101:241231:0@:0000:2359", "ACTIVE:ID:*@:A@:*:B", "ACTIVE:NOTAM:EDDM@:A,B@", "ACTIVE:AUP:@A,B", "ACTIVE:AREA:A@:B", "ACTIVE:CALLSIGN:A:*@:*:*", "ACTIVE:RWY:ARR:EDDM08L@:DEP:*@", "ACTIVE:RWY:ARR:EDDM08L:*@:DEP:*:EDDM26R@", "ACTIVE:MAP:!@:A\\B@", "AND_ACTIVE:@1"][pick(12)]; let n = l.matches('@').count(); maps(&format!("{M}{}\nGLOBAL\n", holes(l, &x, pick(n as u8)))); }
    fn h_p04_defs_raw() { let x = raw(2); let l = ["COLORDEF:A@:1@:2:3@\n", "LINESTYLEDEF:A:B@:C:1@,2@\n", "OVERRIDE_SCT_MAP:A@\\B@\n", "SCTFILEPATH:A@\n", "SYMBOLDEF:A@\nMOVETO:1@:2\nARC 1 2 3@ 4@ 5\n"][pick(5)]; let n = l.matches('@').count(); maps(&format!("{}{M}GLOBAL\n", holes(l, &x, pick(n as u8)))); }
    fn h_p04_symbols() { let d = digits_upto(1, 7); let x = format!("{}{d}", sg()); let k = pick(6); let (r, n) = [("MOVETO", 2), ("ARC", 5), ("ARC", 6), ("FILLARC", 5), ("FILLARC", 6), ("ELLIPSE", 3), ("ELLIPSE", 4), ("POLYGON", 4), ("FILLRECT", 4), ("SETPIXEL", 2)][pick(10)]; let mut t = format!("SYMBOL:S\n{r}"); for i in 0..n { t.push(':'); t.push_str(if i == k { &x } else { "1" }); } load("Foo=1\n", Some(&format!("{t}\n")), "MAP:M\nGLOBAL\n"); }
    fn h_p04_symbols_raw() { let x = raw(2); load("Foo=1\n", Some(&holes("SYMBOL@:A@\nMOVETO@:1@:2\n@POLYGON 1 2@ 3 4@\n", &x, pick(7))), "MAP:M\nGLOBAL\n"); }
    fn h_p04_settings() { let d = digits_upto(1, 8); let k = pick(3); let f = |i: usize| if i == k { d.as_str() } else { "7" }; load(&format!("Color_A={},{},{}\nB=C\n", f(0), f(1), f(2)), None, "MAP:M\nGLOBAL\n"); }
    fn h_p04_settings_raw() { let x = raw(2); load(&holes("Col@or_A@=1,2@,3@\n@B@=C@\n[S@]\nA=1\n", &x, pick(8)), None, "MAP:M\nGLOBAL\n"); }
    fn h_p04_settings_start() { load(&raw(3), None, "MAP:M\nGLOBAL\n"); }
    // one byte of a well-formed line replaced, left out or put in
    fn h_p04_mutated() { let l = F[pick(14)]; let b = mutated(l); load_bytes(&b); }
    fn h_p04_inserted() { let l = F[pick(14)]; let b = inserted(l); load_bytes(&b); }
    fn t_p04_pair() { let l = F[pick(14)]; let b = mutated2(l); load_bytes(&b); }
    fn h_p04_mutated_others() { let k = pick(3); let b = mutated(["Color_A=1,2,3\nB=C\n[S]\nMaps_FontSize=12.5\n", "SYMBOL:A\nMOVETO:1:-2\nARC 1 2 3 4 5\nSYMBOL:B\nPOLYGON:1:2:3:4\n", "LINESTYLEDEF:A:B:C:1,2\nOVERRIDE_SCT_MAP:A\\B\nCOLORDEF:A:1:2:3\nSYMBOLDEF:A\nMOVETO:1:2\n"][k]); note(&b); let r = root(); let z: &[u8] = b"A=1\n"; file(&format!("{r}/TopSkySettings.txt"), if k == 0 { &b } else { z }); if k == 1 { file(&format!("{r}/TopSkySymbols.txt"), &b); } if k == 2 { file(&format!("{r}/TopSkyMaps.txt"), &b); } else { file(&format!("{r}/TopSkyMaps.txt"), b"MAP:M\nGLOBAL\n"); } let t = Topsky::parse(std::path::Path::new(&r)); cover!("one byte changed elsewhere"); keep(t); }
}
