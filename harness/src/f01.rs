//! F01: profile paths resolve relative to the profile
use crate::{check, cover, vp::*};
use std::path::Path;
use vatsim_parser::prf::Prf;
fn read(r: &str, t: &str) -> Prf { note(t.as_bytes()); let p = format!("{r}/x.prf"); file(&p, t.as_bytes()); match Prf::parse(Path::new(&p), t.as_bytes()) { Ok(p) => p, Err(_) => { check!(false, "a well-formed profile is read"); assume(false); unreachable!() } } }
fn is(p: &Path, e: &str) -> bool { same(p.to_str().unwrap(), e) }
fn word1() -> String { word(1, b"\\/.") }
const NAMES: [(&str, &str); 9] = [("Settings", "sector"), ("Settings", "airways"), ("Settings", "airportcoords"), ("Settings", "airlines"), ("Settings", "aircraft"), ("Settings", "airports"), ("Settings", "SettingsfileSYMBOLOGY"), ("RecentFiles", "Recent1"), ("RecentFiles", "Recent2")];
/// a profile giving every setting a value of its own except the k-th
fn text(k: usize, v: &str, nl: &str, sep: &str) -> String { let mut t = String::from("Other\tsector\t\\no0\n"); for (i, (c, n)) in NAMES.iter().enumerate() { t.push_str(&format!("{c}{sep}{n}{sep}{}{nl}", if i == k { v.to_string() } else { format!("\\d\\v{i}.q") })); } t.push_str(&format!("Plugins\tairlines\t\\no1{nl}")); t }
fn asked(p: &Prf, i: usize) -> std::path::PathBuf { match i { 0 => p.sct_path(), 1 => p.airways_path(), 2 => p.navdata_airports_path(), 3 => p.airlines_path(), 4 => p.aircraft_path(), 5 => p.airports_path(), 6 => p.symbology_path(), 7 => p.recent_path(1).unwrap_or_default(), _ => p.recent_path(2).unwrap_or_default() } }
crate::harnesses! {
    // each setting gives its own path and no other
    fn h_f01_settings() { let r = root(); let k = pick(9); let (a, b) = (word1(), word1()); let nl = ["\n", "\r\n", " \r\n"][pick(3)]; let v = format!("\\{a}\\{b}.txt"); let p = read(&r, &text(k, &v, nl, ["\t", " \t "][pick(2)])); cover!("settings");
        for i in 0..9 { let x = asked(&p, i); check!(is(&x, &if i == k { format!("{r}/{a}/{b}.txt") } else { format!("{r}/d/v{i}.q") }), "a path that starts with a separator is resolved against the directory of the profile, whatever the other settings are"); }
        check!(p.recent_path(3).is_none(), "a recent file not given is absent"); keep(p); }
    // shapes of values
    fn h_f01_shapes() { let r = root(); let (a, b) = (word1(), word1()); let (v, e) = match pick(8) { 0 => (format!("\\{a}{b}"), format!("{r}/{a}{b}")), 1 => (format!("/{a}/{b}"), format!("{r}/{a}/{b}")), 2 => (format!("\\{a}/{b}\\c d.txt"), format!("{r}/{a}/{b}/c d.txt")), 3 => (format!("\\..\\{a}\\{b}.x"), format!("{r}/../{a}/{b}.x")), 4 => (format!("\\{a} {b}"), format!("{r}/{a} {b}")), 5 => (format!("\\{a}.{b}.c"), format!("{r}/{a}.{b}.c")), 6 => (format!("/{a}\\{b}"), format!("{r}/{a}/{b}")), _ => (format!("\\{a}\\{b}\\"), format!("{r}/{a}/{b}/")) };
        let nl = ["\n", "\r\n", " \t\n"][pick(3)]; let p = read(&r, &text(3, &v, nl, "\t")); let x = p.airlines_path(); cover!("shapes"); check!(is(&x, &e), "backslashes count as separators, blanks at the end are dropped, everything else is kept"); keep((p, x)); }
    // values that do not start with a separator: resolved against the current directory
    fn h_f01_other() { let r = root(); let (a, b) = (word1(), word1()); let v = [format!("{a}{b}\\c.txt"), format!("{a}/{b}"), format!("C:{a}\\{b}")][pick(3)].clone(); let p = read(&r, &text(4, &v, "\n", "\t")); let x = p.aircraft_path(); cover!("other"); let e = std::env::current_dir().unwrap(); check!(is(&x, &format!("{}/{}", e.to_str().unwrap(), v.replace('\\', "/"))), "a path that does not start with a separator is not resolved against the profile"); keep((p, x)); }
    // paths derived from another one
    fn h_f01_derived() { let r = root(); let (a, b) = (uppers(2), uppers(1)); let p = read(&r, &format!("Settings\tsector\t\\{a}\\{b}.sct\nSettings\tairways\t\\{b}\\{a}.txt\n")); cover!("derived"); check!(is(&p.ese_path(), &format!("{r}/{a}/{b}.ese")), "the extension file lies beside the sector file, with the extension ese"); check!(is(&p.isec_path(), &format!("{r}/{b}/isec.txt")), "isec.txt lies beside the airway file"); check!(is(&p.sct_path(), &format!("{r}/{a}/{b}.sct")) & is(&p.airways_path(), &format!("{r}/{b}/{a}.txt")), "the paths they derive from are kept"); keep(p); }
    // plugins found by their file name, whatever the setting is called
    fn h_f01_plugins() { let r = root(); let (a, b) = (word1(), word1()); let (c, n) = [("Plugins", "Plugin0"), ("Plugins", "Plugin17"), ("X", "Y")][pick(3)]; let k = pick(6); let f = ["TopSky.dll", "Squawks.dll", "TopSkyy.dll", "squawks.dll", "TopSky.dll.bak", "Squawks.dl"][k]; let nl = ["\n", "\r\n"][pick(2)];
        let p = read(&r, &format!("Plugins\tPlugin1\t\\{a}\\Other.dll{nl}{c}\t{n}\t\\{a}\\{b}\\{f}{nl}Settings\tsector\t\\x.sct{nl}")); cover!("plugins"); let (t, s) = (p.topsky_path(), p.squawks_path());
        check!(if k == 0 { t.as_deref().is_some_and(|t| is(t, &format!("{r}/{a}/{b}"))) } else { t.is_none() }, "the TopSky directory is that of TopSky.dll"); check!(if k == 1 { s.as_deref().is_some_and(|t| is(t, &format!("{r}/{a}/{b}/squawks.json"))) } else { s.is_none() }, "squawks.json lies beside Squawks.dll"); keep((p, t, s)); }
    // a repeated setting, a recent file of any number
    fn h_f01_recent() { let r = root(); let d = digits_upto(1, 2); let v = num(&d) as u8; let lead = d.len() > 1; assume(!lead || d.as_bytes()[0] != b'0'); let p = read(&r, &format!("RecentFiles\tRecent{d}\t\\a.asr\nRecentFile\tRecent7\t\\b.asr\n")); cover!("recent"); for n in [1u8, 7, 12] { let x = p.recent_path(n); let f = v == n; check!(x.is_some() == f, "a recent file is found under its own number only"); if let Some(x) = x { check!(is(&x, &format!("{r}/a.asr")), "a recent file is that of the setting"); keep(x); } } keep(p); }
}
