//! R01: display settings (.asr) are read key by key
use crate::{check, cover, vp::*};
use vatsim_parser::asr::{Asr, AsrMap, AsrMapAirwayType as Awy, AsrMapFixType as Fx, AsrMapGroundNetworkType as Gn, AsrMapNavaidType as Nv, AsrMapRunwayType as Rw, DisplayType, Leader, SimulationMode};
fn read(t: &str) -> Asr { note(t.as_bytes()); match Asr::parse(t.as_bytes()) { Ok(s) => s, Err(_) => { check!(false, "a well-formed file is read"); assume(false); unreachable!() } } }
const KEYS: [&str; 20] = ["ABOVE", "BELOW", "DISABLEPANNING", "DISABLEZOOMING", "DisplayRotation", "DisplayTypeName", "DisplayTypeGeoReferenced", "DisplayTypeNeedRadarContent", "HISTORY_DOTS", "LEADER", "SECTORFILE", "SECTORTITLE", "SHOWLEADER", "SHOWC", "SHOWSB", "SIMULATION_MODE", "TAGFAMILY", "TURNLEADER", "WINDOWAREA", "PLUGIN"];
/// every field outside `but` has its default
fn defaults(a: &Asr, but: &[usize]) {
    let d = |k: usize, ok: bool| ok | but.contains(&k);
    check!(d(0, a.above.is_none()) & d(1, a.below.is_none()), "no altitude limit unless one is given");
    check!(d(2, !a.disable_panning) & d(3, !a.disable_zooming) & d(12, !a.show_leader) & d(14, !a.show_standby) & d(17, !a.turn_leader), "switches that are off by default are off unless given");
    check!(d(6, a.display_type_geo_referenced) & d(7, a.display_type_need_radar_content) & d(13, a.show_c), "switches that are on by default are on unless given");
    check!(d(4, a.display_rotation == 0.0) & d(5, a.display_type == DisplayType::Radar) & d(15, a.simulation_mode == SimulationMode::Radar), "no rotation, radar display, radar mode by default");
    check!(d(8, a.history_dots == 5) & d(9, a.leader == Leader::Minutes(3)), "five history dots and three minutes of leader by default");
    check!(d(10, a.sector_file.is_empty()) & d(11, a.sector_title.is_empty()) & d(16, same(&a.tag_family, "Matias (built in)")), "empty texts and the built-in tag family by default");
    check!(d(18, a.window_area.0.x == 6.678_287 && a.window_area.0.y == 46.529_122 && a.window_area.1.x == 16.599_900 && a.window_area.1.y == 50.105_536), "the documented window by default");
    check!(d(19, a.plugin_settings.0.is_empty()), "no plugin setting unless given");
}
/// a value for a key and whether the field has it
fn val(k: usize) -> (String, Box<dyn Fn(&Asr) -> bool>) {
    match k {
        0 | 1 => { let d = if pick(2) == 0 { digits_upto(1, 5) } else { format!("42949672{}", digits(2)) }; assume(num(&d) < 1 << 32); let v = num(&d); (d, Box::new(move |a| { let g = if k == 0 { a.above } else { a.below }; match g { None => v == 0, Some(g) => v != 0 && g as i64 == v } })) }
        4 => { let (s, d) = (["", "-"][pick(2)], digits(3)); let v = num(&d) as f64 / 10.0; (format!("{s}{}.{}", &d[..2], &d[2..]), Box::new(move |a| close(a.display_rotation, if s == "-" { -v } else { v }))) }
        5 => { let i = pick(3); (["Standard ES radar screen", "Ground Radar display", "Other"][i].into(), Box::new(move |a| a.display_type == if i == 1 { DisplayType::GroundRadar } else { DisplayType::Radar })) }
        8 => { let d = digits_upto(1, 3); let v0 = num(&d); assume(v0 < 256); let v = num(&d); (d, Box::new(move |a| a.history_dots as i64 == v)) }
        9 => { let (s, d) = (["", "-"][pick(2)], digits_upto(1, 3)); let v = num(&d); assume(v < if s == "-" { 129 } else { 128 }); (format!("{s}{d}"), Box::new(move |a| a.leader == if s != "-" && v > 0 { Leader::Miles(v as u8) } else { Leader::Minutes(v as u8) })) }
        10 | 11 | 16 => { let t = format!("{}{}", word(1, b";"), printable(2, b"")); let x = t.clone(); (t, Box::new(move |a| same(match k { 10 => &a.sector_file, 11 => &a.sector_title, _ => &a.tag_family }, &x))) }
        15 => { let i = pick(5); (["1", "2", "3", "4", "5"][i].into(), Box::new(move |a| a.simulation_mode == if i == 3 { SimulationMode::Ground } else { SimulationMode::Radar })) }
        18 => { let (d, i, s) = (digits(4), pick(4), ["", "-"][pick(2)]); let f = |j: usize, x: f64| if i == j { let v = num(&d) as f64 / 100.0; if s == "-" { -v } else { v } } else { x }; let g = |j: usize, x: &str| if i == j { format!("{s}{}.{}", &d[..2], &d[2..]) } else { x.to_string() };
            let w = [f(0, 48.5), f(1, 11.25), f(2, 49.5), f(3, -12.75)]; (format!("{}:{}:{}:{}", g(0, "48.5"), g(1, "11.25"), g(2, "49.5"), g(3, "-12.75")), Box::new(move |a| close(a.window_area.0.y, w[0]) & close(a.window_area.0.x, w[1]) & close(a.window_area.1.y, w[2]) & close(a.window_area.1.x, w[3]))) }
        19 => { let (p, q, v) = (word(2, b":;"), word(2, b":;"), format!("{}{}", word(1, b";"), printable(1, b""))); let t = format!("{p} x:{q}:{v}"); (t, Box::new(move |a| { let mut n = 0; let mut ok = true; for ((x, y), z) in &a.plugin_settings.0 { n += 1; ok &= same(x, &format!("{p} x")) & same(y, &q) & same(z, &v); } ok & (n == 1) })) }
        _ => { let b = flag(); (format!("{}", b as u8), Box::new(move |a| b == match k { 2 => a.disable_panning, 3 => a.disable_zooming, 6 => a.display_type_geo_referenced, 7 => a.display_type_need_radar_content, 12 => a.show_leader, 13 => a.show_c, 14 => a.show_standby, _ => a.turn_leader })) }
    }
}
const NL: [&str; 2] = ["\n", "\r\n"];
fn none(m: &AsrMap) -> bool { m == &AsrMap::default() }
crate::harnesses! {
    // one key alone: its own field and no other
    fn h_r01_one() { let k = pick(20); let (v, ok) = val(k); let a = read(&format!("{}:{v}\n", KEYS[k])); cover!("one key"); check!(ok(&a), "the field of the key has the value given"); defaults(&a, &[k]); check!(none(&a.map), "no map element unless given"); keep(a); }
    // a key between two others of every kind
    fn h_r01_two() { let k = pick(20); let j = (k + 1 + pick(3)) % 20; let (v, ok) = val(k); let other = ["ABOVE:100", "BELOW:50", "DISABLEPANNING:1", "DISABLEZOOMING:1", "DisplayRotation:1.5", "DisplayTypeName:Ground Radar display", "DisplayTypeGeoReferenced:0", "DisplayTypeNeedRadarContent:0", "HISTORY_DOTS:7", "LEADER:4", "SECTORFILE:F", "SECTORTITLE:T", "SHOWLEADER:1", "SHOWC:0", "SHOWSB:1", "SIMULATION_MODE:4", "TAGFAMILY:T", "TURNLEADER:1", "WINDOWAREA:1:2:3:4", "PLUGIN:A:B:C"][j]; let nl = NL[pick(2)]; let l = format!("{}:{v}", KEYS[k]);
        let a = read(&if pick(2) == 0 { format!("{nl}{l}{nl}{other}{nl}Geo:G:{nl}") } else { format!("{other}{nl}{nl}Geo:G:{nl}{l}") }); cover!("two keys"); check!(ok(&a), "the field of the key has the value given"); defaults(&a, &[k, j]); check!(a.map.geo.len() == 1 && a.map.sids.is_empty(), "map elements are kept");
        check!(match j { 0 => a.above == Some(100), 1 => a.below == Some(50), 2 => a.disable_panning, 3 => a.disable_zooming, 4 => a.display_rotation == 1.5, 5 => a.display_type == DisplayType::GroundRadar, 6 => !a.display_type_geo_referenced, 7 => !a.display_type_need_radar_content, 8 => a.history_dots == 7, 9 => a.leader == Leader::Miles(4), 10 => a.sector_file == "F", 11 => a.sector_title == "T", 12 => a.show_leader, 13 => !a.show_c, 14 => a.show_standby, 15 => a.simulation_mode == SimulationMode::Ground, 16 => a.tag_family == "T", 17 => a.turn_leader, 18 => a.window_area.1.x == 4.0, _ => a.plugin_settings.0.len() == 1 }, "the field of another key has its value, too"); keep(a); }
    // a repeated key: the first one counts
    fn h_r01_repeated() { let k = pick(19); let (v, ok) = val(k); let w = ["77", "77", "1", "0", "7.5", "Other", "1", "0", "77", "77", "F", "T", "0", "1", "0", "1", "T", "0", "1:2:3:4"][k]; let a = read(&format!("{}:{v}\nSHOWSB:0\n{}:{w}\n", KEYS[k], KEYS[k])); cover!("repeated"); check!(ok(&a), "the first of a repeated key counts"); keep(a); }
    fn h_r01_plugins() { let (p, q, r) = (word(1, b":;"), word(1, b":;"), word(1, b":;")); let (v, w) = (word(1, b";"), word(1, b";")); let a = read(&format!("PLUGIN:{p}:{q}:{v}\nSHOWC:1\nPLUGIN:{p}:{r}:{w}\n")); cover!("plugin settings"); let e = q == r; let m = &a.plugin_settings.0; check!(m.len() == if e { 1 } else { 2 }, "one setting per plugin and key");
        for ((x, y), z) in m { check!(same(x, &p), "the plugin is the first field"); check!(if same(y, &r) { same(z, &w) } else { same(y, &q) & same(z, &v) }, "the value belongs to the key, the last one of a repeated key"); } keep(a); }
    // map elements in order, each kind in its own list
    fn h_r01_map() { let k = pick(16); let (x, y) = (format!("{} {}", word(1, b":;\\"), word(1, b":\\")), word(2, b":;\\")); let kk = [3usize, 2, 3, 3, 2, 2, 2, 1, 1, 1, 1, 3, 1, 1, 1, 1][k]; let (i, j) = (pick(kk as u8), pick(kk as u8));
        let l = |n: &str, t: usize| match k { 0 => format!("NDBs:{n}:{}", ["symbol", "name", "frequency"][t]), 1 => format!("Airports:{n}:{}", ["symbol", "name"][t]), 2 => format!("VORs:{n}:{}", ["symbol", "name", "frequency"][t]), 3 => format!("Ground Network:{n}:{}", ["exit", "taxiway", "terminal taxiway"][t]), 4 => format!("Fixes:{n}:{}", ["symbol", "name"][t]), 5 => format!("Low airways:{n}:{}", ["line", "name"][t]), 6 => format!("High airways:{n}:{}", ["line", "name"][t]), 7 => format!("Sids:{n}:"), 8 => format!("Stars:{n}:"), 9 => format!("Geo:{n}:"), 10 => format!("Regions:{n}:polygon"), 11 => format!("Free Text:G\\{n}:freetext"), 12 => format!("ARTCC boundary:{n}:"), 13 => format!("ARTCC low boundary:{n}:"), 14 => format!("ARTCC high boundary:{n}:"), _ => format!("Free Text:{n}\\X:freetext") };
        let (i, j) = if k == 11 { (0, 0) } else { (i, j) }; let nl = NL[pick(2)]; let a = read(&format!("{}{nl}SHOWC:1{nl}{}{nl}", l(&x, i), l(&y, j))); cover!("map"); let m = &a.map;
        let nv = |v: &Vec<(String, Nv)>| v.len() == 2 && { let t = |i: usize| [Nv::Symbol, Nv::Name, Nv::Frequency][i].clone(); same(&v[0].0, &x) & same(&v[1].0, &y) & (v[0].1 == t(i)) & (v[1].1 == t(j)) };
        let fx = |v: &Vec<(String, Fx)>| v.len() == 2 && { let t = |i: usize| [Fx::Symbol, Fx::Name][i].clone(); same(&v[0].0, &x) & same(&v[1].0, &y) & (v[0].1 == t(i)) & (v[1].1 == t(j)) };
        let aw = |v: &Vec<(String, Awy)>| v.len() == 2 && { let t = |i: usize| [Awy::Line, Awy::Name][i].clone(); same(&v[0].0, &x) & same(&v[1].0, &y) & (v[0].1 == t(i)) & (v[1].1 == t(j)) };
        let gn = |v: &Vec<(String, Gn)>| v.len() == 2 && { let t = |i: usize| [Gn::Exit, Gn::Taxiway, Gn::TerminalTaxiway][i].clone(); same(&v[0].0, &x) & same(&v[1].0, &y) & (v[0].1 == t(i)) & (v[1].1 == t(j)) };
        let s = |v: &Vec<String>| v.len() == 2 && same(&v[0], &x) & same(&v[1], &y);
        check!(match k { 0 => nv(&m.ndbs), 1 => fx(&m.airports), 2 => nv(&m.vors), 3 => gn(&m.ground_network), 4 => fx(&m.fixes), 5 => aw(&m.low_airways), 6 => aw(&m.high_airways), 7 => s(&m.sids), 8 => s(&m.stars), 9 => s(&m.geo), 10 => s(&m.regions), 11 => m.free_text.len() == 2 && same(&m.free_text[0].1, &x) & same(&m.free_text[1].1, &y) & (m.free_text[0].0 == "G"), 12 => s(&m.artcc_boundary), 13 => s(&m.artcc_low_boundary), 14 => s(&m.artcc_high_boundary), _ => m.free_text.len() == 2 && same(&m.free_text[0].0, &x) & same(&m.free_text[1].0, &y) & (m.free_text[0].1 == "X") }, "map elements are kept in order under their names and kinds");
        let n = m.runways.len() + m.airports.len() + m.vors.len() + m.ndbs.len() + m.fixes.len() + m.low_airways.len() + m.high_airways.len() + m.sids.len() + m.stars.len() + m.free_text.len() + m.geo.len() + m.ground_network.len() + m.regions.len() + m.artcc_boundary.len() + m.artcc_low_boundary.len() + m.artcc_high_boundary.len(); check!(n == 2, "no element goes to another list"); keep(a); }
    fn h_r01_runways() { let ap = uppers(2); let (d, e) = (digits(2), digits(2)); let s = ["", "L", "R", "C", "G"][pick(5)]; let t = ["", "R"][pick(2)]; let k = pick(3); let a = read(&format!("SHOWC:1\nRunways:ED{ap} X {d}{s}-{e}{t}:{}\nSids:A:\n", ["centerline", "name", "extended centerline 1 left ticks"][k])); cover!("runways"); check!(a.map.sids.len() == 1, "lines after a runway are read");
        check!(if k == 2 { a.map.runways.is_empty() } else { a.map.runways.len() == 1 && { let r = &a.map.runways[0]; same(&r.0, &format!("ED{ap} X")) & same(&r.1, &format!("{d}{s}")) & same(&r.2, &format!("{e}{t}")) & (r.3 == if k == 0 { Rw::Centreline } else { Rw::Name }) } }, "a runway keeps its airport, designators and kind"); keep(a); }
}
