//! coordinates with known values
use crate::vp::*;
use geo::Point;
use vatsim_parser::Location;
pub struct Co { pub t: String, pub y: f64, pub x: f64 }
/// a coordinate whose degrees (two digits each) are symbolic
pub fn co() -> Co { let a = digits(2); let b = digits(2); let (y, x) = (num(&a) as f64 + 0.5, -(num(&b) as f64 + 0.25)); Co { t: format!("N0{a}.30.00.000 W0{b}.15.00.000"), y, x } }
pub fn fixed(a: u8) -> Co { Co { t: format!("N{:03}.00.00.000 E{:03}.00.00.000", a, a + 1), y: a as f64, x: a as f64 + 1.0 } }
pub fn at(p: &Point, c: &Co) -> bool { close(p.y(), c.y) & close(p.x(), c.x) }
pub fn loc(l: &Location, c: &Co) -> bool { match l { Location::Coordinate(p) => at(p, c), _ => false } }
