#![allow(dead_code, unused_imports)]
pub mod vp;
pub mod co;
macro_rules! mods { ($($f:literal $m:ident),* $(,)?) => {
    $( #[cfg(feature = $f)] pub mod $m; )*
    #[allow(unused_mut)]
    pub fn table() -> Vec<(&'static str, extern "C" fn())> { let mut v: Vec<(&'static str, extern "C" fn())> = vec![]; $( #[cfg(feature = $f)] v.extend_from_slice($m::TABLE); )* v }
} }
mods! { "a09" a09, "a10" a10, "c01" c01, "c02" c02, "c03" c03, "e01" e01, "e02" e02, "e03" e03, "e04" e04, "f01" f01, "i01" i01, "k01" k01, "n01" n01, "p01" p01, "p02" p02, "p03" p03, "p04" p04, "p05" p05, "r01" r01, "s01" s01, "s02" s02, "s03" s03, "s04" s04, "s05" s05, "x01" x01 }
