From 8361a9ec52342263a7128de5a77dfc5d1f4b460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 01/15] fix: coordinates near a full minute or degree are
 written with the carry, large degrees are not cut to 255

---
 src/lib.rs | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97d4da5..2135283 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,23 +61,18 @@ impl From<&str> for Sign {
 
 type DegMinSec = (Sign, u16, u8, f64);
 
-fn decimal_to_dms(decimal: f64, is_latitude: bool) -> (u8, u8, f64, char) {
-    let is_negative = decimal.is_sign_negative();
-    let abs = decimal.abs();
-
-    let degrees = abs.floor() as u8;
-    let minutes_f64 = abs.fract() * 60.0;
-    let minutes = minutes_f64.floor() as u8;
-    let seconds = minutes_f64.fract() * 60.0;
-
-    let direction = match (is_latitude, is_negative) {
-        (true, false) => 'N',
-        (true, true) => 'S',
-        (false, false) => 'E',
-        (false, true) => 'W',
+fn dms_fmt(decimal: f64, positive: char, negative: char) -> String {
+    let hemi = if decimal.is_sign_negative() {
+        negative
+    } else {
+        positive
     };
+    // round once, to thousandths of an arc second, so that the carry reaches minutes and degrees
+    let millis = (decimal.abs() * 3_600_000.0).round() as u64;
+    let (deg, min) = (millis / 3_600_000, millis / 60_000 % 60);
+    let (sec, milli) = (millis / 1_000 % 60, millis % 1_000);
 
-    (degrees, minutes, seconds, direction)
+    format!("{hemi}{deg:03}.{min:02}.{sec:02}.{milli:03}")
 }
 
 pub trait DegMinSecExt {
@@ -106,21 +101,11 @@ impl DegMinSecExt for Coord {
     }
 
     fn lat_deg_min_sec_fmt(&self) -> String {
-        let lat = decimal_to_dms(self.y, true);
-        let deg = lat.0;
-        let carry_rounded_sec = (lat.2 - 60.).abs() < 0.000_001;
-        let min = lat.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lat.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lat.3)
+        dms_fmt(self.y, 'N', 'S')
     }
 
     fn lng_deg_min_sec_fmt(&self) -> String {
-        let lon = decimal_to_dms(self.x, false);
-        let deg = lon.0;
-        let carry_rounded_sec = (lon.2 - 60.).abs() < 0.000_001;
-        let min = lon.1 + u8::from(carry_rounded_sec);
-        let sec = if carry_rounded_sec { 0.0 } else { lon.2 };
-        format!("{}{deg:03}.{min:02}.{sec:06.3}", lon.3)
+        dms_fmt(self.x, 'E', 'W')
     }
 }
 impl DegMinSecExt for Point {
-- 
2.43.0


From 5707c5a0db35e5bda880145f3b27e834f574e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 02/15] fix: coordinates with five or more degree digits or
 three or more minute digits are refused instead of panicking

---
 src/pest/base.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/base.pest b/src/pest/base.pest
index b4cd78e..2cebaf4 100644
--- a/src/pest/base.pest
+++ b/src/pest/base.pest
@@ -7,8 +7,8 @@ pos_integer = @{ "+"? ~ ASCII_DIGIT+ }
 coordinate     =  { coord_part ~ ":" ~ coord_part }
 coord_part     =  { sct_coord_part | decimal }
 sct_coord_part = ${ hemi ~ deg ~ "." ~ min ~ "." ~ sec }
-deg            = @{ ASCII_DIGIT+ }
-min            = @{ ASCII_DIGIT+ }
+deg            = @{ ASCII_DIGIT{1, 4} }
+min            = @{ ASCII_DIGIT{1, 2} }
 sec            = @{ decimal }
 hemi           = @{ "N" | "S" | "W" | "E" | "n" | "s" | "w" | "e" }
 direction      = @{ "<" | ">" }
-- 
2.43.0


From 48806761686a036af4f2945c1138ee1741f583c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:40 +0000
Subject: [PATCH 03/15] fix: sector-file colour numbers and runway headings
 that do not fit are skipped with a warning instead of panicking

---
 src/sct.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index 5e05637..db787cb 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -742,22 +742,29 @@ fn parse_vor(pair: Pair<Rule>) -> VOR {
     }
 }
 
-fn parse_runway(pair: Pair<Rule>) -> Runway {
+fn parse_heading(pair: &Pair<Rule>) -> Option<u32> {
+    pair.as_str()
+        .parse()
+        .inspect_err(|e| warn!("broken runway heading {}: {e}", pair.as_str()))
+        .ok()
+}
+
+fn parse_runway(pair: Pair<Rule>) -> Option<Runway> {
     let mut runway = pair.into_inner();
     let designator1 = runway.next().unwrap().as_str().to_string();
     let designator2 = runway.next().unwrap().as_str().to_string();
-    let heading1 = runway.next().unwrap().as_str().parse().unwrap();
-    let heading2 = runway.next().unwrap().as_str().parse().unwrap();
+    let heading1 = parse_heading(&runway.next().unwrap())?;
+    let heading2 = parse_heading(&runway.next().unwrap())?;
     let loc1 = parse_coordinate(runway.next().unwrap()).into();
     let loc2 = parse_coordinate(runway.next().unwrap()).into();
     let aerodrome = runway.next().unwrap().as_str().to_string();
 
-    Runway {
+    Some(Runway {
         designators: (designator1, designator2),
         headings: (heading1, heading2),
         location: (loc1, loc2),
         aerodrome,
-    }
+    })
 }
 
 fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -> SctInfo {
@@ -793,7 +800,14 @@ fn parse_info_section(pair: Pair<Rule>, colours: &mut HashMap<String, Colour>) -
 fn parse_colour_definition(pair: Pair<Rule>) -> Option<(String, Colour)> {
     let mut pairs = pair.into_inner();
     let colour_name = pairs.next().unwrap().as_str().to_string();
-    match Colour::from_euroscope(pairs.next().unwrap().as_str().parse().unwrap()) {
+    let colour_value = pairs
+        .next()
+        .unwrap()
+        .as_str()
+        .parse()
+        .inspect_err(|e| warn!("Could not parse colour {colour_name}: {e}"))
+        .ok()?;
+    match Colour::from_euroscope(colour_value) {
         Ok(colour_value) => Some((colour_name, colour_value)),
         Err(e) => {
             warn!("Could not parse colour {colour_name}: {e}");
@@ -890,7 +904,7 @@ fn parse_independent_section(
                             store_colour(colours, pair);
                             None
                         } else {
-                            Some(parse_runway(pair))
+                            parse_runway(pair)
                         }
                     })
                     .collect(),
-- 
2.43.0


From bc5c41207d1ae7da82a06456843e28baeec84ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:05 +0000
Subject: [PATCH 04/15] fix: the first line of a sector-file drawing is
 recognised when a comment or the end of the file follows it, or when it joins
 a fix and a coordinate

---
 src/pest/sct.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index f2bb1ed..103f95c 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -83,8 +83,7 @@ name = @{ (!(NL | "\t" | "[") ~ ANY)* }
 non_coordinate_name = { (!(sct_coordinate | NL) ~ ANY)* }
 non_coordinate_or_double_fix_name = ${
   (!(
-    ((WHITESPACE+ ~ sct_coordinate){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
-    | ((WHITESPACE+ ~ airway_fix){2} ~ (WHITESPACE+ ~ colour_name)? ~ NL)
+    ((WHITESPACE+ ~ (sct_coordinate | airway_fix)){2} ~ (WHITESPACE+ ~ colour_name)? ~ WHITESPACE* ~ COMMENT? ~ (NL | EOI))
     | "[" | "]"
   ) ~ ANY)+
 }
-- 
2.43.0


From cb6e83c6584680631f2f07baca490168dc0a4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 05/15] fix: lines without length and files without [INFO]
 survive being written and read again

---
 src/sct.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sct.rs b/src/sct.rs
index db787cb..75337d6 100644
--- a/src/sct.rs
+++ b/src/sct.rs
@@ -264,7 +264,13 @@ impl ToEuroscope for Location {
 impl ToEuroscope for ColouredLines {
     fn to_euroscope(&self) -> String {
         let mut lines = self.lines.iter().flat_map(|line| {
-            line.points.iter().tuple_windows().map(|(start, end)| {
+            // a line without length is a single point, but still needs two in the file
+            let point = match line.points.as_slice() {
+                [point] => Some((point, point)),
+                _ => None,
+            };
+            let segments = line.points.iter().tuple_windows().chain(point);
+            segments.map(|(start, end)| {
                 format!(
                     "{} {}{}",
                     start.to_euroscope(),
@@ -1180,7 +1186,10 @@ impl Sct {
 }
 impl Display for Sct {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        writeln!(f, "{}", self.info)?;
+        // the info section is optional, but none of its lines may be empty
+        if !self.info.name.is_empty() {
+            writeln!(f, "{}", self.info)?;
+        }
         writeln!(
             f,
             "{}\n",
-- 
2.43.0


From 541a970c2b594fffdf803c1ad2bab4bd808bb295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:23 +0000
Subject: [PATCH 06/15] fix: a label text that starts with a comment sign or
 blanks is read as it stands

---
 src/pest/sct.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 103f95c..9e0d340 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -72,7 +72,7 @@ ctr_airspace = { "A" | "B" | "C" | "D" | "E" | "F" | "G" }
 coloured_lines = { non_coordinate_or_double_fix_name ~ coloured_line ~ (NL ~ coloured_line)*  }
 coloured_line = { (sct_coordinate | airway_fix) ~ (sct_coordinate | airway_fix) ~ colour_name? }
 
-label = { quoted_string ~ sct_coordinate ~ colour_name }
+label = ${ quoted_string ~ WHITESPACE* ~ sct_coordinate ~ WHITESPACE+ ~ colour_name }
 
 // two identical consecutive fixes
 airway_fix = ${ PUSH(designator) ~ WHITESPACE+ ~ POP }
-- 
2.43.0


From 8a3b493c346f6786ee76d11bf3be118a7a995383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:20 +0000
Subject: [PATCH 07/15] fix: text after the coordinate of a fix or NDB makes
 that line broken, not the whole file

---
 src/pest/sct.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pest/sct.pest b/src/pest/sct.pest
index 9e0d340..03115d3 100644
--- a/src/pest/sct.pest
+++ b/src/pest/sct.pest
@@ -35,8 +35,8 @@ info_section = {
   ~ (NL ~ colour_definition)*
 }
 vor_section = { "[VOR]" ~ (NL ~ (colour_definition | location))* }
-ndb_section = { "[NDB]" ~ (NL ~ (colour_definition | (location | broken)))* }
-fixes_section = { "[FIXES]" ~ (NL ~ (colour_definition | (fix | broken)))* }
+ndb_section = { "[NDB]" ~ (NL ~ (colour_definition | (location ~ &(NL | EOI) | broken)))* }
+fixes_section = { "[FIXES]" ~ (NL ~ (colour_definition | (fix ~ &(NL | EOI) | broken)))* }
 airport_section = { "[AIRPORT]" ~ (NL ~ (colour_definition | aerodrome))* }
 runway_section = { "[RUNWAY]" ~ (NL ~ (colour_definition | runway))* }
 sid_section = { "[SID]" ~ (NL ~ (colour_definition | coloured_lines))* }
-- 
2.43.0


From 4c2c8f0069bf350a1fc33c6018ba66279456e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 08/15] fix: levels, altitudes and squawks of an extension file
 that do not fit are skipped with a warning, and decimal coordinates are read,
 instead of panicking

---
 src/ese.rs | 93 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 35 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index ecc2262..0edeadb 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -12,7 +12,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::maps::active::RunwayIdentifier, adaptation::settings::CoordinationTiming,
-    DegMinSec, DegMinSecExt as _, Sign,
+    DegMinSecExt as _, Sign,
 };
 
 use super::read_to_string;
@@ -51,13 +51,13 @@ pub struct MSAW {
     pub points: Vec<Coord>,
 }
 impl MSAW {
-    fn parse(pair: Pair<Rule>) -> (String, Self) {
+    fn parse(pair: Pair<Rule>) -> Option<(String, Self)> {
         let mut msaw = pair.into_inner();
         let id = msaw.next().unwrap().as_str().to_string();
-        let altitude = msaw.next().unwrap().as_str().parse().unwrap();
+        let altitude = parse_u32(&msaw.next().unwrap())?;
         let points = msaw.map(parse_coordinate).collect();
 
-        (id, Self { altitude, points })
+        Some((id, Self { altitude, points }))
     }
 }
 
@@ -129,11 +129,11 @@ pub struct Sector {
 }
 
 impl Sector {
-    fn parse(pair: Pair<Rule>) -> (Vec<String>, Self) {
+    fn parse(pair: Pair<Rule>) -> Option<(Vec<String>, Self)> {
         let mut sector = pair.into_inner();
         let id = sector.next().unwrap().as_str().to_string();
-        let bottom = sector.next().unwrap().as_str().parse().unwrap();
-        let top = sector.next().unwrap().as_str().parse().unwrap();
+        let bottom = parse_u32(&sector.next().unwrap())?;
+        let top = parse_u32(&sector.next().unwrap())?;
         let subsettings = sector.map(Self::parse_subsettings).collect::<Vec<_>>();
         let owner_priority = subsettings
             .iter()
@@ -189,7 +189,7 @@ impl Sector {
             })
             .collect();
 
-        (
+        Some((
             border,
             Self {
                 id,
@@ -202,7 +202,7 @@ impl Sector {
                 // replaced later on
                 border: vec![],
             },
-        )
+        ))
     }
 
     fn parse_subsettings(pair: Pair<Rule>) -> SectorSubsetting {
@@ -255,10 +255,20 @@ fn parse_wildcard_string(pair: &Pair<Rule>) -> Option<String> {
     }
 }
 
-fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<u32> {
+/// `None` (with a warning) if the number is negative or too large
+fn parse_u32(pair: &Pair<Rule>) -> Option<u32> {
+    pair.as_str()
+        .parse()
+        .inspect_err(|e| warn!("could not parse level or altitude, {e}: {}", pair.as_str()))
+        .ok()
+}
+
+/// outer `None` if there is a level, but one which cannot be represented
+#[allow(clippy::option_option)]
+fn parse_wildcard_u32(pair: &Pair<Rule>) -> Option<Option<u32>> {
     match pair.as_rule() {
-        Rule::wildcard => None,
-        Rule::integer => Some(pair.as_str().parse().unwrap()),
+        Rule::wildcard => Some(None),
+        Rule::integer => parse_u32(pair).map(Some),
         rule => unreachable!("{rule:?}"),
     }
 }
@@ -306,7 +316,7 @@ impl fmt::Display for Constraint {
 }
 
 impl Constraint {
-    fn parse(pair: Pair<Rule>) -> Self {
+    fn parse(pair: Pair<Rule>) -> Option<Self> {
         let mut cop = pair.into_inner();
         let previous_fix = parse_wildcard_string(&cop.next().unwrap());
         let departure_runway = parse_wildcard_string(&cop.next().unwrap());
@@ -315,11 +325,11 @@ impl Constraint {
         let arrival_runway = parse_wildcard_string(&cop.next().unwrap());
         let exit_sector = cop.next().unwrap().as_str().to_string();
         let entry_sector = cop.next().unwrap().as_str().to_string();
-        let climb_level = parse_wildcard_u32(&cop.next().unwrap());
-        let descent_level = parse_wildcard_u32(&cop.next().unwrap());
+        let climb_level = parse_wildcard_u32(&cop.next().unwrap())?;
+        let descent_level = parse_wildcard_u32(&cop.next().unwrap())?;
         let description = cop.next().unwrap().as_str().to_string();
 
-        Self {
+        Some(Self {
             previous_fix,
             departure_runway,
             subsequent_fix,
@@ -331,7 +341,7 @@ impl Constraint {
             descent_level,
             description,
             coord_timing: None,
-        }
+        })
     }
 
     /// A deterministic, unique key identifying this exact constraint.
@@ -397,8 +407,13 @@ enum SectionName {
     Unsupported,
 }
 
-fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
-    let mut coordinate_part = pair.into_inner().next().unwrap().into_inner();
+/// degrees, written either as such or as degrees, minutes and seconds
+fn parse_coordinate_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    if let Rule::decimal = coordinate_part.as_rule() {
+        return coordinate_part.as_str().parse().unwrap();
+    }
+    let mut coordinate_part = coordinate_part.into_inner();
     let hemi = coordinate_part.next().unwrap().as_str();
     let sign = Sign::from(hemi);
     let degrees = coordinate_part
@@ -411,15 +426,15 @@ fn parse_coordinate_part(pair: Pair<Rule>) -> DegMinSec {
     let min = coordinate_part.next().unwrap().as_str().parse().unwrap();
     let sec = coordinate_part.next().unwrap().as_str().parse().unwrap();
 
-    (sign, degrees, min, sec)
+    Coord::from_deg_min_sec((sign, degrees, min, sec), (Sign::Pos, 0, 0, 0.0)).y
 }
 
 // TODO generalise this and other similar into trait
 fn parse_coordinate(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = parse_coordinate_part(coordinate.next().unwrap());
-    let lng = parse_coordinate_part(coordinate.next().unwrap());
-    Coord::from_deg_min_sec(lat, lng)
+    let y = parse_coordinate_part(coordinate.next().unwrap());
+    let x = parse_coordinate_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 enum SectorRule {
@@ -432,15 +447,17 @@ enum SectorRule {
     Msaw((String, MSAW)),
 }
 
-fn parse_airspace(pair: Pair<Rule>) -> SectorRule {
+fn parse_airspace(pair: Pair<Rule>) -> Option<SectorRule> {
     match pair.as_rule() {
-        Rule::sectorline => SectorRule::SectorLine(SectorLine::parse(pair)),
-        Rule::sector => SectorRule::Sector(Sector::parse(pair)),
-        Rule::cop => SectorRule::Cop(Constraint::parse(pair)),
-        Rule::fir_cop => SectorRule::FirCop(Constraint::parse(pair)),
-        Rule::display_sectorline => SectorRule::DisplaySectorline,
-        Rule::circle_sectorline => SectorRule::CircleSectorLine(CircleSectorLine::parse(pair)),
-        Rule::msaw => SectorRule::Msaw(MSAW::parse(pair)),
+        Rule::sectorline => Some(SectorRule::SectorLine(SectorLine::parse(pair))),
+        Rule::sector => Sector::parse(pair).map(SectorRule::Sector),
+        Rule::cop => Constraint::parse(pair).map(SectorRule::Cop),
+        Rule::fir_cop => Constraint::parse(pair).map(SectorRule::FirCop),
+        Rule::display_sectorline => Some(SectorRule::DisplaySectorline),
+        Rule::circle_sectorline => {
+            Some(SectorRule::CircleSectorLine(CircleSectorLine::parse(pair)))
+        }
+        Rule::msaw => MSAW::parse(pair).map(SectorRule::Msaw),
         rule => unreachable!("{rule:?}"),
     }
 }
@@ -449,9 +466,15 @@ fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
     maybe_pair.and_then(|pair| match pair.as_rule() {
         Rule::squawk_range => {
             let mut squawk_range = pair.into_inner();
-            let squawk_begin = squawk_range.next().unwrap().as_str().parse().unwrap();
-            let squawk_end = squawk_range.next().unwrap().as_str().parse().unwrap();
-            Some((squawk_begin, squawk_end))
+            let mut code = || {
+                let code = squawk_range.next().unwrap().as_str();
+                code.parse()
+                    .inspect_err(|e| warn!("could not parse squawk, {e}: {code}"))
+                    .ok()
+            };
+            let squawk_begin = code();
+            let squawk_end = code();
+            squawk_begin.zip(squawk_end)
         }
         _ => None,
     })
@@ -607,7 +630,7 @@ fn parse_section(pair: Pair<Rule>) -> (SectionName, Section) {
             Section::Sectors({
                 combine_sectors_with_borders(
                     pair.into_inner()
-                        .map(parse_airspace)
+                        .filter_map(parse_airspace)
                         // TODO combine sectors with lines
                         .fold(
                             (
-- 
2.43.0


From 95e79bee5aa8f596c5270094f545cf55a39b3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:38 +0000
Subject: [PATCH 09/15] fix: a position without squawk range keeps its first
 visibility point

---
 src/ese.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ese.rs b/src/ese.rs
index 0edeadb..7f25ef4 100644
--- a/src/ese.rs
+++ b/src/ese.rs
@@ -462,22 +462,17 @@ fn parse_airspace(pair: Pair<Rule>) -> Option<SectorRule> {
     }
 }
 
-fn parse_squawk_range(maybe_pair: Option<Pair<Rule>>) -> Option<(u16, u16)> {
-    maybe_pair.and_then(|pair| match pair.as_rule() {
-        Rule::squawk_range => {
-            let mut squawk_range = pair.into_inner();
-            let mut code = || {
-                let code = squawk_range.next().unwrap().as_str();
-                code.parse()
-                    .inspect_err(|e| warn!("could not parse squawk, {e}: {code}"))
-                    .ok()
-            };
-            let squawk_begin = code();
-            let squawk_end = code();
-            squawk_begin.zip(squawk_end)
-        }
-        _ => None,
-    })
+fn parse_squawk_range(pair: Pair<Rule>) -> Option<(u16, u16)> {
+    let mut squawk_range = pair.into_inner();
+    let mut code = || {
+        let code = squawk_range.next().unwrap().as_str();
+        code.parse()
+            .inspect_err(|e| warn!("could not parse squawk, {e}: {code}"))
+            .ok()
+    };
+    let squawk_begin = code();
+    let squawk_end = code();
+    squawk_begin.zip(squawk_end)
 }
 
 fn parse_position(pair: Pair<Rule>) -> (String, Position) {
@@ -490,8 +485,11 @@ fn parse_position(pair: Pair<Rule>) -> (String, Position) {
     let prefix = position.next().unwrap().as_str().to_string();
     let suffix = position.next().unwrap().as_str().to_string();
     // skip unused fields
-    let mut position = position.skip(2);
-    let squawk_range = parse_squawk_range(position.next());
+    let mut position = position.skip(2).peekable();
+    // the squawk range is optional, do not take a visibility point for it
+    let squawk_range = position
+        .next_if(|pair| matches!(pair.as_rule(), Rule::squawk_range))
+        .and_then(parse_squawk_range);
     let visibility_points = position.map(parse_coordinate).collect();
 
     (
-- 
2.43.0


From 9da104d0bd60d4c0af7a20c6177e0847e5018cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:21 +0000
Subject: [PATCH 10/15] fix: display-setting numbers that do not fit are
 skipped with a warning and degree-minute-second window areas are read instead
 of panicking

---
 src/asr.rs | 51 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/asr.rs b/src/asr.rs
index 7370616..be0b8d5 100644
--- a/src/asr.rs
+++ b/src/asr.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::{fmt::Display, io, str::FromStr};
 
 use geo::Coord;
 use pest::{iterators::Pair, Parser};
@@ -7,7 +7,7 @@ use serde::Serialize;
 use thiserror::Error;
 use tracing::warn;
 
-use crate::TwoKeyMap;
+use crate::{Sign, TwoKeyMap};
 
 use super::read_to_string;
 
@@ -214,6 +214,35 @@ fn to_bool(data: &str) -> Option<bool> {
     }
 }
 
+/// `None` (with a warning) if the number does not fit
+fn parse_number<T: FromStr>(pair: Option<Pair<Rule>>) -> Option<T>
+where
+    T::Err: Display,
+{
+    let number = pair.unwrap();
+    number
+        .as_str()
+        .parse()
+        .inspect_err(|e| warn!("could not parse number, {e}: {}", number.as_str()))
+        .ok()
+}
+
+/// degrees, written either as such or as degrees, minutes and seconds
+fn parse_coord_part(pair: Option<Pair<Rule>>) -> f64 {
+    let part = pair.unwrap().into_inner().next().unwrap();
+    if let Rule::DECIMAL = part.as_rule() {
+        return part.as_str().parse().unwrap();
+    }
+    let mut part = part.into_inner();
+    let sign = Sign::from(part.next().unwrap().as_str()).sign();
+    let mut number = || part.next().unwrap().as_str().parse::<f64>().unwrap();
+    let degrees = number();
+    let min = number();
+    let sec = number();
+
+    (degrees + min / 60.0 + sec / 3600.0) * f64::from(sign)
+}
+
 fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
     let rule = pair.as_rule();
     let mut inner = pair.into_inner();
@@ -241,7 +270,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         Rule::show_c => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowC),
         Rule::show_standby => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowStandby),
         Rule::above => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_number(inner.next())?;
             Some(if filter == 0 {
                 AsrData::Above(None)
             } else {
@@ -249,7 +278,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::below => {
-            let filter = inner.next().unwrap().as_str().parse().unwrap();
+            let filter = parse_number(inner.next())?;
             Some(if filter == 0 {
                 AsrData::Below(None)
             } else {
@@ -257,7 +286,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             })
         }
         Rule::leader => {
-            let leader = inner.next().unwrap().as_str().parse::<i8>().unwrap();
+            let leader = parse_number::<i8>(inner.next())?;
             Some(if leader > 0 {
                 #[allow(clippy::cast_sign_loss)]
                 AsrData::Leader(Leader::Miles(leader as u8))
@@ -267,9 +296,7 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
         }
         Rule::show_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::ShowLeader),
         Rule::turn_leader => to_bool(inner.next().unwrap().as_str()).map(AsrData::TurnLeader),
-        Rule::history_dots => Some(AsrData::HistoryDots(
-            inner.next().unwrap().as_str().parse().unwrap(),
-        )),
+        Rule::history_dots => parse_number(inner.next()).map(AsrData::HistoryDots),
         Rule::simulation_mode => Some(AsrData::SimulationMode(
             match inner.next().unwrap().as_str() {
                 "1" => SimulationMode::Radar,
@@ -290,10 +317,10 @@ fn parse_setting(pair: Pair<Rule>) -> Option<AsrData> {
             inner.next().unwrap().as_str().to_string(),
         )),
         Rule::window_area => {
-            let lat1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng1 = inner.next().unwrap().as_str().parse().unwrap();
-            let lat2 = inner.next().unwrap().as_str().parse().unwrap();
-            let lng2 = inner.next().unwrap().as_str().parse().unwrap();
+            let lat1 = parse_coord_part(inner.next());
+            let lng1 = parse_coord_part(inner.next());
+            let lat2 = parse_coord_part(inner.next());
+            let lng2 = parse_coord_part(inner.next());
             Some(AsrData::WindowArea((
                 Coord { x: lng1, y: lat1 },
                 Coord { x: lng2, y: lat2 },
-- 
2.43.0


From 7841b70821728d4b4fbee7d06a1cb04098856a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:21 +0000
Subject: [PATCH 11/15] fix: symbology numbers that do not fit are skipped with
 a warning, symbol angles of any length are read instead of panicking

---
 src/adaptation/symbols.rs | 16 ++++++++++++++
 src/symbology.rs          | 44 +++++++++++++++++++++------------------
 src/topsky/symbol.rs      | 29 +++++++++++---------------
 3 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/src/adaptation/symbols.rs b/src/adaptation/symbols.rs
index 52bb09b..6dfa543 100644
--- a/src/adaptation/symbols.rs
+++ b/src/adaptation/symbols.rs
@@ -20,6 +20,22 @@ pub enum SymbolRule {
     Polygon(Vec<(f64, f64)>),
 }
 
+/// angle in degrees modulo 360, keeping the sign, for an integer of any length
+pub(crate) fn parse_angle(integer: &str) -> i64 {
+    let angle = integer
+        .bytes()
+        .filter(u8::is_ascii_digit)
+        .fold(0, |angle, digit| {
+            (angle * 10 + i64::from(digit - b'0')) % 360
+        });
+
+    if integer.starts_with('-') {
+        -angle
+    } else {
+        angle
+    }
+}
+
 type Symbol = Vec<SymbolRule>;
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct Symbols {
diff --git a/src/symbology.rs b/src/symbology.rs
index 4648226..0e538b8 100644
--- a/src/symbology.rs
+++ b/src/symbology.rs
@@ -12,7 +12,10 @@ use tracing::warn;
 use crate::adaptation::line_styles::LineStyle;
 use crate::adaptation::{Alignment, HorizontalAlignment, VerticalAlignment};
 use crate::{
-    adaptation::{colours::Colour, symbols::SymbolRule},
+    adaptation::{
+        colours::Colour,
+        symbols::{parse_angle, SymbolRule},
+    },
     TwoKeyMap,
 };
 
@@ -43,6 +46,14 @@ pub struct Item {
     pub text_alignment: Alignment,
 }
 
+/// `None` (with a warning) if the number does not fit
+fn parse_integer(integer: &str) -> Option<i32> {
+    integer
+        .parse()
+        .inspect_err(|e| warn!("could not parse number, {e}: {integer}"))
+        .ok()
+}
+
 fn parse_linestyle(pair: &Pair<Rule>) -> String {
     match pair.as_str().parse::<u8>().unwrap() {
         0 => LineStyle::SOLID.to_string(),
@@ -118,10 +129,10 @@ impl Item {
         let folder = item.next().unwrap().as_str().to_string();
         let name = item.next().unwrap().as_str().to_string();
         let colour_str = item.next().unwrap().as_str();
-        let colour_num = colour_str.parse::<i32>().unwrap();
+        let colour_num = parse_integer(colour_str)?;
         let font_size_symbol_scale = item.next().unwrap().as_str().parse().unwrap();
         let line_style = parse_linestyle(&item.next().unwrap());
-        let line_weight = item.next().unwrap().as_str().parse().unwrap();
+        let line_weight = parse_integer(item.next().unwrap().as_str())?;
         let text_alignment = parse_alignment(&item.next().unwrap());
 
         match Colour::from_euroscope(colour_num) {
@@ -152,7 +163,8 @@ fn parse_point(pair: Pair<Rule>) -> (f64, f64) {
 // TODO similar to topsky symbol parsing, generalise?
 fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)> {
     let mut symbol = pair.into_inner();
-    let maybe_symbol_type = SymbolType::from_u32(symbol.next().unwrap().as_str().parse().unwrap());
+    let maybe_symbol_type =
+        parse_integer(symbol.next().unwrap().as_str()).and_then(SymbolType::from_i32);
     let symbol_rules = symbol
         .map(|pair| {
             let ruletype = pair.as_rule();
@@ -164,20 +176,16 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                 Rule::arc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::Arc(pos, radius, start_angle, end_angle)
                 }
                 Rule::arc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::Arc(pos, radius_x, start_angle, end_angle)
                     } else {
@@ -187,20 +195,16 @@ fn parse_symbol_rules(pair: Pair<Rule>) -> Option<(SymbolType, Vec<SymbolRule>)>
                 Rule::fillarc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::FilledArc(pos, radius, start_angle, end_angle)
                 }
                 Rule::fillarc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::FilledArc(pos, radius_x, start_angle, end_angle)
                     } else {
diff --git a/src/topsky/symbol.rs b/src/topsky/symbol.rs
index bad01bc..2aa8f3e 100644
--- a/src/topsky/symbol.rs
+++ b/src/topsky/symbol.rs
@@ -6,7 +6,10 @@ use pest::{
 };
 use serde::Serialize;
 
-use crate::{adaptation::symbols::SymbolRule, read_to_string};
+use crate::{
+    adaptation::symbols::{parse_angle, SymbolRule},
+    read_to_string,
+};
 
 use super::{parse_point, Rule, TopskyError, TopskyParser};
 
@@ -28,20 +31,16 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                 Rule::arc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::Arc(pos, radius, start_angle, end_angle)
                 }
                 Rule::arc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::Arc(pos, radius_x, start_angle, end_angle)
                     } else {
@@ -51,20 +50,16 @@ fn parse_symbol_rules(pairs: Pairs<Rule>) -> Vec<SymbolRule> {
                 Rule::fillarc => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius = symbolrule.next().unwrap().as_str().parse().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     SymbolRule::FilledArc(pos, radius, start_angle, end_angle)
                 }
                 Rule::fillarc_ellipse => {
                     let pos = parse_point(symbolrule.next().unwrap());
                     let radius_x = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
                     let radius_y = symbolrule.next().unwrap().as_str().parse::<f64>().unwrap();
-                    let start_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
-                    let end_angle =
-                        symbolrule.next().unwrap().as_str().parse::<i64>().unwrap() % 360;
+                    let start_angle = parse_angle(symbolrule.next().unwrap().as_str());
+                    let end_angle = parse_angle(symbolrule.next().unwrap().as_str());
                     if (radius_x - radius_y).abs() < f64::EPSILON {
                         SymbolRule::FilledArc(pos, radius_x, start_angle, end_angle)
                     } else {
-- 
2.43.0


From a66e71522fb1b88bd1c6a69c4b8df8b538fbbfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:29 +0000
Subject: [PATCH 12/15] fix: TopSky map coordinates mixing decimal and degrees,
 and colour definitions out of range, no longer panic

---
 src/topsky/map/mod.rs | 71 ++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 42 deletions(-)

diff --git a/src/topsky/map/mod.rs b/src/topsky/map/mod.rs
index 655b2d6..072b369 100644
--- a/src/topsky/map/mod.rs
+++ b/src/topsky/map/mod.rs
@@ -13,7 +13,7 @@ use tracing::warn;
 
 use crate::{
     adaptation::{colours::Colour, line_styles::LineStyle, maps::active::Active, Alignment},
-    read_to_string, DegMinSec, DegMinSecExt as _, Location, Sign,
+    read_to_string, DegMinSecExt as _, Location, Sign,
 };
 
 use super::{
@@ -22,46 +22,34 @@ use super::{
     Rule, TopskyError, TopskyParser,
 };
 
-enum CoordinatePart {
-    Decimal(f64),
-    DegMinSec(DegMinSec),
-}
-impl CoordinatePart {
-    fn parse(pair: Pair<Rule>) -> Self {
-        let coordinate_part = pair.into_inner().next().unwrap();
-        match coordinate_part.as_rule() {
-            Rule::decimal => Self::Decimal(coordinate_part.as_str().parse().unwrap()),
-            Rule::sct_coord_part => {
-                let mut sct_coord_part = coordinate_part.into_inner();
-                let hemi = sct_coord_part.next().unwrap().as_str();
-                let sign = Sign::from(hemi);
-                let degrees = sct_coord_part
-                    .next()
-                    .unwrap()
-                    .as_str()
-                    .parse::<u16>()
-                    .unwrap();
-                let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-                let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
-
-                Self::DegMinSec((sign, degrees, min, sec))
-            }
-            rule => unreachable!("{rule:?}"),
+fn parse_coord_part(pair: Pair<Rule>) -> f64 {
+    let coordinate_part = pair.into_inner().next().unwrap();
+    match coordinate_part.as_rule() {
+        Rule::decimal => coordinate_part.as_str().parse().unwrap(),
+        Rule::sct_coord_part => {
+            let mut sct_coord_part = coordinate_part.into_inner();
+            let hemi = sct_coord_part.next().unwrap().as_str();
+            let sign = Sign::from(hemi);
+            let degrees = sct_coord_part
+                .next()
+                .unwrap()
+                .as_str()
+                .parse::<u16>()
+                .unwrap();
+            let min = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+            let sec = sct_coord_part.next().unwrap().as_str().parse().unwrap();
+
+            Coord::from_deg_min_sec((sign, degrees, min, sec), (Sign::Pos, 0, 0, 0.0)).y
         }
+        rule => unreachable!("{rule:?}"),
     }
 }
 
 fn parse_coord(pair: Pair<Rule>) -> Coord {
     let mut coordinate = pair.into_inner();
-    let lat = CoordinatePart::parse(coordinate.next().unwrap());
-    let lng = CoordinatePart::parse(coordinate.next().unwrap());
-    match (lat, lng) {
-        (CoordinatePart::Decimal(y), CoordinatePart::Decimal(x)) => Coord { x, y },
-        (CoordinatePart::DegMinSec(lat), CoordinatePart::DegMinSec(lng)) => {
-            Coord::from_deg_min_sec(lat, lng)
-        }
-        _ => panic!("Consistency!"),
-    }
+    let y = parse_coord_part(coordinate.next().unwrap());
+    let x = parse_coord_part(coordinate.next().unwrap());
+    Coord { x, y }
 }
 
 impl Location {
@@ -376,13 +364,12 @@ pub(super) fn parse_colour(pair: Pair<Rule>) -> Option<ColourDef> {
         Rule::colourdef => {
             let mut colour = pair.into_inner();
             let name = colour.next().unwrap().as_str().to_string();
-            let r = colour.next().unwrap().as_str().parse().unwrap();
-            let g = colour.next().unwrap().as_str().parse().unwrap();
-            let b = colour.next().unwrap().as_str().parse().unwrap();
-            Some(ColourDef {
-                name,
-                colour: Colour::from_rgb(r, g, b),
-            })
+            let [r, g, b] = [(); 3].map(|()| colour.next().unwrap().as_str().parse().ok());
+            let colour = r.zip(g).zip(b).map(|((r, g), b)| Colour::from_rgb(r, g, b));
+            if colour.is_none() {
+                warn!("Could not parse colour {name}");
+            }
+            colour.map(|colour| ColourDef { name, colour })
         }
         Rule::EOI => None,
         rule => unreachable!("{rule:?}"),
-- 
2.43.0


From 4dfb9c42f253395bbc2a7d301f8978f3d2bfa906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:29 +0000
Subject: [PATCH 13/15] fix: airway minimum levels too large for a number no
 longer panic

---
 src/airway.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/airway.rs b/src/airway.rs
index 31a3ed2..27c9322 100644
--- a/src/airway.rs
+++ b/src/airway.rs
@@ -33,7 +33,11 @@ fn parse_coord(pair: Pair<Rule>) -> Point {
 fn parse_level(pair: &Pair<Rule>) -> Option<u32> {
     match pair.as_rule() {
         Rule::not_established => None,
-        Rule::level => Some(pair.as_str().parse().unwrap()),
+        Rule::level => pair
+            .as_str()
+            .parse()
+            .inspect_err(|e| tracing::warn!("could not parse level, {e}: {}", pair.as_str()))
+            .ok(),
         rule => unreachable!("{rule:?}"),
     }
 }
-- 
2.43.0


From a95b0c4abb92264e36e93bbc98c3c2075094acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 14/15] fix: names of AUP and NOTAM activations of TopSky maps
 are read one by one

---
 src/topsky/map/active.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topsky/map/active.rs b/src/topsky/map/active.rs
index afee1fd..60bc9b7 100644
--- a/src/topsky/map/active.rs
+++ b/src/topsky/map/active.rs
@@ -126,6 +126,7 @@ impl Active {
             Rule::active_aup => Self::Aup(
                 active
                     .into_inner()
+                    .flat_map(Pair::into_inner)
                     .map(|pair| pair.as_str().to_string())
                     .collect(),
             ),
@@ -133,7 +134,10 @@ impl Active {
                 let mut active_notam = active.into_inner();
                 Self::Notam(
                     active_notam.next().unwrap().as_str().to_string(),
-                    active_notam.map(|pair| pair.as_str().to_string()).collect(),
+                    active_notam
+                        .flat_map(Pair::into_inner)
+                        .map(|pair| pair.as_str().to_string())
+                        .collect(),
                 )
             }
             Rule::active_area => Self::Area(ActiveAreas::parse(active)),
-- 
2.43.0


From b00a87130a23ab7c1be6f02a686c076914ebf731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:09 +0000
Subject: [PATCH 15/15] fix: an extension file with a position whose squawk
 range is empty but which has visibility points is read

---
 src/pest/ese.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pest/ese.pest b/src/pest/ese.pest
index c2a029e..e7216f7 100644
--- a/src/pest/ese.pest
+++ b/src/pest/ese.pest
@@ -18,7 +18,7 @@ unparsed_section = { (section_header ~ NL ~ line*) }
 
 position = {
   colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ frequency ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":"
-  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ squawk_range? ~ ":"?
+  ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ colon_delimited_text ~ ":" ~ (squawk_range | ":")? ~ ":"?
   ~ coordinate? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)? ~ (":" ~ coordinate)?
 }
 squawk_range = { integer ~ ":" ~ integer }
-- 
2.43.0

