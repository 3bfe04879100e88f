#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---- P: totality -------------------------------------------------------
NP="Parsing is a total function: whatever bytes the file holds, the call returns a value or an error; it never panics, aborts or loops. "
p("P01","Parsing a sector (.sct) file never panics",
  NP+"This includes numbers that do not fit their field (degrees, minutes, headings, colours), coordinates of any shape the grammar lets through, and broken lines.",
  ["inputs"],"every byte string given to the .sct parser",
  "The tests parse one well-formed excerpt and one real fixture; every `unwrap` on a grammar-accepted but out-of-range number is unreached.",
  ["src/sct.rs","src/pest/sct.pest","src/pest/base.pest"],[("parse_coordinate_part / parse_runway / parse_colour_definition","src/sct.rs")],["sct::Sct::parse"])
p("P02","Parsing an extension (.ese) file never panics",
  NP+"This includes numeric fields of any length and sign (levels, altitudes, squawk ranges, display-line distances) and coordinates in any notation the grammar lets through.",
  ["inputs"],"every byte string given to the .ese parser",
  "The tests hold one hand-written file and one fixture whose numbers are all in range.",
  ["src/ese.rs","src/pest/ese.pest"],[("parse_* functions","src/ese.rs")],["ese::Ese::parse"])
p("P03","Parsing .asr, symbology and .prf files never panics",
  NP+"This holds for display settings, colour and symbol settings, and profile files, including when a profile lacks a setting that is then asked for.",
  ["inputs"],"every byte string given to the .asr, symbology and .prf parsers",
  "The tests parse well-formed samples only.",
  ["src/asr.rs","src/symbology.rs","src/prf.rs"],[("Asr::parse","src/asr.rs"),("Symbology::parse","src/symbology.rs"),("Prf::parse and *_path","src/prf.rs")],["asr::Asr::parse","symbology::Symbology::parse","prf::Prf::parse"])
p("P04","Loading a TopSky directory never panics",
  NP+"This holds for the contents of TopSkyMaps.txt, TopSkySymbols.txt and TopSkySettings.txt alike.",
  ["inputs"],"every content of the three TopSky files",
  "The tests parse well-formed samples only.",
  ["src/topsky/mod.rs","src/topsky/map/mod.rs","src/topsky/symbol.rs","src/topsky/settings.rs"],[("parse_topsky_maps","src/topsky/mod.rs"),("MapRule::parse","src/topsky/map/mod.rs")],["topsky::Topsky::parse"])
p("P05","Parsing airway, isec, ICAO, airport-data and squawk files never panics",
  NP+"Applies to the airway, isec, ICAO aircraft/airline/airport, navdata airport and squawk-range files.",
  ["inputs"],"every byte string given to those seven parsers",
  "The tests parse one well-formed sample per format.",
  ["src/airway.rs","src/isec.rs","src/icao_aircraft.rs","src/icao_airlines.rs","src/icao_airports.rs","src/navdata_airports.rs","src/squawks.rs"],
  [("parse_airway_txt","src/airway.rs"),("parse_isec_txt","src/isec.rs"),("parse_aircraft/airlines/airports","src/icao_*.rs"),("parse_navdata_airports","src/navdata_airports.rs"),("parse_squawks_json","src/squawks.rs")],["those functions"])

# ---- C: coordinates ----------------------------------------------------
p("C01","A sector-file coordinate denotes sign x (deg + min/60 + sec/3600)",
  "Wherever a degree-minute-second coordinate is read (.sct, .ese, TopSky maps), latitude and longitude are each degrees + minutes/60 + seconds/3600 to within 1e-9 degree, latitude from the first part and longitude from the second, negated exactly for S and W (either case), also when the degrees are zero.",
  ["inputs"],"every hemisphere letter and every degree, minute and second digit",
  "The tests check a handful of coordinates; hemisphere/zero-degree/axis combinations are not enumerated.",
  ["src/lib.rs","src/sct.rs","src/ese.rs","src/topsky/map/mod.rs"],[("Coord::from_deg_min_sec","src/lib.rs"),("parse_coordinate_part","src/sct.rs, src/ese.rs"),("parse_coordinate","src/topsky")],["sct::Sct::parse","ese::Ese::parse","topsky::Topsky::parse","DegMinSecExt::from_deg_min_sec"])
p("C02","A coordinate is written as a well-formed degree-minute-second string",
  "Formatting a coordinate gives hemisphere letter, three-digit degrees, two-digit minutes below 60 and seconds ss.sss below 60; the hemisphere is that of the coordinate's sign, and the text denotes the coordinate to within half a thousandth of an arc second (plus floating-point noise).",
  ["inputs"],"every latitude in [-90,90] and longitude in [-180,180], bounded to a stated grid of binary fractions",
  "The tests format three values; values whose seconds round up to 60 are rare (about one in 10^5) and none is tried.",
  ["src/lib.rs"],[("decimal_to_dms, lat/lng_deg_min_sec_fmt","src/lib.rs")],["DegMinSecExt::{lat,lng}_deg_min_sec_fmt","sct Display","isec Display"])
p("C03","A coordinate read from a file is written back unchanged",
  "Reading a degree-minute-second coordinate with millisecond precision (any hemisphere, minutes and seconds below 60) and formatting it again gives the same text in canonical form.",
  ["inputs"],"every such coordinate text",
  "One coordinate is round-tripped in the tests.",
  ["src/lib.rs"],[("from_deg_min_sec + *_deg_min_sec_fmt","src/lib.rs")],["DegMinSecExt","sct Display"])

# ---- S: sct -------------------------------------------------------------
p("S01","Writing a parsed sector file and parsing it again is lossless",
  "The text a parsed sector file is rendered to parses again, and the result equals the original in every section up to the sorting of entries within a section that rendering applies, for coordinates of millisecond precision.",
  ["inputs"],"every sector file of the supported grammar whose names, numbers and coordinates are in canonical form, bounded",
  "One fixture is rendered in the tests; the interaction of names, colours and line groups is not explored.",
  ["src/sct.rs"],[("impl Display for Sct, ToEuroscope","src/sct.rs"),("Sct::parse","src/sct.rs")],["sct::Sct::parse","sct::Sct::to_string"])
p("S02","Every sector-file entry is kept, in order, with its fields in the right place",
  "Each well-formed line of the AIRPORT, VOR, NDB, FIXES, RUNWAY, AIRWAY, REGIONS and LABELS sections yields exactly one entry, in file order, whose designator, frequency, headings, airport, names and start/end locations are the corresponding tokens of that line.",
  ["inputs"],"every such line, bounded token lengths",
  "The sample files exercise each kind of line with fixed text.",
  ["src/sct.rs","src/pest/sct.pest"],[("parse_independent_section","src/sct.rs")],["sct::Sct::parse"])
p("S03","A broken line never disturbs its neighbours",
  "Where the format tolerates broken lines (the FIXES and NDB sections of a sector file), a line that cannot be read is skipped and every other line of the file gives exactly the entries it gives without the broken line.",
  ["inputs"],"every content of the broken line, bounded",
  "One or two broken lines appear in fixtures.",
  ["src/sct.rs","src/pest/sct.pest"],[("broken rule","src/pest/sct.pest"),("parse_fix/parse_ndb","src/sct.rs")],["sct::Sct::parse"])
p("S04","Line groups contain exactly the segments of the file",
  "For SID, STAR, ARTCC and GEO entries (and TopSky LINE elements) the drawn segments, with their colours, are exactly those of the file in order: consecutive lines are joined only when the colour is the same and one starts where the previous ended, and no segment is added, lost or recoloured (segments of no length aside).",
  ["inputs"],"every sequence of up to three lines over arbitrary endpoints and colours",
  "The tests hold a few fixed polylines; joins depend on equality patterns between endpoints and colours.",
  ["src/sct.rs","src/topsky/map/mod.rs"],[("parse_line_groups","src/sct.rs"),("MapLine::parse","src/topsky/map/mod.rs")],["sct::Sct::parse"])
p("S05","Colour definitions are found wherever they stand and the last one wins",
  "A #define with a valid colour number is recorded under its name no matter between which entries or sections of the sector file it stands, the last definition of a name wins, an invalid number leaves the rest of the file readable, and definitions never change the other entries.",
  ["inputs"],"every position among the sections, every number, bounded names",
  "Fixed defines in the samples.",
  ["src/sct.rs","src/pest/sct.pest"],[("store_colour","src/sct.rs")],["sct::Sct::parse().colours"])

# ---- E: ese -------------------------------------------------------------
p("E01","Controller positions are read field by field",
  "Each POSITIONS line yields one position whose name, callsign, frequency, identifier, middle letter, prefix, suffix, squawk range and visibility points are the corresponding fields; a position whose squawk range is empty or left out keeps all its visibility points and no field moves into another.",
  ["inputs"],"every position line, bounded field lengths, with and without squawk range and visibility points",
  "A few fixed positions.",
  ["src/ese.rs","src/pest/ese.pest"],[("parse_position","src/ese.rs")],["ese::Ese::parse().positions"])
p("E02","SIDs and STARs are read field by field",
  "Each SID or STAR line yields exactly one procedure of the right kind with its airport, runway, name and route in order.",
  ["inputs"],"every SID/STAR line, bounded field lengths and route lengths",
  "A few fixed procedures.",
  ["src/ese.rs","src/pest/ese.pest"],[("parse_sid_star","src/ese.rs")],["ese::Ese::parse().sids_stars"])
p("E03","Airspace sectors keep owners, borders, levels and runway filters",
  "Each SECTOR yields exactly one sector with its name, lower and upper level, owner priority, those of its border lines that the file defines (with all their points), departure/arrival airports and active-runway conditions in file order, whichever optional lines are present and wherever in the section the border lines stand.",
  ["inputs"],"every combination of optional lines, bounded names and levels",
  "Fixed sectors in one sample.",
  ["src/ese.rs","src/pest/ese.pest"],[("parse_sector, parse_sectorline","src/ese.rs")],["ese::Ese::parse()"])
p("E04","Coordination agreements are read field by field, wildcards as absent",
  "Each COPX or FIR_COPX line yields exactly one agreement with the right kind, where a field holding the wildcard * is absent and every other field is present with exactly the text or level given.",
  ["inputs"],"every combination of wildcards and values, bounded field lengths",
  "A few fixed agreements.",
  ["src/ese.rs","src/pest/ese.pest"],[("cop rules","src/ese.rs, src/pest/ese.pest")],["ese::Ese::parse().constraints"])

# ---- K: colours -----------------------------------------------------------
p("K01","Colour numbers, RGB triples and hexadecimal texts correspond one to one",
  "A EuroScope colour number in 0..=0xFFFFFF maps to red = low byte, green = middle byte, blue = high byte and back to the same number; every other number is refused. A colour serialises to #rrggbb with two hexadecimal digits per channel, reading that text gives the same colour, and text that is not a hexadecimal colour is refused with an error.",
  ["inputs"],"all 32-bit signed numbers, all RGB triples and all short texts",
  "A few values are tested.",
  ["src/adaptation/colours.rs"],[("Colour::from_euroscope / to_euroscope","src/adaptation/colours.rs")],["adaptation::colours::Colour"])

# ---- A: adaptation ----------------------------------------------------------
p("A01","Equal fixes hash alike and equality is an equivalence",
  "Fixes compare equal exactly when designator and coordinate (quantised to the documented resolution) agree; equality is reflexive, symmetric and transitive and equal fixes always hash equally, including for negative zero.",
  ["inputs"],"all pairs and triples of fixes with coordinates on a bounded grid around the quantisation boundaries",
  "Hand-picked fixes only.",
  ["src/adaptation/locations/mod.rs"],[("impl PartialEq/Hash for Fix, Quantize","src/adaptation/locations/mod.rs")],["adaptation::locations::{Fix,NDB,VOR,Quantize}"])
p("A02","A designator resolves by documented precedence, to a known element",
  "Resolving a designator gives the VOR of that name if any, else the NDB, else the fix, else the airport, else the runway, else a coordinate or fix/bearing/distance literal; a designator is reported as contained exactly when it resolves to a named element, and a literal never shadows a named element.",
  ["inputs","configurations"],"every subset of the location tables containing the designator; every designator string up to the bound",
  "A few designators on one data set.",
  ["src/adaptation/locations/mod.rs"],[("Locations::convert_designator, contains_designator, convert_location","src/adaptation/locations/mod.rs")],["adaptation::locations::Locations"])
p("A03","Expanding an airway segment follows the airway",
  "Expanding an airway between two fixes gives a path along segments of that airway, in a permitted direction, starting after the first fix and ending at the second; it is given exactly when such a path exists and expansion always terminates, cycles included.",
  ["inputs","histories"],"all airway graphs up to the bound and all pairs of fixes",
  "One real airway file and a few segments.",
  ["src/adaptation/locations/airways.rs"],[("AirwayGraph::expand_airway_segment","src/adaptation/locations/airways.rs")],["adaptation::locations::airways::AirwayGraph"])
p("A04","Airway files import every segment with levels and direction",
  "Each line of an airway file contributes the segments to its previous and next fix with the minimum level and the direction the file states; data for a segment named from both of its ends are combined so that neither end's information is lost.",
  ["inputs","histories"],"all airway files up to the bound",
  "One fixture.",
  ["src/airway.rs","src/adaptation/locations/airways.rs"],[("parse_airway_txt, insert_or_update_segment","src/airway.rs, src/adaptation/locations/airways.rs")],["airway::parse_airway_txt"])
p("A05","A sector polygon uses each border line once, joined end to end",
  "The ring of a sector volume consists of the points of its border lines, each used exactly once and reversed as needed so that consecutive lines share an endpoint; borders that do not close into one ring are rejected rather than silently completed.",
  ["inputs"],"all sets of up to three border lines over a bounded point set, in all orders and directions",
  "One real fixture.",
  ["src/adaptation/sectors.rs"],[("polygon construction","src/adaptation/sectors.rs")],["adaptation::sectors::Sectors::from_ese"])
p("A06","Sector volumes are grouped by owner list and runway filter, deterministically",
  "Volumes belong to the same sector exactly when owner priority and runway filter agree, every valid volume belongs to exactly one sector, and the result, identifiers included, does not depend on hash-table iteration order.",
  ["inputs","schedules"],"all small sets of sectors; both iteration orders of every hash table",
  "Tests run with one random iteration order and do not compare runs.",
  ["src/adaptation/sectors.rs"],[("Sectors::from_ese","src/adaptation/sectors.rs")],["adaptation::sectors::Sectors::from_ese"])
p("A07","Finding the sector at a point and level agrees with the definition",
  "The sector found is one whose volume contains the point laterally and lower <= level < upper vertically; if several do, the choice is the documented deterministic one, and nothing is found only when no such volume exists.",
  ["inputs","configurations"],"all sets of up to three box volumes and all query points and levels within the bound",
  "Two fixed queries.",
  ["src/adaptation/sector_index.rs","src/adaptation/mod.rs"],[("SectorVolumeIndex::find_sector / volumes_at","src/adaptation/sector_index.rs")],["adaptation::sector_index::SectorVolumeIndex"])
p("A08","Agreements become departure, enroute or arrival constraints, none lost",
  "Every agreement with a level becomes exactly one constraint, a departure constraint exactly when it carries a climb level, with the same fields; only agreements without any level are dropped, and two agreements that differ in any field they are matched by never overwrite each other.",
  ["inputs"],"every combination of present/absent fields of two agreements",
  "A few fixed agreements.",
  ["src/adaptation/constraints.rs","src/adaptation/mod.rs"],[("extract_constraints, Constraint::key","src/adaptation/mod.rs, constraints.rs")],["adaptation::Adaptation::from_prf"])
p("A09","Coordination timings resolve per field: constraint, then FIR, then global",
  "For each coordination timing independently, the value in effect is the constraint's if set, otherwise the FIR's if set, otherwise the global default; setting one field never affects another.",
  ["configurations"],"every combination of set/unset fields and every value",
  "A few combinations.",
  ["src/adaptation/settings/mod.rs"],[("CoordinationSettings::resolve","src/adaptation/settings/mod.rs")],["adaptation::settings::CoordinationSettings::resolve"])
p("A10","Squawk ranges are octal and inclusive",
  "Special-use squawk definitions name a code of four octal digits 0000-7777, kept as it is written, or a range, which covers exactly the codes from its start to its end in octal order; a reversed range covers none, a definition with an invalid code or with both or neither of code and range is skipped without effect on the others, and the last definition of a code wins.",
  ["inputs"],"every code text and every pair of codes",
  "A few codes.",
  ["src/adaptation/settings/mod.rs","src/squawks.rs"],[("SsrSettings::from_squawks_json","src/adaptation/settings/mod.rs")],["adaptation::settings::SsrSettings"])
p("A11","Map elements are drawn with the settings in effect where they are declared",
  "Every element of a TopSky map appears in exactly one group, in order, under the colour, line style, width, font and zoom that were in effect at its declaration; later changes never affect earlier elements.",
  ["histories","inputs"],"every sequence of up to four declarations (settings and elements)",
  "A few fixed maps.",
  ["src/adaptation/maps/mod.rs"],[("Map::from_topsky, config_change","src/adaptation/maps/mod.rs")],["adaptation::maps::from_topsky"])
p("A12","Sector-file drawings become display items without loss",
  "Every SID, STAR, ARTCC, GEO, region, label and airway of a sector file becomes a display item of its own kind with its geometry, its colour if defined and the default colour of its own kind otherwise.",
  ["inputs","configurations"],"every kind of drawing with resolvable and unresolvable locations and colours",
  "Not covered by tests at all.",
  ["src/adaptation/sct_items.rs"],[("SctItems::from_sct","src/adaptation/sct_items.rs")],["adaptation::sct_items::SctItems::from_sct"])
p("A13","Configured colours come from the setting of the same name",
  "Each display colour is taken from the configuration entry documented for it and from no other; a missing entry leaves the documented default.",
  ["configurations"],"every symbology entry present or absent with any colour",
  "A few entries.",
  ["src/adaptation/colours.rs"],[("Colours::from_euroscope","src/adaptation/colours.rs")],["adaptation::colours::Colours::from_euroscope"])
p("A14","Symbols come from TopSky, else symbology, else the built-in default of their kind",
  "For every symbol kind the drawing instructions are the TopSky definition of that name if present, else the symbology one, else the built-in default of that very kind, and drawing instructions are transcribed one by one.",
  ["configurations","inputs"],"every presence combination and instruction",
  "A few symbols.",
  ["src/adaptation/symbols.rs"],[("Symbols::from_euroscope","src/adaptation/symbols.rs")],["adaptation::symbols::Symbols::from_euroscope"])

# ---- K/R/Y/T/I/N/X ----------------------------------------------------------
p("R01","Display settings (.asr) are read key by key",
  "Each .asr key sets exactly its own field, with documented defaults for absent keys; limits given as 0 mean no limit; the first of a repeated key counts, the last of a repeated plug-in setting, and free-text lines are kept in order.",
  ["inputs","configurations"],"every subset of keys and values within the bound",
  "One fixture.",
  ["src/asr.rs"],[("Asr::parse","src/asr.rs")],["asr::Asr::parse"])
p("Y01","Symbology entries are keyed by kind and name and keep their attributes",
  "Each colour, line and symbol entry of a symbology file is found under its own kind and name with its colour, size, line weight, style and alignment, and symbol drawing commands are kept in order.",
  ["inputs"],"every entry line within the bound",
  "One fixture.",
  ["src/symbology.rs"],[("Symbology::parse","src/symbology.rs")],["symbology::Symbology::parse"])
p("F01","Profile paths resolve relative to the profile",
  "A path setting that starts with a separator is resolved against the profile's directory, any other path as given; backslashes count as separators, and the setting found is the one asked for.",
  ["inputs"],"every path text within the bound",
  "One fixture.",
  ["src/prf.rs"],[("Prf::resolve_path","src/prf.rs")],["prf::Prf"])
p("T01","TopSky map elements keep kind, order and operands",
  "Each line of a TopSky map yields exactly one element of its kind with its operands in place; maps are found under their folder and name, and maps sharing a name are all kept.",
  ["inputs"],"every map line within the bound",
  "Fixed samples per element kind.",
  ["src/topsky/map/mod.rs","src/topsky/mod.rs","src/pest/topsky.pest"],[("MapRule::parse","src/topsky/map/mod.rs")],["topsky::Topsky::parse"])
p("T02","TopSky activation conditions are read field by field",
  "Each ACTIVE line yields the activation it states: schedule dates, times and weekdays, runway and area lists, identifiers and wildcards go to their own fields.",
  ["inputs"],"every activation line within the bound",
  "Fixed samples.",
  ["src/topsky/map/active.rs"],[("Active::parse","src/topsky/map/active.rs")],["topsky::Topsky::parse"])
p("I01","ICAO lists: first definition wins, every line decoded",
  "For aircraft, airline and airport lists each well-formed line yields the entry under its code with its fields decoded, the first definition of a code wins and malformed lines are skipped without effect on others.",
  ["inputs"],"every line content within the bound",
  "One fixture each.",
  ["src/icao_aircraft.rs","src/icao_airlines.rs","src/icao_airports.rs","src/adaptation/icao.rs"],[("parse_aircraft/airlines/airports","src/icao_*.rs")],["icao_*::parse_*"])
p("N01","Files are decoded as UTF-8 or else Windows-1252, without loss of bytes",
  "A file without byte order mark that is valid UTF-8 is read as such and any other file is read as Windows-1252, so that every byte string decodes, ASCII characters are always preserved and no character is dropped.",
  ["inputs"],"every byte string within the bound",
  "One fixture.",
  ["src/lib.rs"],[("read_to_string","src/lib.rs")],["every parse function"])
p("X01","Isec data is written back losslessly",
  "Every fix of an isec file is kept under its designator with its coordinate, in file order, repeated designators included, and the text the map is rendered to parses to the same map.",
  ["inputs"],"every isec file within the bound",
  "One fixture.",
  ["src/isec.rs"],[("parse_isec_txt, Display for IsecMap","src/isec.rs")],["isec::parse_isec_txt"])
p("J01","Overlays change only what they name",
  "Applying a configuration overlay changes exactly the parts of the adaptation the overlay mentions; an empty overlay is the identity.",
  ["configurations"],"every overlay",
  "A few overlays.",
  ["src/adaptation/mod.rs"],[("Adaptation::apply_jsonnet_overlays","src/adaptation/mod.rs")],["adaptation::Adaptation::apply_jsonnet_overlays"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
