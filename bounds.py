BOUNDS = {
 'C01': dict(bounds='degree, minute and second fields of every digit value (up to 3+2+2 digits and 3 decimals), every hemisphere letter, at every sct, ese and topsky coordinate position', outside='longer digit strings (see P01-P05)'),
 'C02': dict(bounds='every degree 0..1023 with every 32-bit binary fraction, both signs, on each axis; every value up to 2^-16 ms below 1, 60, 3540 and 3600 seconds', outside='finer binary fractions, |degrees| above 1023'),
 'C03': dict(bounds='every DDD.MM.SS.mmm text with MM, SS < 60 and all hemisphere letters, on either axis (thorough: both at once); short and lower-case forms', outside='texts with minutes or seconds of 60 and more'),
 'S02': dict(bounds='every value of the names (3-5 letters or digits), frequencies (5 digits), headings (3 digits), coordinates (two degree digits per axis) and label texts (4 printable characters) of one entry per section, with entries before and after it; each optional part present or absent; both sides of every alternative', outside='longer tokens, several optional parts repeated'),
 'P01': dict(bounds='every single-byte replacement by any of 256 values, deletion and insertion in well-formed samples of every construct (thorough: any two adjacent bytes replaced); number runs of 1..8 digits (degrees), 1..6 (minutes), 1..12 (seconds, scales), 1..5 and 9..11 around the 32-bit limits (headings, colours) with any sign; two or three ASCII bytes of any value at the start of the file, after every section header, as a whole line of every section and between, before and after the tokens of every kind of line; non-UTF-8 byte triples', outside='longer arbitrary stretches; resource exhaustion (stack depth, memory)'),
 'S01': dict(bounds='one entry of every section with symbolic names (2-4 bytes), frequencies, headings and colours, coordinates from a set with carries, both hemispheres and milliseconds; up to three drawn lines with every combination of four end points and three colours in each of the six drawing sections; files with and without INFO', outside='more entries or lines; coordinates are written digit-exactly for every value by C02 and C03'),
 'S03': dict(bounds='every broken line of up to three printable bytes alone, before a coordinate or after it (thorough: four), a good line truncated anywhere or with one wrong byte inside the coordinate, in FIXES and NDB, in the middle, first and last', outside='lines starting with [ or #, longer lines'),
 'S04': dict(bounds='two lines with every coincidence of their four end points and every colour, three lines over three symbolic points in four connection patterns, mixes of fixes and coordinates, comments after any line, file ending after a line; all six drawing sections', outside='more than three lines per drawing, names other than those used (S01)'),
 'S05': dict(bounds='every number of up to eight digits, names with one symbolic byte, in each of 15 sections at four places, next to INFO, and three repeated definitions with all name coincidences', outside='longer names'),
 'P02': dict(bounds='every single-byte replacement by any of 256 values, deletion and insertion in well-formed samples of every construct (thorough: any two adjacent bytes replaced); numbers of 1..5 digits and of 9-11 digits around the 32-bit limits (single-precision decimals up to 6 digits, others up to 12) with any sign in every numeric position; two or three ASCII bytes of any value at the start of the file, after section headers, as a whole line of every section and at every token boundary of every kind of line; non-UTF-8 byte triples', outside='longer arbitrary stretches; resource exhaustion (stack depth, memory)'),
 'P03': dict(bounds='every single-byte replacement by any of 256 values, deletion and insertion in well-formed samples of every construct (thorough: any two adjacent bytes replaced); numbers of 1..5 digits and of 9-11 digits around the 32-bit limits (single-precision decimals up to 6 digits, others up to 12) with any sign in every numeric position of .asr and symbology files; two or three ASCII bytes of any value at the start and at every token boundary of every kind of line; profile paths asked for with settings present or missing; non-UTF-8 byte pairs', outside='longer arbitrary stretches; resource exhaustion'),
 'P04': dict(bounds='every single-byte replacement by any of 256 values, deletion and insertion in well-formed samples of every construct (thorough: any two adjacent bytes replaced); numbers of 1..5 digits and of 9-11 digits around the 32-bit limits (single-precision decimals up to 6 digits, others up to 12) with any sign in every numeric position of the three files; two or three ASCII bytes of any value at the start, as a line and at every token boundary of every kind of line', outside='longer arbitrary stretches; resource exhaustion'),
 'E01': dict(bounds='every text of 1-3 printable bytes in every field, 6 frequency digits, squawk digits, 0..4 visibility points, range present, empty or left out, before or after another position', outside='longer fields; field texts containing ; * [ or starting with a blank'),
 'E02': dict(bounds='every SID/STAR with names of 1-3 printable bytes, routes of 0..3 points, among other lines', outside='longer names and routes'),
 'E03': dict(bounds='every combination and order of the optional lines, owner and airport lists of up to 3 names with symbolic bytes, up to 3 border lines of up to 3 points declared before or after, levels of 1..5 digits', outside='longer lists and names'),
 'E04': dict(bounds='every combination of wildcards, field texts of 1-3 printable bytes, levels of 1..5 digits, both kinds, two agreements in either order', outside='longer texts; a field that starts with * followed by more text'),
 'P05': dict(bounds='every single-byte replacement by any of 256 values, deletion and insertion in well-formed samples of every construct (thorough: any two adjacent bytes replaced); number runs of 1..5 digits and of 9-11 digits around the 32-bit limits, decimals of up to 12 digits; two or three ASCII bytes of any value at the start and at every token boundary of the lines of the seven formats; two colour bytes of any value; non-UTF-8 byte pairs', outside='longer arbitrary stretches; a squawk file consisting of a fractional number; resource exhaustion'),
 'K01': dict(bounds='all 2^32 signed colour numbers, all 2^24 RGB triples in both directions, every pair of hexadecimal digits of either case in each channel, any byte in any digit position, malformed texts of ten shapes', outside='texts with several bytes of arbitrary value'),
 'R01': dict(bounds='every key with one or two settings of it, values of printable bytes up to 3 or numbers of 1..5 digits, flags of both values, every pair of adjacent keys, two plugin or free-text lines', outside='longer values and files'),
 'F01': dict(bounds='every path text of up to 4 bytes over separators and name bytes, every path setting', outside='longer paths'),
 'I01': dict(bounds='one to three lines with names and codes of symbolic bytes of 1..4, repeated codes, malformed lines between well-formed ones', outside='longer lists'),
 'N01': dict(bounds='two bytes of any value in every file format; in .asr files three bytes with lead byte 0xDF..0xF0 and four with lead byte 0xEF..0xF5 (thorough: any three bytes; any four with high bits)', outside='files that start with a byte order mark; longer non-ASCII stretches'),
 'X01': dict(bounds='one to three lines with designators of up to 3 symbolic bytes, repeated or not, coordinates of fixed and of up to 6 symbolic digits', outside='longer files'),
 'A09': dict(bounds='every combination of set and unset fields on all three levels with all 16-bit numbers of seconds', outside='none within the property'),
 'A10': dict(bounds='every single code of four octal digits, every reversed pair, ranges of up to four codes whose last two digits are symbolic over four leading pairs and their carries, three long ranges up to 0000-3777, an invalid byte in any of three positions, one overlap', outside='longer ranges; several overlapping ranges'),
}
