//! K01: EuroScope colour numbers <-> RGB
use crate::{check, cover, vp::*};
use vatsim_parser::adaptation::colours::Colour;
crate::harnesses! {
    fn h_k01_number() {
        let n = i32s();
        match Colour::from_euroscope(n) {
            Ok(c) => {
                cover!("accepted");
                check!(n >= 0 && n <= 0xFF_FFFF, "only 0..=0xFFFFFF is accepted");
                check!(c.r as i32 == n & 255 && c.g as i32 == (n >> 8) & 255 && c.b as i32 == (n >> 16) & 255, "red, green and blue are the low, middle and high byte");
                check!(c.to_euroscope() == n, "the colour maps back to its number");
            }
            Err(_) => { cover!("refused"); check!(n < 0 || n > 0xFF_FFFF, "every number in 0..=0xFFFFFF is accepted"); }
        }
    }
    fn h_k01_rgb() {
        let (r, g, b) = (byte(), byte(), byte());
        let c = Colour::from_rgb(r, g, b);
        let n = c.to_euroscope();
        check!(n == (r as i32) | (g as i32) << 8 | (b as i32) << 16, "the number has red in the low, green in the middle and blue in the high byte");
        match Colour::from_euroscope(n) { Ok(d) => { cover!("back"); check!(c == d, "the number maps back to the colour") } Err(_) => check!(false, "the number of a colour is accepted") }
    }
    // hexadecimal text form
    fn h_k01_write() { let c = Colour::from_rgb(byte(), byte(), byte()); let t = serde_json::to_string(&c); match t { Err(_) => { check!(false, "a colour can be written"); } Ok(t) => { cover!("written"); check!(t.len() == 9 && t.as_bytes()[0] == b'"' && t.as_bytes()[1] == b'#' && t.as_bytes()[8] == b'"', "a colour is written as #rrggbb");
        if t.len() == 9 { for (i, v) in [c.r, c.g, c.b].iter().enumerate() { let h = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 }; check!(t.as_bytes()[2 + 2 * i] == h(v >> 4) && t.as_bytes()[3 + 2 * i] == h(v & 15), "red, green and blue are two hexadecimal digits each, in this order"); } } keep(t); } } }
    fn h_k01_read() { let k = pick(3); let b = if pick(2) == 0 { [hex(true), hex(true)] } else { [hex(false), hex(false)] }; let mut x = *b"\"#9e9e9e\""; x[2 + 2 * k] = b[0]; x[3 + 2 * k] = b[1]; note(&x); match serde_json::from_slice::<Colour>(&x) { Err(_) => { check!(false, "six hexadecimal digits in any case are read"); } Ok(c) => { cover!("read"); let v = dig(b[0]) << 4 | dig(b[1]); check!(c == Colour::from_rgb(if k == 0 { v } else { 0x9e }, if k == 1 { v } else { 0x9e }, if k == 2 { v } else { 0x9e }), "the text gives the colour back"); } } }
    fn h_k01_refused() { let mut t = String::from(["\"#12345\"", "\"#1234567\"", "\"123456\"", "\"\"", "\"#\"", "\" #123456\"", "\"#123456 \"", "12", "\"#123456#123456\"", "null"][pick(10)]); note(t.as_bytes()); let r = serde_json::from_str::<Colour>(&t); cover!("refused text"); check!(r.is_err(), "text that is not # and six hexadecimal digits is refused"); t.clear(); keep(r); }
    fn h_k01_bad_digit() { let b = byte_in(b' ', b'~'); assume(b != b'"' && b != b'\\'); let ok = (b >= b'0' && b <= b'9') || (b | 32 >= b'a' && b | 32 <= b'f'); let i = 2 + pick(6); let mut x = *b"\"#012345\""; x[i] = b; note(&x); let r = serde_json::from_slice::<Colour>(&x); cover!("digit"); check!(r.is_ok() == ok, "a text with anything but hexadecimal digits is refused"); keep(r); }
}
fn hex(up: bool) -> u8 { if pick(2) == 0 { byte_in(b'0', b'9') } else if up { byte_in(b'A', b'F') } else { byte_in(b'a', b'f') } }
fn dig(b: u8) -> u8 { if b <= b'9' { b - b'0' } else { (b | 32) - b'a' + 10 } }
