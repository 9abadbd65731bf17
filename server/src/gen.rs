//! Generators of segments, paths and identifiers.

use crate::model::*;
use vkit::Tape;

pub fn int(t: &mut Tape) -> String {
    match t.weighted(&[6, 3, 3, 2]) {
        0 => t.small(0, 100_000).to_string(),
        1 => t.pick(&["0", "1", "4294967295", "4294967296", "65535", "65536", "2147483647", "2147483648", "4294967294", "9999999999", "18446744073709551616", "18446744073709551615", "99999999999999999999999"]).to_string(),
        2 => {
            let s = t.small(0, 5000).to_string();
            let pre = *t.pick(&["+", "-", "0", "00", " ", "0x", "++", "+-", "\u{663}"]);
            format!("{pre}{s}")
        }
        _ => t.below(1 << 33).to_string(),
    }
}
pub fn dec(t: &mut Tape) -> String {
    match t.weighted(&[5, 4, 3, 3, 2]) {
        0 => t.small(0, 400).to_string(),
        1 => {
            let a = t.small(0, 400);
            let n = t.us(1, 9);
            let f: String = (0..n).map(|_| (b'0' + t.below(10) as u8) as char).collect();
            format!("{a}.{f}")
        }
        2 => t
            .pick(&[
                "0", "0.0", "100", "360", "100.0", "360.0", "100.00001", "360.00001", "100.0000000001", "360.0000000001", "99.99999", "359.99999", "16777217", "0.1", "0.3333333333333333333333",
                "340282350000000000000000000000000000000", "340282360000000000000000000000000000000", "0.00000000000000000000000000000000000000000000000000001", "0.000000000000000000000000000000000000000000001",
                "1000000000000000000000000000000000000000000000000000000",
            ])
            .to_string(),
        3 => t
            .pick(&[
                "inf", "infinity", "-inf", "nan", "NaN", "INF", "Infinity", "+inf", "-NaN", "1e2", "1E2", "1e-2", "1e400", "1e-400", "-1e400", "1e+2", "-0", "-0.0", "+1", ".5", "5.", ".", "", "-", "+", "e5", "1e", "0x10", "1_000",
                "1,5", "1.2.3", "--1", "+-1", "00", "007", "1f", "１", "0x1p3", "1e99999999999999999999", "-1", "-5.5", "-0.0001", "361", "360.1", "100.1", "101",
            ])
            .to_string(),
        _ => {
            let s = t.small(0, 5000).to_string();
            let pre = *t.pick(&["+", "-", "0", " ", "\t", "0x", "."]);
            format!("{pre}{s}")
        }
    }
}
const ALPHA: &[&str] = &[
    ",", "^", "!", "pct:", "0", "1", "9", "-", "+", ".", " ", "max", "full", "square", "e", "inf", "nan", "%2C", "%", ":", "é", "\u{0}", "\u{1F600}", "\u{200B}", "x", "PCT:", "pct", "default", "jpg", "\u{ff11}", "\n", "a", "F",
];
pub fn mutate(t: &mut Tape, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..t.us(1, 3) {
        let at = t.below(c.len() as u64 + 1) as usize;
        match t.below(5) {
            0 => {
                let a = t.pick(ALPHA).to_string();
                for (k, ch) in a.chars().enumerate() {
                    c.insert(at + k, ch);
                }
            }
            1 => {
                if at < c.len() {
                    c.remove(at);
                }
            }
            2 => {
                if at < c.len() {
                    let a = t.pick(ALPHA).chars().next().unwrap();
                    c[at] = a;
                }
            }
            3 => {
                if at < c.len() {
                    let ch = c[at];
                    c[at] = if ch.is_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() };
                }
            }
            _ => {
                let b = t.below(c.len() as u64 + 1) as usize;
                let (a, b) = (at.min(b), at.max(b));
                let part: Vec<char> = c[a..b].to_vec();
                for (k, ch) in part.into_iter().enumerate() {
                    c.insert(a + k, ch);
                }
            }
        }
        if c.len() > 200 {
            c.truncate(200);
        }
    }
    c.into_iter().filter(|c| *c != '/').collect()
}
pub fn noise(t: &mut Tape) -> String {
    let n = t.us(0, 6);
    (0..n).map(|_| t.pick(ALPHA).to_string()).collect()
}
pub fn region(t: &mut Tape) -> String {
    let s = match t.weighted(&[2, 1, 8, 8]) {
        0 => "full".to_string(),
        1 => "square".to_string(),
        k => {
            let n = match t.weighted(&[12, 1, 1]) {
                0 => 4,
                1 => t.us(0, 3),
                _ => t.us(5, 7),
            };
            let v: Vec<String> = (0..n).map(|_| if k == 2 { int(t) } else { dec(t) }).collect();
            format!("{}{}", if k == 3 { "pct:" } else { "" }, v.join(","))
        }
    };
    spoil(t, s)
}
fn spoil(t: &mut Tape, s: String) -> String {
    match t.weighted(&[10, 4, 1]) {
        0 => s,
        1 => mutate(t, &s),
        _ => noise(t),
    }
}
pub fn size(t: &mut Tape) -> String {
    let up = if t.chance(1, 3) { "^" } else { "" };
    let s = match t.weighted(&[2, 5, 4, 4, 6, 4]) {
        0 => "max".to_string(),
        1 => format!("pct:{}", dec(t)),
        2 => format!("{},", int(t)),
        3 => format!(",{}", int(t)),
        4 => format!("{},{}", int(t), int(t)),
        _ => format!("!{},{}", int(t), int(t)),
    };
    spoil(t, format!("{up}{s}"))
}
pub fn rotation(t: &mut Tape) -> String {
    let s = format!("{}{}", if t.chance(1, 3) { "!" } else { "" }, dec(t));
    spoil(t, s)
}
pub fn last(t: &mut Tape) -> String {
    let q = word(t, &QUALITIES, &["colour", "native", "grey", "Default", "DEFAULT", "default ", "", "bitonal1", "colo", "gray.", "defaultd"]);
    let fs: Vec<&str> = FORMATS.iter().map(|f| f.0).collect();
    let f = word(t, &fs, &["jpeg", "tiff", "JPG", "Png", "", "jp2k", "web", "webp ", "jpg.png", "pn", "jpx", "svg", "gif\u{0}"]);
    match t.weighted(&[12, 1, 2]) {
        0 => format!("{q}.{f}"),
        1 => format!("{q}{f}"),
        _ => {
            let s = format!("{q}.{f}");
            mutate(t, &s)
        }
    }
}
fn word(t: &mut Tape, good: &[&str], bad: &[&str]) -> String {
    match t.weighted(&[6, 3, 1]) {
        0 => t.pick(good).to_string(),
        1 => t.pick(bad).to_string(),
        _ => {
            let g = *t.pick(good);
            mutate(t, g)
        }
    }
}
/// a canonical, valid region/size/… text with its value
pub fn good_region(t: &mut Tape) -> String {
    match t.below(4) {
        0 => "full".into(),
        1 => "square".into(),
        2 => format!("{},{},{},{}", gi(t, 0), gi(t, 0), gi(t, 1), gi(t, 1)),
        _ => format!("pct:{},{},{},{}", gd(t, 400), gd(t, 400), gd(t, 400), gd(t, 400)),
    }
}
pub fn gi(t: &mut Tape, lo: u32) -> u32 {
    t.small(lo as i64, u32::MAX as i64) as u32
}
/// positive decimal at most max
pub fn gd(t: &mut Tape, max: i64) -> String {
    let a = t.small(0, max - 1);
    if a > 0 && t.bool() {
        return a.to_string();
    }
    let n = t.us(1, 6);
    let f: String = (0..n).map(|_| (b'1' + t.below(9) as u8) as char).collect();
    format!("{a}.{f}")
}
pub fn good_size(t: &mut Tape) -> String {
    let up = t.bool();
    let u = if up { "^" } else { "" };
    match t.below(6) {
        0 => format!("{u}max"),
        1 => format!("{u}pct:{}", gd(t, if up { 3000 } else { 100 })),
        2 => format!("{u}{},", gi(t, 1)),
        3 => format!("{u},{}", gi(t, 1)),
        4 => format!("{u}{},{}", gi(t, 1), gi(t, 1)),
        _ => format!("{u}!{},{}", gi(t, 1), gi(t, 1)),
    }
}
pub fn good_rotation(t: &mut Tape) -> String {
    let m = if t.bool() { "!" } else { "" };
    match t.below(3) {
        0 => format!("{m}0"),
        1 => format!("{m}360"),
        _ => format!("{m}{}", gd(t, 360)),
    }
}
pub fn good_last(t: &mut Tape) -> String {
    format!("{}.{}", t.pick(&QUALITIES), t.pick(&FORMATS).0)
}
pub fn good_tail(t: &mut Tape) -> String {
    format!("{}/{}/{}/{}", good_region(t), good_size(t), good_rotation(t), good_last(t))
}
/// percent-encode: reserved bytes always, others with probability 1/8 (upper or lower case hex)
pub fn escape(t: &mut Tape, s: &[u8]) -> String {
    let all = t.chance(1, 6);
    let mut o = String::new();
    for &b in s {
        let unres = b.is_ascii_alphanumeric() || b"-._~".contains(&b);
        if unres && !all && !t.chance(1, 12) {
            o.push(b as char);
        } else if t.bool() {
            o += &format!("%{b:02x}");
        } else {
            o += &format!("%{b:02X}");
        }
    }
    o
}
pub fn ident(t: &mut Tape) -> String {
    match t.weighted(&[4, 4, 3]) {
        0 => {
            let n = t.us(1, 12);
            (0..n).map(|_| *t.pick(&['a', 'b', 'Z', '0', '9', '-', '_', '.'])).collect()
        }
        1 => {
            let n = t.us(1, 12);
            (0..n).map(|_| *t.pick(&['a', ' ', '/', '%', '?', '#', '[', ']', '@', 'é', '\u{1F600}', '+', '&', '=', '\\', '"', '\'', '2', 'F', '\n', ';', ':', '\u{7f}', '漢'])).collect()
        }
        _ => t.pick(&["info.json", "a%2Fb", "%41", "%2541", "a+b", "..", ".", "max", "full", "%", "%%", "100%", "a b", "日本語.tif"]).to_string(),
    }
}
/// arbitrary identifier segment as it may stand in a path
pub fn raw_ident(t: &mut Tape) -> String {
    match t.weighted(&[5, 3, 2]) {
        0 => {
            let s = ident(t);
            escape(t, s.as_bytes())
        }
        1 => {
            // any bytes, mostly not UTF-8
            let n = t.us(0, 8);
            let b: Vec<u8> = (0..n).map(|_| *t.pick(&[0x61u8, 0x80, 0xc3, 0xa9, 0xff, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0xa0, 0x00, 0x25, 0xc0, 0xaf])).collect();
            escape(t, &b)
        }
        _ => {
            let n = t.us(0, 6);
            (0..n).map(|_| *t.pick(&["%", "%2", "%zz", "%4", "a", "%61", "%C3", "%A9", "é", "%%", "%25", "%2e", "+"])).collect()
        }
    }
}
