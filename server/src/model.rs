//! Reference reading of IIIF Image API 3.0 segments, written from the specification and the property texts.
//! A text either must be accepted with a value, must be rejected (naming one of some pieces), or may go
//! either way (alternative numeral spellings) but only with its usual value.

#[derive(Clone, Debug, PartialEq)]
pub enum Region {
    Full,
    Square,
    Px([u32; 4]),
    Pct([f32; 4]),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Scale {
    Max,
    Pct(f32),
    Fixed(Option<u32>, Option<u32>),
    Fit(u32, u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Size {
    pub up: bool,
    pub scale: Scale,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rotation {
    pub mirror: bool,
    pub deg: f32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub id: String,
    pub region: Region,
    pub size: Size,
    pub rotation: Rotation,
    pub quality: &'static str,
    pub format: &'static str,
    pub mime: String,
}

/// one acceptable description of what is wrong
#[derive(Clone, Debug, PartialEq)]
pub struct Wrong {
    pub element: &'static str,
    /// region selector concerned, or None (count)
    pub selector: Option<usize>,
    pub piece: String,
    pub missing: bool,
}
#[derive(Clone, Debug)]
pub struct Verdict<T> {
    /// the value it has if it is accepted; None: must be rejected
    pub value: Option<T>,
    /// acceptable complaints; empty: must be accepted
    pub wrong: Vec<Wrong>,
}
impl<T> Verdict<T> {
    pub fn must_accept(&self) -> bool {
        self.wrong.is_empty()
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Verdict<U> {
        Verdict { value: self.value.map(f), wrong: self.wrong }
    }
}

/// how a numeral reads
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num<T> {
    Plain(T),
    /// alternative spelling: either way
    Alt(T),
    Bad,
}
pub fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}
pub fn uint(s: &str) -> Num<u32> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if !digits(t) {
        return Num::Bad;
    }
    let sig = t.trim_start_matches('0');
    let v: u64 = if sig.is_empty() {
        0
    } else if sig.len() > 10 {
        return Num::Bad;
    } else {
        sig.bytes().fold(0u64, |a, b| a * 10 + (b - b'0') as u64)
    };
    if v > u32::MAX as u64 {
        return Num::Bad;
    }
    if t.len() != s.len() || (t.len() > 1 && t.starts_with('0')) {
        Num::Alt(v as u32)
    } else {
        Num::Plain(v as u32)
    }
}
/// decimal numeral: sign, digits, fraction, exponent; the value is what single precision holds of it
pub fn decimal(s: &str) -> Num<f32> {
    let (sign, t) = match s.as_bytes().first() {
        Some(b'+') | Some(b'-') => (true, &s[1..]),
        _ => (false, s),
    };
    let (mant, exp) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    if let Some(e) = exp {
        let e = e.strip_prefix(['+', '-']).unwrap_or(e);
        if !digits(e) {
            return Num::Bad;
        }
    }
    let (i, f) = match mant.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (mant, None),
    };
    let okd = |x: &str| x.bytes().all(|b| b.is_ascii_digit());
    if !okd(i) || !f.is_none_or(okd) || (i.is_empty() && f.is_none_or(|f| f.is_empty())) {
        return Num::Bad;
    }
    let v: f32 = match s.parse() {
        Ok(v) => v,
        Err(_) => return Num::Bad,
    };
    if !v.is_finite() {
        return Num::Bad; // not representable
    }
    let plain = !sign && exp.is_none() && !i.is_empty() && (i == "0" || !i.starts_with('0')) && f.is_none_or(|f| !f.is_empty());
    if plain {
        Num::Plain(v)
    } else {
        Num::Alt(v)
    }
}
fn w(element: &'static str, piece: &str) -> Wrong {
    Wrong { element, selector: None, piece: piece.to_string(), missing: false }
}
fn missing(element: &'static str) -> Wrong {
    Wrong { element, selector: None, piece: String::new(), missing: true }
}

pub fn region(s: &str) -> Verdict<Region> {
    match s {
        "full" => return Verdict { value: Some(Region::Full), wrong: vec![] },
        "square" => return Verdict { value: Some(Region::Square), wrong: vec![] },
        _ => {}
    }
    let (pct, body) = match s.strip_prefix("pct:") {
        Some(b) => (true, b),
        None => (false, s),
    };
    let parts: Vec<&str> = body.split(',').collect();
    let mut wrong = vec![];
    let mut dead = false;
    let mut px = [0u32; 4];
    let mut pc = [0f32; 4];
    for (i, p) in parts.iter().take(4).enumerate() {
        let bad = Wrong { element: "region", selector: Some(i), piece: p.to_string(), missing: false };
        // (must reject, may reject)
        let (must, may) = if pct {
            match decimal(p) {
                Num::Bad => (true, true),
                Num::Plain(v) => {
                    pc[i] = v;
                    // positive as written but zero in single precision: either way
                    let zero = p.bytes().all(|b| b == b'0' || b == b'.');
                    (zero, zero || v == 0.0)
                }
                Num::Alt(v) => {
                    pc[i] = v;
                    (v < 0.0 || (v == 0.0), true)
                }
            }
        } else {
            match uint(p) {
                Num::Bad => (true, true),
                Num::Plain(v) => {
                    px[i] = v;
                    (i >= 2 && v == 0, i >= 2 && v == 0)
                }
                Num::Alt(v) => {
                    px[i] = v;
                    (i >= 2 && v == 0, true)
                }
            }
        };
        if may && !dead {
            wrong.push(bad);
        }
        dead |= must;
    }
    if parts.len() != 4 {
        wrong.push(w("region", body));
        dead = true;
    }
    let value = if dead {
        None
    } else if pct {
        Some(Region::Pct(pc))
    } else {
        Some(Region::Px(px))
    };
    Verdict { value, wrong }
}

pub fn size(s: &str) -> Verdict<Size> {
    let (up, t) = match s.strip_prefix('^') {
        Some(t) => (true, t),
        None => (false, s),
    };
    if t == "max" {
        return Verdict { value: Some(Size { up, scale: Scale::Max }), wrong: vec![] };
    }
    if let Some(p) = t.strip_prefix("pct:") {
        let bad = vec![w("size", p)];
        let mk = |v: f32| Some(Size { up, scale: Scale::Pct(v) });
        return match decimal(p) {
            Num::Bad => Verdict { value: None, wrong: bad },
            Num::Plain(v) | Num::Alt(v) if v < 0.0 => Verdict { value: None, wrong: bad },
            Num::Plain(v) if v == 0.0 && p.bytes().any(|b| (b'1'..=b'9').contains(&b)) => Verdict { value: mk(v), wrong: bad },
            Num::Plain(v) | Num::Alt(v) if v == 0.0 || (v > 100.0 && !up) => Verdict { value: None, wrong: bad },
            // exactly 100 only after rounding to single precision: either way
            Num::Plain(v) if v == 100.0 && !up && above(p, "100") => Verdict { value: mk(v), wrong: bad },
            Num::Plain(v) => Verdict { value: mk(v), wrong: vec![] },
            Num::Alt(v) => Verdict { value: mk(v), wrong: bad },
        };
    }
    let (fit, t) = match t.strip_prefix('!') {
        Some(t) => (true, t),
        None => (false, t),
    };
    let Some((a, b)) = t.split_once(',') else {
        return Verdict { value: None, wrong: vec![w("size", t)] };
    };
    if a.is_empty() && b.is_empty() {
        return Verdict { value: None, wrong: vec![w("size", ","), w("size", "")] };
    }
    let mut wrong = vec![];
    let mut dead = false;
    let mut side = |p: &str| -> Option<u32> {
        if p.is_empty() && !fit {
            return None;
        }
        match uint(p) {
            Num::Plain(v) if v > 0 => Some(v),
            Num::Alt(v) if v > 0 => {
                wrong.push(w("size", p));
                Some(v)
            }
            _ => {
                wrong.push(w("size", p));
                dead = true;
                None
            }
        }
    };
    let (x, y) = (side(a), side(b));
    let value = if dead {
        None
    } else if fit {
        Some(Size { up, scale: Scale::Fit(x.unwrap(), y.unwrap()) })
    } else {
        Some(Size { up, scale: Scale::Fixed(x, y) })
    };
    Verdict { value, wrong }
}
/// is the plain decimal numeral a strictly above the integer b (as written)?
fn above(a: &str, b: &str) -> bool {
    let (i, f) = a.split_once('.').unwrap_or((a, ""));
    let i = i.trim_start_matches('0');
    i.len() > b.len() || (i.len() == b.len() && (i > b || (i == b && f.bytes().any(|c| c != b'0'))))
}

pub fn rotation(s: &str) -> Verdict<Rotation> {
    let (mirror, t) = match s.strip_prefix('!') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let bad = vec![w("rotation", t)];
    let mk = |deg| Some(Rotation { mirror, deg });
    match decimal(t) {
        Num::Bad => Verdict { value: None, wrong: bad },
        Num::Plain(v) | Num::Alt(v) if v < 0.0 || v > 360.0 => Verdict { value: None, wrong: bad },
        Num::Plain(v) if v == 360.0 && above(t, "360") => Verdict { value: mk(v), wrong: bad },
        Num::Plain(v) => Verdict { value: mk(v), wrong: vec![] },
        Num::Alt(v) => Verdict { value: mk(v), wrong: bad },
    }
}
pub const QUALITIES: [&str; 4] = ["color", "gray", "bitonal", "default"];
pub const FORMATS: [(&str, &str); 7] = [
    ("jpg", "image/jpeg"),
    ("tif", "image/tiff"),
    ("png", "image/png"),
    ("gif", "image/gif"),
    ("jp2", "image/jp2"),
    ("pdf", "application/pdf"),
    ("webp", "image/webp"),
];
pub fn hex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}
/// one round of percent-decoding; the flag says that an escape was incomplete (kept literally)
pub fn unescape(s: &str) -> (Vec<u8>, bool) {
    let b = s.as_bytes();
    let (mut out, mut odd, mut i) = (vec![], false, 0);
    while i < b.len() {
        if b[i] == b'%' {
            if let (Some(h), Some(l)) = (b.get(i + 1).copied().and_then(hex), b.get(i + 2).copied().and_then(hex)) {
                out.push(h << 4 | l);
                i += 3;
                continue;
            }
            odd = true;
        }
        out.push(b[i]);
        i += 1;
    }
    (out, odd)
}
pub fn identifier(s: &str) -> Verdict<String> {
    let (b, odd) = unescape(s);
    match String::from_utf8(b) {
        Ok(v) => Verdict { value: Some(v), wrong: if odd { vec![w("identifier", "")] } else { vec![] } },
        Err(_) => Verdict { value: None, wrong: vec![w("identifier", "")] },
    }
}

/// the whole path
pub fn path(p: &str) -> Verdict<Req> {
    let Some(rest) = p.strip_prefix('/') else {
        return Verdict { value: None, wrong: vec![] };
    };
    let segs: Vec<&str> = rest.split('/').collect();
    let mut wrong: Vec<Wrong> = vec![];
    macro_rules! step {
        ($i:expr, $name:expr, $f:expr) => {{
            let Some(s) = segs.get($i) else {
                wrong.push(missing($name));
                return Verdict { value: None, wrong };
            };
            let v = $f(s);
            wrong.extend(v.wrong);
            match v.value {
                Some(x) => x,
                None => return Verdict { value: None, wrong },
            }
        }};
    }
    let id = step!(0, "identifier", |s: &&str| identifier(s));
    let region = step!(1, "region", |s: &&str| region(s));
    let size = step!(2, "size", |s: &&str| size(s));
    let rotation = step!(3, "rotation", |s: &&str| rotation(s));
    let Some(last) = segs.get(4) else {
        wrong.push(missing("quality"));
        return Verdict { value: None, wrong };
    };
    let Some((q, f)) = last.split_once('.') else {
        wrong.push(missing("format"));
        wrong.push(missing("quality"));
        if !QUALITIES.contains(last) {
            wrong.push(w("quality", last));
        }
        return Verdict { value: None, wrong };
    };
    let Some(quality) = QUALITIES.iter().find(|x| **x == q) else {
        wrong.push(w("quality", q));
        return Verdict { value: None, wrong };
    };
    let Some((format, mime)) = FORMATS.iter().find(|x| x.0 == f) else {
        wrong.push(w("format", f));
        return Verdict { value: None, wrong };
    };
    if segs.len() > 5 {
        // more segments than an image request has: not specified
        wrong.push(w("", ""));
    }
    Verdict { value: Some(Req { id, region, size, rotation, quality, format, mime: mime.to_string() }), wrong }
}

/// does this error text fit one of the acceptable complaints?
pub fn explains(text: &str, wrong: &[Wrong]) -> bool {
    let low = text.to_lowercase();
    let words: Vec<&str> = low.split(|c: char| !c.is_alphanumeric()).filter(|s| !s.is_empty()).collect();
    wrong.iter().any(|x| {
        if x.element.is_empty() {
            return true;
        }
        // the element named first is the one complained about
        let first = words.iter().find_map(|a| ["identifier", "region", "size", "rotation", "quality", "format"].iter().find(|e| *e == a));
        if first != Some(&x.element) {
            return false;
        }
        if x.missing {
            return words.contains(&"missing");
        }
        if words.contains(&"missing") && !x.piece.to_lowercase().contains("missing") {
            return false;
        }
        if let Some(i) = x.selector {
            let sel = words.iter().find_map(|a| match *a {
                "x" => Some(0),
                "y" => Some(1),
                "w" | "width" => Some(2),
                "h" | "height" => Some(3),
                "selectors" | "exactly" | "count" => Some(9),
                _ => None,
            });
            if sel != Some(i) {
                return false;
            }
        } else if x.element == "region" && !words.contains(&"4") && !words.contains(&"four") {
            return false;
        }
        text.contains(&x.piece)
    })
}
