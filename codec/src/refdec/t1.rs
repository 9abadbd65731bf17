//! Code-blocks: MQ decoder (Annex C) and coefficient bit modelling (Annex D).
use super::stream::E;
use crate::need;

const QE: [(u32, u8, u8, u8); 47] = [
    (0x5601, 1, 1, 1), (0x3401, 2, 6, 0), (0x1801, 3, 9, 0), (0x0ac1, 4, 12, 0), (0x0521, 5, 29, 0), (0x0221, 38, 33, 0), (0x5601, 7, 6, 1), (0x5401, 8, 14, 0),
    (0x4801, 9, 14, 0), (0x3801, 10, 14, 0), (0x3001, 11, 17, 0), (0x2401, 12, 18, 0), (0x1c01, 13, 20, 0), (0x1601, 29, 21, 0), (0x5601, 15, 14, 1), (0x5401, 16, 14, 0),
    (0x5101, 17, 15, 0), (0x4801, 18, 16, 0), (0x3801, 19, 17, 0), (0x3401, 20, 18, 0), (0x3001, 21, 19, 0), (0x2801, 22, 19, 0), (0x2401, 23, 20, 0), (0x2201, 24, 21, 0),
    (0x1c01, 25, 22, 0), (0x1801, 26, 23, 0), (0x1601, 27, 24, 0), (0x1401, 28, 25, 0), (0x1201, 29, 26, 0), (0x1101, 30, 27, 0), (0x0ac1, 31, 28, 0), (0x09c1, 32, 29, 0),
    (0x08a1, 33, 30, 0), (0x0521, 34, 31, 0), (0x0441, 35, 32, 0), (0x02a1, 36, 33, 0), (0x0221, 37, 34, 0), (0x0141, 38, 35, 0), (0x0111, 39, 36, 0), (0x0085, 40, 37, 0),
    (0x0049, 41, 38, 0), (0x0025, 42, 39, 0), (0x0015, 43, 40, 0), (0x0009, 44, 41, 0), (0x0005, 45, 42, 0), (0x0001, 45, 43, 0), (0x5601, 46, 46, 0),
];
struct Cx {
    i: [u8; 19],
    mps: [u8; 19],
}
impl Cx {
    fn new() -> Cx {
        let mut i = [0; 19];
        i[0] = 4;
        i[17] = 3;
        i[18] = 46;
        Cx { i, mps: [0; 19] }
    }
}
struct Mq<'a> {
    d: &'a [u8],
    p: usize,
    a: u32,
    c: u32,
    ct: i32,
}
impl<'a> Mq<'a> {
    fn at(&self, i: usize) -> u32 {
        self.d.get(i).copied().unwrap_or(0xff) as u32
    }
    fn new(d: &'a [u8]) -> Mq<'a> {
        let mut m = Mq { d, p: 0, a: 0x8000, c: 0, ct: 0 };
        m.c = m.at(0) << 16;
        m.bytein();
        m.c <<= 7;
        m.ct -= 7;
        m
    }
    fn bytein(&mut self) {
        if self.at(self.p) == 0xff {
            if self.at(self.p + 1) > 0x8f {
                self.c += 0xff00;
                self.ct = 8;
            } else {
                self.p += 1;
                self.c += self.at(self.p) << 9;
                self.ct = 7;
            }
        } else {
            self.p += 1;
            self.c += self.at(self.p) << 8;
            self.ct = 8;
        }
    }
    fn get(&mut self, cx: &mut Cx, k: usize) -> u32 {
        let (qe, nmps, nlps, sw) = QE[cx.i[k] as usize];
        let mps = cx.mps[k] as u32;
        self.a -= qe;
        let lps_way = |cx: &mut Cx| {
            if sw == 1 {
                cx.mps[k] ^= 1;
            }
            cx.i[k] = nlps;
            1 - mps
        };
        let d;
        if self.c >> 16 < qe {
            if self.a < qe {
                d = mps;
                cx.i[k] = nmps;
            } else {
                d = lps_way(cx);
            }
            self.a = qe;
        } else {
            self.c -= qe << 16;
            if self.a & 0x8000 != 0 {
                return mps;
            }
            if self.a < qe {
                d = lps_way(cx);
            } else {
                d = mps;
                cx.i[k] = nmps;
            }
        }
        loop {
            if self.ct == 0 {
                self.bytein();
            }
            self.a <<= 1;
            self.c <<= 1;
            self.ct -= 1;
            if self.a & 0x8000 != 0 {
                return d;
            }
        }
    }
}
struct Raw<'a> {
    d: &'a [u8],
    p: usize,
    left: u32,
    cur: u8,
}
impl Raw<'_> {
    fn get(&mut self) -> u32 {
        if self.left == 0 {
            let last = self.cur;
            self.cur = self.d.get(self.p).copied().unwrap_or(0xff);
            self.p += 1;
            self.left = if last == 0xff { 7 } else { 8 };
        }
        self.left -= 1;
        (self.cur >> self.left & 1) as u32
    }
}
enum Src<'a> {
    Mq(Mq<'a>),
    Raw(Raw<'a>),
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Coef {
    pub mag: u64,
    pub neg: bool,
    /// lowest bit-plane decoded; mag counts in units of it
    pub plane: u32,
}
pub const LAZY: u8 = 1;
pub const RESET: u8 = 2;
pub const TERMALL: u8 = 4;
pub const VSC: u8 = 8;
pub const SEGSYM: u8 = 32;

/// is pass number n (0 = first clean-up) coded without the arithmetic coder?
pub fn is_raw(mode: u8, n: u32) -> bool {
    mode & LAZY != 0 && n >= 10 && (n + 2) % 3 != 2
}
/// how many passes a codeword segment starting with pass n may hold
pub fn seg_passes(mode: u8, n: u32) -> u32 {
    if mode & TERMALL != 0 {
        1
    } else if mode & LAZY != 0 {
        if n < 10 {
            10 - n
        } else if is_raw(mode, n) {
            2 - (n - 10) % 3
        } else {
            1
        }
    } else {
        u32::MAX
    }
}
struct Blk {
    w: usize,
    h: usize,
    orient: u8,
    vsc: bool,
    sig: Vec<bool>,
    neg: Vec<bool>,
    seen: Vec<bool>,
    refined: Vec<bool>,
    out: Vec<Coef>,
}
impl Blk {
    /// significance of the neighbour of (x, y), and whether it is negative
    fn nb(&self, x: usize, y: usize, dx: isize, dy: isize) -> (bool, bool) {
        let (u, v) = (x as isize + dx, y as isize + dy);
        if u < 0 || v < 0 || u >= self.w as isize || v >= self.h as isize || (self.vsc && dy == 1 && y % 4 == 3) {
            return (false, false);
        }
        let i = v as usize * self.w + u as usize;
        (self.sig[i], self.neg[i])
    }
    fn sums(&self, x: usize, y: usize) -> (u32, u32, u32) {
        let s = |dx, dy| self.nb(x, y, dx, dy).0 as u32;
        (s(-1, 0) + s(1, 0), s(0, -1) + s(0, 1), s(-1, -1) + s(1, -1) + s(-1, 1) + s(1, 1))
    }
    fn zc(&self, x: usize, y: usize) -> usize {
        let (mut h, mut v, d) = self.sums(x, y);
        if self.orient == 3 {
            let hv = h + v;
            return match (d, hv) {
                (3.., _) => 8,
                (2, 1..) => 7,
                (2, 0) => 6,
                (1, 2..) => 5,
                (1, 1) => 4,
                (1, 0) => 3,
                (0, 2..) => 2,
                (0, 1) => 1,
                (0, 0) => 0,
            };
        }
        if self.orient == 1 {
            std::mem::swap(&mut h, &mut v);
        }
        match (h, v, d) {
            (2.., _, _) => 8,
            (1, 1.., _) => 7,
            (1, 0, 1..) => 6,
            (1, 0, 0) => 5,
            (0, 2.., _) => 4,
            (0, 1, _) => 3,
            (0, 0, 2..) => 2,
            (0, 0, 1) => 1,
            (0, 0, 0) => 0,
        }
    }
    fn sc(&self, x: usize, y: usize) -> (usize, u32) {
        let c = |dx, dy| match self.nb(x, y, dx, dy) {
            (false, _) => 0i32,
            (true, false) => 1,
            (true, true) => -1,
        };
        let h = (c(-1, 0) + c(1, 0)).clamp(-1, 1);
        let v = (c(0, -1) + c(0, 1)).clamp(-1, 1);
        match (h, v) {
            (1, 1) => (13, 0),
            (1, 0) => (12, 0),
            (1, -1) => (11, 0),
            (0, 1) => (10, 0),
            (0, 0) => (9, 0),
            (0, -1) => (10, 1),
            (-1, 1) => (11, 1),
            (-1, 0) => (12, 1),
            _ => (13, 1),
        }
    }
    fn new_sig(&mut self, x: usize, y: usize, neg: bool, plane: u32) {
        let i = y * self.w + x;
        self.sig[i] = true;
        self.neg[i] = neg;
        self.out[i] = Coef { mag: 1, neg, plane };
    }
    fn sign(&mut self, s: &mut Src, cx: &mut Cx, x: usize, y: usize) -> bool {
        match s {
            Src::Raw(r) => r.get() == 1,
            Src::Mq(m) => {
                let (k, f) = self.sc(x, y);
                m.get(cx, k) ^ f == 1
            }
        }
    }
    fn spp(&mut self, s: &mut Src, cx: &mut Cx, plane: u32) {
        for y0 in (0..self.h).step_by(4) {
            for x in 0..self.w {
                for y in y0..(y0 + 4).min(self.h) {
                    let i = y * self.w + x;
                    let k = self.zc(x, y);
                    if self.sig[i] || k == 0 {
                        continue;
                    }
                    self.seen[i] = true;
                    let b = match s {
                        Src::Raw(r) => r.get(),
                        Src::Mq(m) => m.get(cx, k),
                    };
                    if b == 1 {
                        let neg = self.sign(s, cx, x, y);
                        self.new_sig(x, y, neg, plane);
                    }
                }
            }
        }
    }
    fn mrp(&mut self, s: &mut Src, cx: &mut Cx, plane: u32) {
        for y0 in (0..self.h).step_by(4) {
            for x in 0..self.w {
                for y in y0..(y0 + 4).min(self.h) {
                    let i = y * self.w + x;
                    if !self.sig[i] || self.seen[i] {
                        continue;
                    }
                    let b = match s {
                        Src::Raw(r) => r.get(),
                        Src::Mq(m) => {
                            let (h, v, d) = self.sums(x, y);
                            let k = if self.refined[i] { 16 } else if h + v + d > 0 { 15 } else { 14 };
                            m.get(cx, k)
                        }
                    };
                    self.refined[i] = true;
                    let o = &mut self.out[i];
                    o.mag = o.mag << 1 | b as u64;
                    o.plane = plane;
                }
            }
        }
    }
    fn cup(&mut self, s: &mut Src, cx: &mut Cx, plane: u32) {
        for y0 in (0..self.h).step_by(4) {
            for x in 0..self.w {
                let ye = (y0 + 4).min(self.h);
                let mut y = y0;
                let Src::Mq(m) = s else { unreachable!() };
                let free = |b: &Blk, y: usize| !b.sig[y * b.w + x] && !b.seen[y * b.w + x] && b.zc(x, y) == 0;
                if ye - y0 == 4 && (y0..ye).all(|y| free(self, y)) {
                    if m.get(cx, 17) == 0 {
                        continue;
                    }
                    y = y0 + (m.get(cx, 18) << 1 | m.get(cx, 18)) as usize;
                    let neg = self.sign(s, cx, x, y);
                    self.new_sig(x, y, neg, plane);
                    y += 1;
                }
                while y < ye {
                    let i = y * self.w + x;
                    if !self.sig[i] && !self.seen[i] {
                        let k = self.zc(x, y);
                        let Src::Mq(m) = s else { unreachable!() };
                        if m.get(cx, k) == 1 {
                            let neg = self.sign(s, cx, x, y);
                            self.new_sig(x, y, neg, plane);
                        }
                    }
                    y += 1;
                }
            }
        }
        self.seen.iter_mut().for_each(|v| *v = false);
    }
}
/// segs: number of passes and data of every codeword segment
pub fn decode(w: usize, h: usize, orient: u8, mode: u8, planes: u32, segs: &[(u32, &[u8])]) -> E<Vec<Coef>> {
    decode_with(w, h, orient, mode, planes, segs, |_| {})
}
/// done: how far into its segment each pass has read
pub fn decode_with(w: usize, h: usize, orient: u8, mode: u8, planes: u32, segs: &[(u32, &[u8])], mut done: impl FnMut(usize)) -> E<Vec<Coef>> {
    let n = w * h;
    let mut b = Blk { w, h, orient, vsc: mode & VSC != 0, sig: vec![false; n], neg: vec![false; n], seen: vec![false; n], refined: vec![false; n], out: vec![Coef::default(); n] };
    let total: u32 = segs.iter().map(|s| s.0).sum();
    need!(total == 0 || total + 2 <= 3 * planes, "{total} passes for {planes} bit-planes");
    let mut cx = Cx::new();
    let mut k = 0;
    for (passes, data) in segs {
        if *passes == 0 {
            continue;
        }
        let mut s = if is_raw(mode, k) { Src::Raw(Raw { d: data, p: 0, left: 0, cur: 0 }) } else { Src::Mq(Mq::new(data)) };
        for _ in 0..*passes {
            let plane = planes - 1 - (k + 2) / 3;
            match (k + 2) % 3 {
                0 => b.spp(&mut s, &mut cx, plane),
                1 => b.mrp(&mut s, &mut cx, plane),
                _ => {
                    b.cup(&mut s, &mut cx, plane);
                    if mode & SEGSYM != 0 {
                        let Src::Mq(m) = &mut s else { unreachable!() };
                        let v = (0..4).fold(0, |v, _| v << 1 | m.get(&mut cx, 18));
                        need!(v == 10, "segmentation symbol {v}");
                    }
                }
            }
            if mode & RESET != 0 {
                cx = Cx::new();
            }
            k += 1;
            done(match &s {
                Src::Mq(m) => (m.p + 2).min(data.len()),
                Src::Raw(_) => data.len(),
            });
        }
    }
    Ok(b.out)
}
