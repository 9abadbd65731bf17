//! Strict reader of JPEG 2000 codestreams, written from ISO/IEC 15444-1 Annexes A and B.
//! Independent of the library under test.

pub type E<T> = Result<T, String>;
#[macro_export]
macro_rules! need {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub fn cdiv(a: i64, b: i64) -> i64 {
    (a + b - 1).div_euclid(b)
}
pub fn cshift(a: i64, n: u32) -> i64 {
    (a + (1i64 << n) - 1) >> n
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Siz {
    pub rsiz: u16,
    pub x1: i64,
    pub y1: i64,
    pub x0: i64,
    pub y0: i64,
    pub tw: i64,
    pub th: i64,
    pub tx0: i64,
    pub ty0: i64,
    pub comps: Vec<SizC>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SizC {
    pub prec: u32,
    pub sgnd: bool,
    pub dx: i64,
    pub dy: i64,
}
impl Siz {
    pub fn grid(&self) -> (i64, i64) {
        (cdiv(self.x1 - self.tx0, self.tw), cdiv(self.y1 - self.ty0, self.th))
    }
    pub fn tile(&self, n: usize) -> (i64, i64, i64, i64) {
        let g = self.grid();
        let (p, q) = (n as i64 % g.0, n as i64 / g.0);
        let (x, y) = (self.tx0 + p * self.tw, self.ty0 + q * self.th);
        (x.max(self.x0), y.max(self.y0), (x + self.tw).min(self.x1), (y + self.th).min(self.y1))
    }
}
/// SGcod
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cod {
    pub sop: bool,
    pub eph: bool,
    pub prog: u8,
    pub layers: u32,
    pub mct: u8,
}
/// SPcod / SPcoc
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Spc {
    pub levels: u32,
    pub xcb: u32,
    pub ycb: u32,
    pub mode: u8,
    pub rev: bool,
    pub user_prec: bool,
    pub prec: Vec<(u32, u32)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Qnt {
    pub style: u8,
    pub guard: u32,
    pub steps: Vec<(u32, u32)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct PocE {
    pub rs: u32,
    pub cs: u32,
    pub lye: u32,
    pub re: u32,
    pub ce: u32,
    pub prog: u8,
}
#[derive(Clone, Debug, Default)]
pub struct Hdr {
    pub cod: Option<(Cod, Spc)>,
    pub coc: Vec<Option<Spc>>,
    pub qcd: Option<Qnt>,
    pub qcc: Vec<Option<Qnt>>,
    pub rgn: Vec<Option<u32>>,
    pub poc: Vec<PocE>,
    pub coms: Vec<(u16, Vec<u8>)>,
}
#[derive(Clone, Debug)]
pub struct TilePart {
    pub tile: usize,
    pub tpart: u8,
    pub ntp: u8,
    /// file offsets
    pub sot: usize,
    pub sod_end: usize,
    pub end: usize,
    pub psot: u32,
    pub markers: Vec<(u16, usize, usize)>,
    pub plt: Vec<u32>,
    pub ppt: Vec<(u8, Vec<u8>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub siz: Siz,
    pub main: Hdr,
    pub tiles: Vec<Hdr>,
    pub parts: Vec<TilePart>,
    pub tlm: Vec<(Option<usize>, u32)>,
    pub has_plt: bool,
    /// marker, offset, length including the marker code
    pub markers: Vec<(u16, usize, usize)>,
    pub main_end: usize,
    pub ppm: Option<Vec<Vec<u8>>>,
    pub cap: Option<(u32, Vec<u16>)>,
    pub data: Vec<u8>,
    pub unknown: usize,
}
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    pub fn u(&mut self, n: usize) -> E<u64> {
        need!(self.p + n <= self.b.len(), "data ends at {}", self.p);
        let mut v = 0;
        for i in 0..n {
            v = v << 8 | self.b[self.p + i] as u64;
        }
        self.p += n;
        Ok(v)
    }
    pub fn u8(&mut self) -> E<u32> {
        Ok(self.u(1)? as u32)
    }
    pub fn u16(&mut self) -> E<u32> {
        Ok(self.u(2)? as u32)
    }
    pub fn u32(&mut self) -> E<u32> {
        Ok(self.u(4)? as u32)
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn rest(&mut self) -> &'a [u8] {
        let r = &self.b[self.p..];
        self.p = self.b.len();
        r
    }
}
fn spc(r: &mut Rd, user: bool) -> E<Spc> {
    let levels = r.u8()?;
    need!(levels <= 32, "{levels} decomposition levels");
    let (xcb, ycb) = (r.u8()? + 2, r.u8()? + 2);
    need!(xcb <= 10 && ycb <= 10 && xcb + ycb <= 12, "code-block size 2^{xcb} x 2^{ycb}");
    let mode = r.u8()?;
    need!(mode & 0x80 == 0, "code-block style {mode:#x}");
    let tr = r.u8()?;
    need!(tr <= 1, "transformation {tr}");
    let mut prec = vec![];
    for i in 0..=levels {
        prec.push(if user {
            let v = r.u8()?;
            need!(i == 0 || (v & 15 > 0 && v >> 4 > 0), "precinct exponent 0 at resolution {i}");
            (v & 15, v >> 4)
        } else {
            (15, 15)
        });
    }
    Ok(Spc { levels, xcb, ycb, mode: mode as u8, rev: tr == 1, user_prec: user, prec })
}
fn qnt(r: &mut Rd) -> E<Qnt> {
    let s = r.u8()?;
    let style = (s & 31) as u8;
    need!(style <= 2, "quantisation style {style}");
    let mut steps = vec![];
    while r.left() > 0 {
        if style == 0 {
            let v = r.u8()?;
            need!(v & 7 == 0, "reserved bits in SPqcd {v:#x}");
            steps.push((v >> 3, 0));
        } else {
            let v = r.u16()?;
            steps.push((v >> 11, v & 0x7ff));
        }
    }
    need!(!steps.is_empty(), "no quantisation steps");
    need!(style != 1 || steps.len() == 1, "derived quantisation with {} steps", steps.len());
    Ok(Qnt { style, guard: s >> 5, steps })
}
impl Hdr {
    fn marker(&mut self, m: u16, b: &[u8], nc: usize, main: bool) -> E<bool> {
        let mut r = Rd { b, p: 0 };
        let wide = nc >= 257;
        let cn = |r: &mut Rd| -> E<usize> {
            let c = if wide { r.u16()? } else { r.u8()? } as usize;
            need!(c < nc, "component {c} of {nc}");
            Ok(c)
        };
        self.coc.resize(nc, None);
        self.qcc.resize(nc, None);
        self.rgn.resize(nc, None);
        match m {
            0xff52 => {
                need!(self.cod.is_none(), "second COD");
                let s = r.u8()?;
                need!(s < 8, "Scod {s:#x}");
                let prog = r.u8()? as u8;
                need!(prog < 5, "progression {prog}");
                let layers = r.u16()?;
                need!(layers > 0, "no layers");
                let mct = r.u8()? as u8;
                let sp = spc(&mut r, s & 1 != 0)?;
                self.cod = Some((Cod { sop: s & 2 != 0, eph: s & 4 != 0, prog, layers, mct }, sp));
            }
            0xff53 => {
                let c = cn(&mut r)?;
                let s = r.u8()?;
                need!(s < 2, "Scoc {s:#x}");
                need!(self.coc[c].is_none(), "second COC for component {c}");
                self.coc[c] = Some(spc(&mut r, s & 1 != 0)?);
            }
            0xff5c => {
                need!(self.qcd.is_none(), "second QCD");
                self.qcd = Some(qnt(&mut r)?);
            }
            0xff5d => {
                let c = cn(&mut r)?;
                need!(self.qcc[c].is_none(), "second QCC for component {c}");
                self.qcc[c] = Some(qnt(&mut r)?);
            }
            0xff5e => {
                let c = cn(&mut r)?;
                need!(r.u8()? == 0, "RGN style");
                need!(self.rgn[c].is_none(), "second RGN for component {c}");
                self.rgn[c] = Some(r.u8()?);
            }
            0xff5f => {
                need!(main || true, "POC");
                let sz = if wide { 9 } else { 7 };
                need!(!b.is_empty() && b.len() % sz == 0, "POC of {} bytes", b.len());
                while r.left() > 0 {
                    let mut p = PocE { rs: r.u8()?, ..Default::default() };
                    p.cs = if wide { r.u16()? } else { r.u8()? };
                    p.lye = r.u16()?;
                    p.re = r.u8()?;
                    p.ce = if wide { r.u16()? } else { r.u8()? };
                    if p.ce == 0 {
                        p.ce = if wide { 16384 } else { 256 };
                    }
                    p.prog = r.u8()? as u8;
                    need!(p.prog < 5 && p.re > p.rs && p.ce > p.cs, "POC entry {p:?}");
                    self.poc.push(p);
                }
            }
            0xff64 => {
                let k = r.u16()? as u16;
                self.coms.push((k, r.rest().to_vec()));
            }
            0xff63 => {
                need!(b.len() == 4 * nc, "CRG of {} bytes", b.len());
                r.rest();
            }
            _ => return Ok(false),
        }
        need!(r.left() == 0, "{} surplus bytes in marker {m:#x}", r.left());
        Ok(true)
    }
}
/// Read a whole codestream; Err describes the first thing which is not as the standard says.
pub fn parse(data: &[u8]) -> E<Stream> {
    let mut s = Stream { data: data.to_vec(), ..Default::default() };
    let mut r = Rd { b: data, p: 0 };
    need!(r.u16()? == 0xff4f, "no SOC");
    s.markers.push((0xff4f, 0, 2));
    let mut ppm: Vec<(u32, Vec<u8>)> = vec![];
    let mut tlm: Vec<(u32, Vec<(Option<usize>, u32)>)> = vec![];
    let mut first = true;
    loop {
        let at = r.p;
        let m = r.u16()? as u16;
        if m == 0xff90 {
            r.p = at;
            break;
        }
        need!(m >= 0xff01, "not a marker: {m:#x} at {at}");
        if (0xff30..=0xff3f).contains(&m) {
            // a marker without a segment
            need!(!first, "SIZ must follow SOC, found {m:#x}");
            s.markers.push((m, at, 2));
            s.unknown += 1;
            continue;
        }
        let l = r.u16()? as usize;
        need!(l >= 2 && at + 2 + l <= data.len(), "marker {m:#x} of length {l}");
        let b = &data[at + 4..at + 2 + l];
        r.p = at + 2 + l;
        s.markers.push((m, at, l + 2));
        need!(first == (m == 0xff51), "SIZ must follow SOC, found {m:#x}");
        first = false;
        let mut q = Rd { b, p: 0 };
        match m {
            0xff51 => {
                s.siz.rsiz = q.u16()? as u16;
                let v: Vec<i64> = (0..8).map(|_| q.u32().map(|x| x as i64)).collect::<E<_>>()?;
                (s.siz.x1, s.siz.y1, s.siz.x0, s.siz.y0, s.siz.tw, s.siz.th, s.siz.tx0, s.siz.ty0) = (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
                let n = q.u16()?;
                need!((1..=16384).contains(&n), "{n} components");
                for _ in 0..n {
                    let p = q.u8()?;
                    let (dx, dy) = (q.u8()? as i64, q.u8()? as i64);
                    need!(p & 127 < 38 && dx > 0 && dy > 0, "component {p:#x} {dx} {dy}");
                    s.siz.comps.push(SizC { prec: (p & 127) + 1, sgnd: p & 128 != 0, dx, dy });
                }
                need!(q.left() == 0, "surplus in SIZ");
                let z = &s.siz;
                need!(z.x0 < z.x1 && z.y0 < z.y1 && z.tw > 0 && z.th > 0, "empty image or tiles");
                need!(z.tx0 <= z.x0 && z.ty0 <= z.y0 && z.tx0 + z.tw > z.x0 && z.ty0 + z.th > z.y0, "tile grid does not meet the image");
                let g = z.grid();
                need!(g.0 * g.1 <= 65535, "{} tiles", g.0 * g.1);
                s.tiles = vec![Hdr::default(); (g.0 * g.1) as usize];
            }
            0xff55 => {
                let z = q.u8()?;
                let st = q.u8()?;
                let (sts, sps) = (st >> 4 & 3, st >> 6 & 1);
                need!(st & 0x8f == 0 && sts < 3, "Stlm {st:#x}");
                let mut v = vec![];
                while q.left() > 0 {
                    let t = match sts {
                        0 => None,
                        1 => Some(q.u8()? as usize),
                        _ => Some(q.u16()? as usize),
                    };
                    v.push((t, if sps == 1 { q.u32()? } else { q.u16()? }));
                }
                tlm.push((z, v));
            }
            0xff60 => {
                let z = q.u8()?;
                ppm.push((z, q.rest().to_vec()));
            }
            0xff57 => {}
            0xff50 => {
                let p = q.u32()?;
                let mut v = vec![];
                while q.left() > 0 {
                    v.push(q.u16()? as u16);
                }
                need!(v.len() == p.count_ones() as usize, "CAP");
                s.cap = Some((p, v));
            }
            _ => {
                let nc = s.siz.comps.len();
                if !s.main.marker(m, b, nc, true)? {
                    need!(m != 0xff58 && m != 0xff61 && m != 0xff91 && m != 0xff92 && m != 0xff93 && m != 0xffd9, "marker {m:#x} in the main header");
                    s.unknown += 1;
                }
            }
        }
    }
    s.main_end = r.p;
    need!(s.main.cod.is_some(), "no COD");
    need!(s.main.qcd.is_some() || s.main.qcc.iter().all(|q| q.is_some()), "no QCD");
    // tile-parts
    let mut seen = vec![(0u32, 0u8); s.tiles.len()];
    loop {
        let at = r.p;
        let m = r.u16()?;
        if m == 0xffd9 {
            s.markers.push((0xffd9, at, 2));
            break;
        }
        need!(m == 0xff90, "expected SOT or EOC at {at}, found {m:#x}");
        need!(r.u16()? == 10, "Lsot");
        let tile = r.u16()? as usize;
        let psot = r.u32()?;
        let (tp, nt) = (r.u8()? as u8, r.u8()? as u8);
        need!(tile < s.tiles.len(), "tile {tile} of {}", s.tiles.len());
        need!(seen[tile].0 == tp as u32, "tile {tile}: tile-part {tp}, expected {}", seen[tile].0);
        seen[tile].0 += 1;
        if nt != 0 {
            need!(seen[tile].1 == 0 || seen[tile].1 == nt, "tile {tile}: number of tile-parts {} then {nt}", seen[tile].1);
            seen[tile].1 = nt;
        }
        let end = if psot == 0 { data.len() - 2 } else { at + psot as usize };
        need!(end <= data.len() && (psot == 0 || psot >= 14), "tile-part of {psot} bytes at {at}");
        let mut t = TilePart { tile, tpart: tp, ntp: nt, sot: at, sod_end: 0, end, psot, markers: vec![(0xff90, at, 12)], plt: vec![], ppt: vec![] };
        let mut plt: Vec<(u32, Vec<u8>)> = vec![];
        loop {
            let at = r.p;
            let m = r.u16()? as u16;
            if m == 0xff93 {
                t.markers.push((m, at, 2));
                break;
            }
            if (0xff30..=0xff3f).contains(&m) {
                t.markers.push((m, at, 2));
                s.unknown += 1;
                continue;
            }
            let l = r.u16()? as usize;
            need!(l >= 2 && at + 2 + l <= end, "marker {m:#x} of length {l} in a tile-part header");
            let b = &data[at + 4..at + 2 + l];
            r.p = at + 2 + l;
            t.markers.push((m, at, l + 2));
            match m {
                0xff58 => {
                    need!(!b.is_empty(), "empty PLT");
                    plt.push((b[0] as u32, b[1..].to_vec()));
                }
                0xff61 => {
                    need!(!b.is_empty(), "empty PPT");
                    t.ppt.push((b[0], b[1..].to_vec()));
                }
                _ => {
                    need!(tp == 0 || (m != 0xff52 && m != 0xff53 && m != 0xff5c && m != 0xff5d && m != 0xff5e), "marker {m:#x} in tile-part {tp}");
                    let nc = s.siz.comps.len();
                    if !s.tiles[tile].marker(m, b, nc, false)? {
                        need!(![0xff51, 0xff55, 0xff57, 0xff60, 0xff91, 0xff92, 0xffd9, 0xff4f, 0xff90].contains(&m), "marker {m:#x} in a tile-part header");
                        s.unknown += 1;
                    }
                }
            }
        }
        t.sod_end = r.p;
        plt.sort_by_key(|x| x.0);
        for (i, (z, b)) in plt.iter().enumerate() {
            need!(*z == i as u32, "PLT index {z}");
            s.has_plt = true;
            let mut v = 0u32;
            let mut open = false;
            for &k in b {
                v = v << 7 | (k & 127) as u32;
                open = k & 128 != 0;
                if !open {
                    t.plt.push(v);
                    v = 0;
                }
            }
            need!(!open, "packet length cut by the end of PLT");
        }
        t.ppt.sort_by_key(|x| x.0);
        r.p = end;
        s.parts.push(t);
    }
    need!(r.left() == 0, "{} bytes after EOC", r.left());
    for (i, (n, t)) in seen.iter().enumerate() {
        need!(*n > 0, "no tile-part for tile {i}");
        need!(*t as u32 == 0 || *t as u32 == *n, "tile {i} has {n} tile-parts, announced {t}");
    }
    tlm.sort_by_key(|x| x.0);
    for (i, (z, v)) in tlm.into_iter().enumerate() {
        need!(z == i as u32, "TLM index {z}");
        s.tlm.extend(v);
    }
    if !s.tlm.is_empty() {
        need!(s.tlm.len() == s.parts.len(), "TLM lists {} tile-parts of {}", s.tlm.len(), s.parts.len());
        for (i, ((t, l), p)) in s.tlm.iter().zip(&s.parts).enumerate() {
            need!(t.unwrap_or(i) == p.tile, "TLM entry {i}: tile {t:?}, is {}", p.tile);
            need!(*l as usize == p.end - p.sot, "TLM entry {i}: length {l}, is {}", p.end - p.sot);
        }
    }
    if !ppm.is_empty() {
        ppm.sort_by_key(|x| x.0);
        let mut all = vec![];
        for (i, (z, b)) in ppm.iter().enumerate() {
            need!(*z == i as u32, "PPM index {z}");
            all.extend_from_slice(b);
        }
        let mut q = Rd { b: &all, p: 0 };
        let mut v = vec![];
        while q.left() > 0 {
            let n = q.u32()? as usize;
            need!(n <= q.left(), "PPM entry of {n} bytes, {} left", q.left());
            v.push(q.b[q.p..q.p + n].to_vec());
            q.p += n;
        }
        need!(v.len() == s.parts.len(), "PPM for {} of {} tile-parts", v.len(), s.parts.len());
        s.ppm = Some(v);
    }
    Ok(s)
}
impl Stream {
    pub fn cod(&self, tile: usize) -> &Cod {
        match &self.tiles[tile].cod {
            Some(c) => &c.0,
            None => &self.main.cod.as_ref().unwrap().0,
        }
    }
    pub fn spc(&self, tile: usize, c: usize) -> &Spc {
        let t = &self.tiles[tile];
        if let Some(Some(s)) = t.coc.get(c) {
            return s;
        }
        if let Some(s) = &t.cod {
            return &s.1;
        }
        if let Some(Some(s)) = self.main.coc.get(c) {
            return s;
        }
        &self.main.cod.as_ref().unwrap().1
    }
    pub fn qnt(&self, tile: usize, c: usize) -> &Qnt {
        let t = &self.tiles[tile];
        if let Some(Some(s)) = t.qcc.get(c) {
            return s;
        }
        if let Some(s) = &t.qcd {
            return s;
        }
        if let Some(Some(s)) = self.main.qcc.get(c) {
            return s;
        }
        self.main.qcd.as_ref().unwrap()
    }
    pub fn roi(&self, tile: usize, c: usize) -> u32 {
        self.tiles[tile].rgn.get(c).copied().flatten().or(self.main.rgn.get(c).copied().flatten()).unwrap_or(0)
    }
    pub fn pocs(&self, tile: usize) -> &[PocE] {
        if !self.tiles[tile].poc.is_empty() {
            &self.tiles[tile].poc
        } else {
            &self.main.poc
        }
    }
}
