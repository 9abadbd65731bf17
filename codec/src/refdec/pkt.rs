//! Geometry (Annex B.5-B.7), packet order (B.12) and packet headers (B.10).
use std::collections::HashSet;
use super::stream::*;
use super::t1;
use crate::need;

#[derive(Clone, Debug, Default)]
pub struct Blk {
    /// in sub-band coordinates
    pub r: (i64, i64, i64, i64),
    pub incl: bool,
    pub zbp: u32,
    lblock: u32,
    pub passes: u32,
    pub segs: Vec<Sg>,
    /// passes and bytes each layer contributes: (layer, passes, bytes)
    pub contrib: Vec<(u32, u32, usize)>,
}
#[derive(Clone, Debug, Default)]
pub struct Sg {
    pub passes: u32,
    max: u32,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct PrecBand {
    pub cw: usize,
    pub ch: usize,
    pub blks: Vec<Blk>,
    incl: Tree,
    zero: Tree,
}
#[derive(Clone, Debug, Default)]
pub struct Prec {
    /// reference position on the canvas
    pub x: i64,
    pub y: i64,
    pub bands: Vec<PrecBand>,
    next: u32,
}
#[derive(Clone, Debug)]
pub struct Band {
    pub orient: u8,
    pub nb: u32,
    pub r: (i64, i64, i64, i64),
}
#[derive(Clone, Debug)]
pub struct Res {
    pub r: (i64, i64, i64, i64),
    pub pw: i64,
    pub ph: i64,
    pub bands: Vec<Band>,
    pub precs: Vec<Prec>,
}
#[derive(Clone, Debug)]
pub struct TComp {
    pub r: (i64, i64, i64, i64),
    pub res: Vec<Res>,
}
/// a packet, and where it is
#[derive(Clone, Debug)]
pub struct Pk {
    pub part: usize,
    pub l: u32,
    pub r: u32,
    pub c: usize,
    pub k: usize,
    /// in the stream: begin (of SOP or header), end
    pub at: (usize, usize),
    /// header without SOP and EPH, body
    pub hdr: Vec<u8>,
    pub body: (usize, usize),
    pub sop: bool,
    pub eph: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Tile {
    pub comps: Vec<TComp>,
    pub pks: Vec<Pk>,
    /// packets which a damaged stream does not hold
    pub missing: usize,
}
#[derive(Clone, Debug, Default)]
struct Tree {
    /// from the leaves up: width, height, (value so far, known)
    lev: Vec<(usize, usize, Vec<(u32, bool)>)>,
}
impl Tree {
    fn new(mut w: usize, mut h: usize) -> Tree {
        let mut lev = vec![];
        if w * h > 0 {
            loop {
                lev.push((w, h, vec![(0, false); w * h]));
                if w * h == 1 {
                    break;
                }
                w = w.div_ceil(2);
                h = h.div_ceil(2);
            }
        }
        Tree { lev }
    }
    /// is the value of leaf (x, y) less than t?
    fn less(&mut self, b: &mut Bits, x: usize, y: usize, t: u32) -> E<bool> {
        let mut low = 0;
        for k in (0..self.lev.len()).rev() {
            let (w, _, v) = &mut self.lev[k];
            let n = &mut v[(y >> k) * *w + (x >> k)];
            n.0 = n.0.max(low);
            while !n.1 && n.0 < t {
                if b.get()? == 1 {
                    n.1 = true;
                } else {
                    n.0 += 1;
                }
            }
            low = n.0;
        }
        let n = self.lev[0].2[y * self.lev[0].0 + x];
        Ok(n.1 && n.0 < t)
    }
}
struct Bits<'a> {
    d: &'a [u8],
    p: usize,
    cur: u8,
    left: u32,
}
impl Bits<'_> {
    fn get(&mut self) -> E<u32> {
        if self.left == 0 {
            let stuffed = self.cur == 0xff;
            need!(self.p < self.d.len(), "packet header ends at {}", self.p);
            self.cur = self.d[self.p];
            self.p += 1;
            need!(!stuffed || self.cur < 0x80, "no stuffed bit in a packet header");
            self.left = if stuffed { 7 } else { 8 };
        }
        self.left -= 1;
        Ok((self.cur >> self.left & 1) as u32)
    }
    fn n(&mut self, n: u32) -> E<u32> {
        need!(n <= 32, "{n} bits");
        let mut v = 0;
        for _ in 0..n {
            v = v << 1 | self.get()?;
        }
        Ok(v)
    }
    fn align(&mut self) -> E<()> {
        if self.cur == 0xff {
            need!(self.p < self.d.len() && self.d[self.p] < 0x80, "packet header ends in FF");
            self.p += 1;
        }
        self.left = 0;
        self.cur = 0;
        Ok(())
    }
}
fn cap(r: (i64, i64, i64, i64), q: (i64, i64, i64, i64)) -> (i64, i64, i64, i64) {
    (r.0.max(q.0), r.1.max(q.1), r.2.min(q.2), r.3.min(q.3))
}
pub fn tcomp(s: &Stream, tile: usize, c: usize) -> E<TComp> {
    let k = &s.siz.comps[c];
    let t = s.siz.tile(tile);
    let r = (cdiv(t.0, k.dx), cdiv(t.1, k.dy), cdiv(t.2, k.dx), cdiv(t.3, k.dy));
    let sp = s.spc(tile, c);
    let nl = sp.levels;
    let mut res = vec![];
    for i in 0..=nl {
        let d = nl - i;
        let rr = (cshift(r.0, d), cshift(r.1, d), cshift(r.2, d), cshift(r.3, d));
        let (ppx, ppy) = sp.prec[i as usize];
        let (px0, py0) = (rr.0 >> ppx, rr.1 >> ppy);
        let pw = if rr.2 > rr.0 { cshift(rr.2, ppx) - px0 } else { 0 };
        let ph = if rr.3 > rr.1 { cshift(rr.3, ppy) - py0 } else { 0 };
        let mut bands = vec![];
        for o in if i == 0 { 0..1 } else { 1..4u8 } {
            let nb = if i == 0 { nl } else { d + 1 };
            let (xo, yo) = ((o & 1) as i64, (o >> 1) as i64);
            let f = |v: i64, o: i64| if nb == 0 { v } else { cshift(v - (o << (nb - 1)), nb) };
            bands.push(Band { orient: o, nb, r: (f(r.0, xo), f(r.1, yo), f(r.2, xo), f(r.3, yo)) });
        }
        let sub = (i > 0) as u32;
        need!(ppx >= sub && ppy >= sub, "precinct exponent 0 at resolution {i}");
        let (bpx, bpy) = (ppx - sub, ppy - sub);
        let (xcb, ycb) = (sp.xcb.min(bpx), sp.ycb.min(bpy));
        let mut precs = vec![];
        need!(pw * ph < 1 << 20, "{pw} x {ph} precincts");
        let empty = pw == 0 || ph == 0;
        for n in 0..if empty { 0 } else { pw * ph } {
            let (px, py) = (px0 + n % pw, py0 + n / pw);
            let full = |k: i64, d: i64, pp: u32| (k << pp << (nl - i)) * d;
            let mut p = Prec { x: full(px, k.dx, ppx), y: full(py, k.dy, ppy), ..Default::default() };
            if px == px0 && rr.0 & ((1 << ppx) - 1) != 0 {
                p.x = t.0;
            }
            if py == py0 && rr.1 & ((1 << ppy) - 1) != 0 {
                p.y = t.1;
            }
            for b in &bands {
                let q = cap(b.r, (px << bpx, py << bpy, (px + 1) << bpx, (py + 1) << bpy));
                let mut pb = PrecBand::default();
                if q.0 < q.2 && q.1 < q.3 {
                    let (x0, y0) = (q.0 >> xcb, q.1 >> ycb);
                    pb.cw = (cshift(q.2, xcb) - x0) as usize;
                    pb.ch = (cshift(q.3, ycb) - y0) as usize;
                    for j in 0..pb.ch as i64 {
                        for i in 0..pb.cw as i64 {
                            let (x, y) = (x0 + i, y0 + j);
                            pb.blks.push(Blk { r: cap(q, (x << xcb, y << ycb, (x + 1) << xcb, (y + 1) << ycb)), lblock: 3, ..Default::default() });
                        }
                    }
                }
                pb.incl = Tree::new(pb.cw, pb.ch);
                pb.zero = Tree::new(pb.cw, pb.ch);
                p.bands.push(pb);
            }
            precs.push(p);
        }
        res.push(Res { r: rr, pw, ph, bands, precs });
    }
    Ok(TComp { r, res })
}
/// (layer, resolution, component, precinct) of all packets of a tile, in order; are they all there?
pub fn order(s: &Stream, tile: usize, tc: &[TComp]) -> (Vec<(u32, u32, usize, usize)>, bool) {
    let cod = s.cod(tile);
    let pocs = s.pocs(tile);
    let maxr = tc.iter().map(|t| t.res.len()).max().unwrap_or(0) as u32;
    let all = [PocE { rs: 0, cs: 0, lye: cod.layers, re: maxr, ce: tc.len() as u32, prog: cod.prog }];
    let mut sent: Vec<Vec<Vec<u32>>> = tc.iter().map(|t| t.res.iter().map(|r| vec![0; r.precs.len()]).collect()).collect();
    let mut out = vec![];
    for e in if pocs.is_empty() { &all[..] } else { pocs } {
        let mut v = vec![];
        for (c, t) in tc.iter().enumerate().filter(|(c, _)| (e.cs..e.ce).contains(&(*c as u32))) {
            for (r, q) in t.res.iter().enumerate().filter(|(r, _)| (e.rs..e.re).contains(&(*r as u32))) {
                for (k, p) in q.precs.iter().enumerate() {
                    for l in 0..e.lye.min(cod.layers) {
                        let (l64, r64, c64, k64) = (l as i64, r as i64, c as i64, k as i64);
                        let key = match e.prog {
                            0 => [l64, r64, c64, k64, 0, 0],
                            1 => [r64, l64, c64, k64, 0, 0],
                            2 => [r64, p.y, p.x, c64, k64, l64],
                            3 => [p.y, p.x, c64, r64, k64, l64],
                            _ => [c64, p.y, p.x, r64, k64, l64],
                        };
                        v.push((key, l, r as u32, c, k));
                    }
                }
            }
        }
        v.sort();
        for (_, l, r, c, k) in v {
            let n = &mut sent[c][r as usize][k];
            if *n == l {
                *n += 1;
                out.push((l, r, c, k));
            }
        }
    }
    let done = sent.iter().flatten().flatten().all(|n| *n == cod.layers);
    (out, done)
}
/// reads the header of one packet; returns what each code-block gets: (band, block, passes, segments' bytes)
fn header(p: &mut Prec, mode: u8, l: u32, b: &mut Bits) -> E<Vec<(usize, usize, Vec<(u32, usize)>)>> {
    let mut out = vec![];
    if b.get()? == 0 {
        b.align()?;
        return Ok(out);
    }
    for (bi, pb) in p.bands.iter_mut().enumerate() {
        for i in 0..pb.blks.len() {
            let (x, y) = (i % pb.cw, i / pb.cw);
            let k = &mut pb.blks[i];
            let first = !k.incl;
            let inc = if first { pb.incl.less(b, x, y, l + 1)? } else { b.get()? == 1 };
            if !inc {
                continue;
            }
            if first {
                k.incl = true;
                let mut z = 1;
                while !pb.zero.less(b, x, y, z)? {
                    z += 1;
                    need!(z < 80, "{z} missing bit-planes");
                }
                k.zbp = z - 1;
            }
            let mut n = 1;
            if b.get()? == 1 {
                n = 2;
                if b.get()? == 1 {
                    let v = b.n(2)?;
                    n = 3 + v;
                    if v == 3 {
                        let v = b.n(5)?;
                        n = 6 + v;
                        if v == 31 {
                            n = 37 + b.n(7)?;
                        }
                    }
                }
            }
            while b.get()? == 1 {
                k.lblock += 1;
                need!(k.lblock < 40, "Lblock {}", k.lblock);
            }
            let mut parts = vec![];
            let mut at = k.passes;
            // the last segment may have room
            let mut room = match k.segs.last() {
                Some(s) if s.passes < s.max => s.max - s.passes,
                _ => 0,
            };
            let mut left = n;
            while left > 0 {
                if room == 0 {
                    room = t1::seg_passes(mode, at);
                }
                let m = left.min(room);
                let bytes = b.n(k.lblock + m.ilog2())? as usize;
                parts.push((m, bytes));
                at += m;
                left -= m;
                room = 0;
            }
            out.push((bi, i, parts));
        }
    }
    b.align()?;
    Ok(out)
}
/// Reads all packets of a tile. With `lenient`, stops without error where data ends or is wrong.
pub fn tile(s: &Stream, n: usize, layers: u32, lenient: bool) -> E<Tile> {
    let mut t = Tile::default();
    for c in 0..s.siz.comps.len() {
        t.comps.push(tcomp(s, n, c)?);
    }
    let (ord, all) = order(s, n, &t.comps);
    need!(all, "tile {n}: progression order changes leave packets out");
    let cod = s.cod(n);
    let mut next = ord.iter();
    let parts: Vec<usize> = (0..s.parts.len()).filter(|i| s.parts[*i].tile == n).collect();
    let ppt: Option<Vec<u8>> = parts.iter().any(|i| !s.parts[*i].ppt.is_empty()).then(|| parts.iter().flat_map(|i| s.parts[*i].ppt.iter().flat_map(|p| p.1.iter().copied())).collect());
    need!(ppt.is_none() || s.ppm.is_none(), "PPM and PPT");
    let mut ppt_at = 0;
    let mut nsop = 0u32;
    let mut stop = false;
    'parts: for (pi, &i) in parts.iter().enumerate() {
        let part = &s.parts[i];
        let (mut p, end) = (part.sod_end, part.end);
        let packed: Option<&[u8]> = s.ppm.as_ref().map(|v| &v[i][..]).or(ppt.as_deref());
        let mut hp = if s.ppm.is_some() { 0 } else { ppt_at };
        let last = pi + 1 == parts.len();
        loop {
            let more = p < end || packed.map_or(false, |h| hp < h.len() && (s.ppm.is_some() || last));
            if !more {
                break;
            }
            let Some(&(l, r, c, k)) = next.next() else {
                need!(lenient, "tile {n}: {} bytes after the last packet", end - p);
                break;
            };
            let step = (|| -> E<()> {
                let begin = p;
                let sop = s.data[p..end].starts_with(&[0xff, 0x91]);
                let left = &s.data[p..end.min(p + 4)];
                if lenient && cod.sop && p < end && end - p < 6 && [0xff, 0x91, 0, 4].starts_with(left) {
                    need!(packed.is_some(), "SOP cut short");
                    p = end;
                } else if sop {
                    need!(cod.sop, "SOP which COD does not announce");
                    need!(p + 6 <= end && s.data[p + 2..p + 4] == [0, 4], "SOP");
                    let v = u16::from_be_bytes([s.data[p + 4], s.data[p + 5]]) as u32;
                    need!(v == nsop & 0xffff, "tile {n}: Nsop {v}, expected {nsop}");
                    p += 6;
                }
                nsop += 1;
                let src: &[u8] = match packed {
                    Some(h) => &h[hp..],
                    None => &s.data[p..end],
                };
                let mode = s.spc(n, c).mode;
                let mut b = Bits { d: src, p: 0, cur: 0, left: 0 };
                let prec = &mut t.comps[c].res[r as usize].precs[k];
                need!(prec.next == l, "order");
                prec.next += 1;
                let saved = prec.clone();
                let got = match header(prec, mode, l, &mut b) {
                    Ok(g) => g,
                    Err(e) => {
                        *prec = saved;
                        return Err(format!("tile {n}, packet {} (l{l} r{r} c{c} p{k}): {e}", nsop - 1));
                    }
                };
                let mut used = b.p;
                let hdr = src[..used].to_vec();
                let eph = src[used..].starts_with(&[0xff, 0x92]);
                if eph {
                    need!(cod.eph, "EPH which COD does not announce");
                    used += 2;
                }
                need!(eph || !cod.eph, "tile {n}: no EPH after the header of packet {}", nsop - 1);
                match packed {
                    Some(_) => hp += used,
                    None => p += used,
                }
                let body = p;
                for (bi, ki, segs) in got {
                    let k = &mut prec.bands[bi].blks[ki];
                    let mut total = (0, 0);
                    for (m, bytes) in segs {
                        if p + bytes > end {
                            let e = format!("tile {n}, packet {}: segment of {bytes} bytes, {} left", nsop - 1, end - p);
                            if lenient {
                                // what a cut leaves of a segment counts for nothing
                                p = end;
                            }
                            return Err(e);
                        }
                        let open = matches!(k.segs.last(), Some(s) if s.passes < s.max);
                        if !open {
                            k.segs.push(Sg { passes: 0, max: t1::seg_passes(mode, k.passes), data: vec![] });
                        }
                        let sg = k.segs.last_mut().unwrap();
                        k.passes += m;
                        if l < layers {
                            sg.passes += m;
                            sg.data.extend(&s.data[p..p + bytes]);
                            total = (total.0 + m, total.1 + bytes);
                        } else {
                            // keep count so that later headers are read right
                            sg.max -= m;
                        }
                        p += bytes;
                    }
                    k.contrib.push((l, total.0, total.1));
                }
                t.pks.push(Pk { part: i, l, r, c, k, at: (begin, p), hdr, body: (body, p), sop, eph });
                Ok(())
            })();
            if let Err(e) = step {
                need!(lenient, "{e}");
                stop = true;
                break 'parts;
            }
        }
        if s.ppm.is_none() {
            ppt_at = hp;
        }
        if part.plt.len() > 0 {
            let have: Vec<u32> = t.pks.iter().filter(|k| k.part == i).map(|k| (k.at.1 - k.at.0) as u32).collect();
            need!(have == part.plt || packed.is_some() || lenient, "tile {n}, tile-part {}: PLT says {:?}, packets are {have:?}", part.tpart, part.plt);
        }
    }
    t.missing = next.count() + stop as usize;
    need!(lenient || t.missing == 0, "tile {n}: {} packets missing", t.missing);
    if !lenient {
        for i in &parts {
            let part = &s.parts[*i];
            let sops: HashSet<usize> = t.pks.iter().filter(|k| k.part == *i && k.sop).map(|k| k.at.0).collect();
            let ephs: HashSet<usize> = t.pks.iter().filter(|k| k.part == *i && k.eph).map(|k| k.body.0).collect();
            for q in part.sod_end..part.end {
                if s.data[q] == 0xff && (q + 1 == part.end || s.data[q + 1] >= 0x90) {
                    let known = ephs.contains(&(q + 2)) || (0..6).any(|d| q >= d && sops.contains(&(q - d)));
                    need!(known, "tile {n}: FF {:02x?} at {q} among packets", s.data.get(q + 1));
                }
            }
        }
    }
    Ok(t)
}
