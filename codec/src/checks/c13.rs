//! C13: conforming codestreams which the encoder of the library does not write.
use super::c12::{compare, tolerance};
use super::common::*;
use crate::asm::*;
use crate::gen::*;
use crate::mk::*;
use crate::refdec::pkt::*;
use crate::refdec::stream::*;
use crate::refdec::{self, stream};
use crate::w::*;
use std::collections::HashMap;
use vkit::*;

const MAXP: u32 = 15;

/// other precincts in which the code-blocks stay the same
fn other_precincts(t: &mut Tape, s: &mut Spc) {
    let mut any = false;
    for r in 0..=s.levels as usize {
        let sub = (r > 0) as u32;
        let (px, py) = s.prec[r];
        let mut f = |p: u32, cb: u32, t: &mut Tape| {
            if p - sub >= cb {
                match t.below(3) {
                    0 => MAXP,
                    1 => cb + sub,
                    _ => t.u32(cb + sub, MAXP),
                }
            } else {
                p
            }
        };
        s.prec[r] = (f(px, s.xcb, t), f(py, s.ycb, t));
        any |= s.prec[r] != (15, 15);
    }
    s.user_prec = any || t.chance(1, 4);
}
/// other exponents and mantissas for the same coefficients
fn other_steps(t: &mut Tape, k: &mut CompC) {
    let nl = k.spc.levels;
    let nb = 3 * nl as usize + 1;
    // most bit-planes any block of a band has
    let mut need = vec![0u32; nb];
    for ((r, b, _), blk) in &k.blocks {
        let i = if *r == 0 { 0 } else { 3 * (r - 1) + b + 1 };
        need[i] = need[i].max(blk.planes);
    }
    let old = k.qnt.clone();
    let step = |i: usize| -> (u32, u32) {
        if old.style == 1 {
            let (e, m) = old.steps[0];
            let lev = if i == 0 { nl } else { nl - (i as u32 - 1) / 3 };
            ((e + lev).saturating_sub(nl), m)
        } else {
            old.steps[i]
        }
    };
    let mut q = Qnt { style: old.style, guard: old.guard, steps: vec![] };
    if k.spc.rev {
        // reversible: exponents only bound the bit-planes
        let d = t.range(-2, 4);
        q.guard = t.u32(0, 7);
        q.steps = (0..nb).map(|i| ((step(i).0 as i64 + d + t.range(-1, 1)).clamp(1, 31) as u32, 0)).collect();
    } else if t.chance(1, 2) {
        // derived from the one of the LL band
        q.style = 1;
        let (e, _) = step(0);
        q.steps = vec![((e as i64 + t.range(-1, 2)).clamp(nl as i64 + 1, 31) as u32, t.below(2048) as u32)];
    } else {
        q.style = 2;
        q.steps = (0..nb).map(|i| ((step(i).0 as i64 + t.range(-1, 1)).clamp(1, 31) as u32, t.below(2048) as u32)).collect();
    }
    // guard bits so that no block has more bit-planes than its band
    let mut fits = |q: &Qnt| -> bool {
        (0..nb).all(|i| {
            let e = if q.style == 1 {
                let lev = if i == 0 { nl } else { nl - (i as u32 - 1) / 3 };
                match (q.steps[0].0 + lev).checked_sub(nl) {
                    Some(e) => e,
                    None => return false,
                }
            } else {
                q.steps[i].0
            };
            q.guard + e + k.roi >= need[i] + 1 && q.guard + e >= 1 && q.guard + e + k.roi <= 31
        })
    };
    while q.guard < 7 && !fits(&q) {
        q.guard += 1;
    }
    if fits(&q) {
        k.qnt = q;
    }
}
fn mct_fits(s: &Siz, v: &[CompC]) -> bool {
    v.len() >= 3 && (1..3).all(|i| (s.comps[i].dx, s.comps[i].dy) == (s.comps[0].dx, s.comps[0].dy) && v[i].spc.rev == v[0].spc.rev && v[i].spc.levels == v[0].spc.levels)
}
fn some_pocs(t: &mut Tape, layers: u32, maxr: u32, nc: u32) -> Vec<PocE> {
    let mut v: Vec<PocE> = (0..t.us(0, 4))
        .map(|_| {
            let rs = t.u32(0, maxr - 1);
            let cs = t.u32(0, nc - 1);
            let lye = if t.chance(1, 6) { layers + t.u32(1, 3) } else { t.u32(1, layers) };
            let ce = if t.chance(1, 6) { if nc < 257 { 256 } else { 16384 } } else { t.u32(cs + 1, nc) };
            PocE { rs, cs, lye, re: t.u32(rs + 1, maxr + 1), ce, prog: t.below(5) as u8 }
        })
        .collect();
    v.push(PocE { rs: 0, cs: 0, lye: layers, re: maxr, ce: nc, prog: t.below(5) as u8 });
    v
}
/// a marker no decoder knows
fn unknown(t: &mut Tape, n: usize) -> Seg {
    if t.chance(1, 4) {
        return Seg { m: 0xff30 + t.below(16) as u16, d: None, len: None };
    }
    let m = *t.pick(&[0xff65u16, 0xff66, 0xff67, 0xff68, 0xff69, 0xff6a, 0xff6b, 0xff6c, 0xff5a, 0xff5b, 0xff62, 0xff79, 0xff01, 0xff2f, 0xff40, 0xfff0]);
    let mut d = t.bytes(n);
    if n >= 4 && t.bool() {
        // looks like a marker inside
        let at = t.us(0, n - 2);
        d[at] = 0xff;
        d[at + 1] = *t.pick(&[0x90u8, 0x52, 0x53, 0x5c, 0x93, 0xd9, 0x60]);
    }
    Seg::new(m, d)
}
pub struct Made {
    pub bytes: Vec<u8>,
    pub what: Vec<&'static str>,
}
/// a codestream of this content, written in one of the many ways there are
pub fn assemble(t: &mut Tape, siz: &Seg, z: &Siz, cont: &[Vec<CompC>], mct: &[bool], extra: &[Seg]) -> Made {
    let nc = z.comps.len();
    let nt = cont.len();
    let mut what = vec![];
    // parameters of the tiles
    let most = 1 + t.small(0, 6) as u32;
    let layers0 = t.u32(1, most);
    let base = Cod { sop: t.chance(1, 4), eph: t.chance(1, 4), prog: t.below(5) as u8, layers: layers0, mct: mct[0] as u8 };
    let vary = nt > 1 && t.chance(1, 3);
    let sg: Vec<Cod> = (0..nt)
        .map(|i| {
            let mut k = base.clone();
            k.mct = mct[i] as u8;
            if vary && t.bool() {
                k = Cod { sop: t.chance(1, 4), eph: t.chance(1, 4), prog: t.below(5) as u8, layers: t.u32(1, 4), mct: k.mct };
            }
            k
        })
        .collect();
    // main header
    let pick = |t: &mut Tape| (t.us(0, nt - 1), t.us(0, nc - 1));
    let (a, b) = pick(t);
    let mut mcod = sg[a].clone();
    mcod.mct = mct[a] as u8;
    let mspc = cont[a][b].spc.clone();
    let (a2, b2) = if t.chance(3, 4) { (a, b) } else { pick(t) };
    let mqnt = cont[a2][b2].qnt.clone();
    let mut hdr = vec![cod(&mcod, &mspc), qcd(&mqnt)];
    let (mut mcoc, mut mqcc, mut mrgn) = (vec![None; nc], vec![None; nc], vec![None; nc]);
    for c in 0..nc {
        let d = if t.chance(3, 4) { t.us(0, nt - 1) } else { a };
        let k = &cont[d][if t.chance(7, 8) { c } else { t.us(0, nc - 1) }];
        if (k.spc != mspc && t.chance(5, 6)) || t.chance(1, 10) {
            mcoc[c] = Some(k.spc.clone());
            hdr.push(coc(nc, c, &k.spc));
        }
        if (k.qnt != mqnt && t.chance(5, 6)) || t.chance(1, 10) {
            mqcc[c] = Some(k.qnt.clone());
            hdr.push(qcc(nc, c, &k.qnt));
        }
        if k.roi > 0 || t.chance(1, 12) {
            mrgn[c] = Some(k.roi);
            hdr.push(rgn(nc, c, k.roi));
        }
    }
    if mcoc.iter().any(|x| x.is_some()) {
        what.push("main COC");
    }
    if mqcc.iter().any(|x| x.is_some()) {
        what.push("main QCC");
    }
    let maxr = |i: usize| cont[i].iter().map(|k| k.spc.levels + 1).max().unwrap();
    let main_poc = t.chance(1, 8).then(|| {
        let l = sg.iter().map(|k| k.layers).max().unwrap();
        some_pocs(t, l, (0..nt).map(maxr).max().unwrap(), nc as u32)
    });
    if let Some(v) = &main_poc {
        what.push("main POC");
        hdr.push(poc(nc, v));
    }
    hdr.extend(extra.iter().cloned());
    // headers of the tiles
    let mut th: Vec<Vec<Seg>> = vec![];
    for i in 0..nt {
        let mut h = vec![];
        let mut tspc = None;
        // one COD for the tile where its parameters differ
        let k = &cont[i][t.us(0, nc - 1)];
        if sg[i] != mcod || t.chance(1, 8) {
            tspc = Some(k.spc.clone());
            h.push(cod(&sg[i], &k.spc));
            what.push("tile COD");
        }
        for c in 0..nc {
            let eff = tspc.as_ref().unwrap_or(mcoc[c].as_ref().unwrap_or(&mspc));
            if *eff != cont[i][c].spc || t.chance(1, 16) {
                h.push(coc(nc, c, &cont[i][c].spc));
                what.push("tile COC");
            }
        }
        let mut tq = None;
        let differ = (0..nc).filter(|c| *mqcc[*c].as_ref().unwrap_or(&mqnt) != cont[i][*c].qnt).count();
        if (differ > 0 && t.chance(2, 3)) || t.chance(1, 12) {
            tq = Some(cont[i][t.us(0, nc - 1)].qnt.clone());
            h.push(qcd(tq.as_ref().unwrap()));
            what.push("tile QCD");
        }
        for c in 0..nc {
            let eff = tq.as_ref().unwrap_or(mqcc[c].as_ref().unwrap_or(&mqnt));
            if *eff != cont[i][c].qnt || t.chance(1, 16) {
                h.push(qcc(nc, c, &cont[i][c].qnt));
                what.push("tile QCC");
            }
            if mrgn[c].unwrap_or(0) != cont[i][c].roi || t.chance(1, 16) {
                h.push(rgn(nc, c, cont[i][c].roi));
                what.push("tile RGN");
            }
        }
        if t.chance(1, 12) {
            let v = some_pocs(t, sg[i].layers, maxr(i), nc as u32);
            h.push(poc(nc, &v));
            what.push("tile POC");
        }
        if t.chance(1, 3) {
            t.shuffle(&mut h);
            what.push("tile header shuffled");
        }
        th.push(h);
    }
    if t.chance(1, 3) {
        t.shuffle(&mut hdr);
        what.push("main header shuffled");
    }
    // as if all packets were empty: which packets are there, and in which order?
    let bare = Cs {
        main: [vec![Seg { m: 0xff4f, d: None, len: None }, siz.clone()], hdr.clone()].concat(),
        parts: (0..nt).map(|i| Part { tile: i as u16, psot: None, tp: 0, ntp: 1, segs: th[i].clone(), body: vec![] }).collect(),
        tail: vec![0xff, 0xd9],
    };
    let st = stream::parse(&bare.build()).expect("headers");
    for i in 0..nt {
        for c in 0..nc {
            assert_eq!(*st.spc(i, c), cont[i][c].spc, "tile {i} component {c}");
            assert_eq!(*st.qnt(i, c), cont[i][c].qnt, "tile {i} component {c}");
            assert_eq!(st.roi(i, c), cont[i][c].roi, "tile {i} component {c}");
        }
    }
    let ppm = t.chance(1, 10);
    // tile-parts: packets each holds
    let mut parts: Vec<Vec<Part>> = vec![];
    let mut heads: Vec<Vec<Vec<u8>>> = vec![];
    for i in 0..nt {
        let tcs: Vec<TComp> = (0..nc).map(|c| tcomp(&st, i, c).expect("geometry")).collect();
        let (ord, all) = order(&st, i, &tcs);
        assert!(all, "packets of tile {i}");
        let pk = packets(t, &st, i, &tcs, &cont[i]);
        let n = if t.chance(1, 2) { 1 } else { t.us(1, 1 + ord.len().min(5)) };
        let mut cuts: Vec<usize> = (1..n).map(|_| t.us(0, ord.len())).collect();
        cuts.push(ord.len());
        // progression order changes which come with a later tile-part
        let mut later = None;
        let np = st.tiles[i].poc.len();
        if np > 1 && t.chance(1, 2) {
            let j = t.us(1, np - 1);
            let mut some = st.clone();
            some.tiles[i].poc.truncate(j);
            let begin = order(&some, i, &tcs).0.len();
            cuts.push(begin);
            later = Some((j, begin));
        }
        cuts.sort();
        if cuts.len() > 1 {
            what.push("tile-parts");
        }
        let ppt = !ppm && t.chance(1, 10);
        let plt = t.chance(1, 6);
        let cod = st.cod(i);
        let (mut v, mut hs) = (vec![], vec![]);
        let mut at = 0;
        let all_sop = t.bool();
        let ntp = t.below(3);
        for (k, e) in cuts.iter().enumerate() {
            let (mut body, mut head, mut lens) = (vec![], vec![], vec![]);
            for (j, id) in ord[at..*e].iter().enumerate() {
                let p = &pk[id];
                let begin = body.len();
                if cod.sop && (all_sop || (!ppm && !ppt && t.bool())) {
                    body.extend([0xff, 0x91, 0, 4]);
                    body.extend(((at + j) as u16).to_be_bytes());
                }
                let h = if ppm || ppt { &mut head } else { &mut body };
                h.extend(&p.hdr);
                if cod.eph {
                    h.extend([0xff, 0x92]);
                }
                body.extend(&p.body);
                lens.push(body.len() - begin);
            }
            let from = at;
            at = *e;
            let mut segs = if k == 0 { th[i].clone() } else { vec![] };
            if let Some((j, begin)) = later {
                let pocs = &st.tiles[i].poc;
                if k == 0 {
                    *segs.iter_mut().find(|s| s.m == 0xff5f).unwrap() = poc(nc, &pocs[..j]);
                } else if from <= begin && (*e > begin || t.bool()) {
                    segs.push(poc(nc, &pocs[j..]));
                    what.push("POC in a later tile-part");
                    later = None;
                }
            }
            if plt && !ppm && !ppt {
                what.push("PLT");
                let mut d = vec![0];
                for l in lens {
                    let mut w = vec![(l & 127) as u8];
                    let mut l = l >> 7;
                    while l > 0 {
                        w.push((l & 127) as u8 | 128);
                        l >>= 7;
                    }
                    w.reverse();
                    d.extend(w);
                }
                segs.push(Seg::new(0xff58, d));
            }
            let ntp = match ntp {
                0 => cuts.len() as u8,
                1 => 0,
                _ => {
                    if k + 1 == cuts.len() {
                        cuts.len() as u8
                    } else {
                        0
                    }
                }
            };
            v.push(Part { tile: i as u16, psot: None, tp: k as u8, ntp, segs, body });
            hs.push(head);
        }
        if ppt {
            // the headers of a tile-part's packets in its own header or an earlier one
            let mut to: Vec<Vec<u8>> = vec![vec![]; hs.len()];
            let spread = t.below(3);
            let mut at = 0;
            for (k, h) in hs.iter().enumerate() {
                at = match spread {
                    0 => 0,
                    1 => k,
                    _ => t.us(at, k),
                };
                to[at].extend(h);
            }
            let mut z = 0;
            for (k, all) in to.iter().enumerate().filter(|x| !x.1.is_empty()) {
                what.push(if k > 0 { "PPT in a later tile-part" } else { "PPT" });
                let n = t.us(1, 3);
                let mut cut: Vec<usize> = (1..n).map(|_| t.us(1, all.len())).collect();
                cut.push(all.len());
                cut.extend((60000..all.len()).step_by(60000));
                cut.sort();
                cut.dedup();
                let mut from = 0;
                let mut segs = vec![];
                for e in cut {
                    segs.push(Seg::new(0xff61, [vec![z], all[from..e].to_vec()].concat()));
                    z += 1;
                    from = e;
                }
                if t.chance(1, 3) {
                    t.shuffle(&mut segs);
                }
                v[k].segs.extend(segs);
            }
        }
        if t.chance(1, 8) {
            let k = t.us(0, v.len() - 1);
            let at = t.us(0, v[k].segs.len());
            let n = t.us(0, 9);
            v[k].segs.insert(at, Seg::new(0xff64, [vec![0, t.below(2) as u8], t.bytes(n)].concat()));
            what.push("tile COM");
        }
        if t.chance(1, 10) {
            let k = t.us(0, v.len() - 1);
            let at = t.us(0, v[k].segs.len());
            let n = t.us(0, 20);
            v[k].segs.insert(at, unknown(t, n));
            what.push("unknown segment in a tile");
        }
        parts.push(v);
        heads.push(hs);
    }
    // order of the tile-parts of different tiles
    let mut seq: Vec<usize> = parts.iter().enumerate().flat_map(|(i, v)| vec![i; v.len()]).collect();
    if nt > 1 && t.chance(1, 2) {
        t.shuffle(&mut seq);
        what.push("tiles out of order");
    }
    let mut next = vec![0; nt];
    let mut out = vec![];
    let mut ph = vec![];
    for i in seq {
        out.push(parts[i][next[i]].clone());
        ph.push(heads[i][next[i]].clone());
        next[i] += 1;
    }
    if ppm {
        what.push("PPM");
        // a segment breaks off anywhere but within a length
        let mut segs: Vec<Vec<u8>> = vec![vec![]];
        for h in &ph {
            if t.chance(1, 4) {
                segs.push(vec![]);
            }
            segs.last_mut().unwrap().extend((h.len() as u32).to_be_bytes());
            for b in h {
                if t.chance(1, 40) || segs.last().unwrap().len() > 60000 {
                    segs.push(vec![]);
                }
                segs.last_mut().unwrap().push(*b);
            }
        }
        let mut v: Vec<Seg> = segs.into_iter().filter(|s| !s.is_empty()).enumerate().map(|(i, s)| Seg::new(0xff60, [vec![i as u8], s].concat())).collect();
        if v.len() > 255 {
            // too many for the index: as few as possible
            let all: Vec<u8> = ph.iter().flat_map(|h| [&(h.len() as u32).to_be_bytes()[..], h].concat()).collect();
            v = all.chunks(60000).enumerate().map(|(i, s)| Seg::new(0xff60, [vec![i as u8], s.to_vec()].concat())).collect();
        }
        if t.chance(1, 3) {
            t.shuffle(&mut v);
        }
        hdr.extend(v);
    }
    if t.chance(1, 6) {
        let tt = if nt < 256 { t.below(3) } else { 2 };
        let long = out.iter().any(|p| p.len() > 65535) || t.bool();
        // without tile numbers tiles have to be in order and whole
        let tt = if tt == 0 && !out.iter().enumerate().all(|(i, p)| p.tile as usize == i) { 2 } else { tt };
        let mut d = vec![0, (tt as u8) << 4 | (long as u8) << 6];
        for p in &out {
            match tt {
                0 => {}
                1 => d.push(p.tile as u8),
                _ => d.extend(p.tile.to_be_bytes()),
            }
            if long {
                d.extend((p.len() as u32).to_be_bytes());
            } else {
                d.extend((p.len() as u16).to_be_bytes());
            }
        }
        hdr.push(Seg::new(0xff55, d));
        what.push("TLM");
    }
    for _ in 0..t.small(0, 3) {
        let at = t.us(0, hdr.len());
        let n = t.us(0, 30);
        let s = match t.below(3) {
            0 => Seg::new(0xff64, [vec![0, t.below(2) as u8], t.bytes(n)].concat()),
            1 => Seg::new(0xff63, t.bytes(4 * nc)),
            _ => {
                what.push("unknown segment");
                unknown(t, n)
            }
        };
        if s.m != 0xff63 || hdr.iter().all(|k| k.m != 0xff63) {
            hdr.insert(at, s);
        }
    }
    if t.chance(1, 12) {
        out.last_mut().unwrap().psot = Some(0);
        what.push("Psot 0");
    }
    let cs = Cs { main: [vec![Seg { m: 0xff4f, d: None, len: None }, siz.clone()], hdr].concat(), parts: out, tail: vec![0xff, 0xd9] };
    what.sort();
    what.dedup();
    Made { bytes: cs.build(), what }
}
pub struct Built {
    pub im: Img,
    pub cfgs: Vec<EncCfg>,
    pub made: Made,
    pub st: stream::Stream,
    pub cont: Vec<Vec<CompC>>,
    pub mix: bool,
    pub precs: bool,
    pub steps: bool,
}
impl Built {
    /// the fewest decomposition levels, the most layers
    pub fn levels_layers(&self) -> (u32, u32) {
        let st = &self.st;
        let spcs = |h: &Hdr| h.cod.iter().map(|k| k.1.levels).chain(h.coc.iter().flatten().map(|k| k.levels)).min().unwrap_or(32);
        let levels = st.tiles.iter().map(spcs).min().unwrap().min(spcs(&st.main));
        (levels, (0..self.cont.len()).map(|i| st.cod(i).layers).max().unwrap())
    }
}
/// a conforming codestream put together from coded blocks
pub fn assembled(c: &mut Ctx, lim: &Lim) -> Result<Option<Built>, Fail> {
    let (im, g) = any_cfg(c, lim);
    let mut cfgs = vec![g.clone()];
    for _ in 0..c.t.weighted(&[2, 3, 1]) {
        // another way of coding the same image in the same tiles
        let mut h = structure(&mut c.t, &im);
        (h.tile, h.tile_off) = (g.tile, g.tile_off);
        h.numres = h.numres.min(6);
        clamp_res(&im, &mut h);
        h.prec_sizes.truncate(h.numres as usize);
        h.irreversible = c.t.bool();
        if h.irreversible {
            lossy_layers(&mut c.t, &mut h);
        }
        h.mct = 0;
        roi(&mut c.t, &im, &mut h);
        cfgs.push(h);
    }
    let mut variants = vec![];
    let mut siz = None;
    for h in &mut cfgs {
        h.tp = None;
        let Ok(b) = encode(&im, h, Fmt::J2k) else { continue };
        let st = match stream::parse(&b) {
            Ok(s) => s,
            Err(_) => continue, // C12's business
        };
        let Ok(o) = refdec::decode(&st, 0, u32::MAX) else { continue };
        siz = Cs::parse(&b).and_then(|s| s.find(0xff51).cloned()).map(|s| (s, st.siz.clone()));
        variants.push((content(&st, &o.tiles), st.main.cod.as_ref().unwrap().0.mct == 1));
    }
    let Some((siz, z)) = siz else {
        c.label("not-encoded");
        return Ok(None);
    };
    // which variant codes which tile-component
    let mix = variants.len() > 1;
    let per = c.t.below(3);
    let (nt, nc) = (variants[0].0.len(), im.comps.len());
    let fixed: Vec<usize> = (0..nc).map(|_| c.t.us(0, variants.len() - 1)).collect();
    let mut cont: Vec<Vec<CompC>> = vec![];
    let mut mct = vec![];
    for i in 0..nt {
        let v0 = if mix { c.t.us(0, variants.len() - 1) } else { 0 };
        let row: Vec<usize> = (0..nc)
            .map(|k| match per {
                0 => v0,
                // a component keeps its variant in all tiles
                1 => fixed[k],
                _ if mix && c.t.bool() => c.t.us(0, variants.len() - 1),
                _ => v0,
            })
            .collect();
        let comps: Vec<CompC> = row.iter().enumerate().map(|(k, v)| variants[*v].0[i][k].clone()).collect();
        let whole = row.iter().all(|v| *v == row[0]);
        mct.push(if whole && variants[row[0]].1 { true } else { mct_fits(&z, &comps) && c.t.chance(1, 8) });
        cont.push(comps);
    }
    let (np, ns) = (c.t.below(3) as u64, c.t.below(3) as u64);
    let (mut precs, mut steps) = (false, false);
    // for all tiles alike, or for each by itself
    let alike = c.t.bool().then(|| c.t.fork().next());
    for row in &mut cont {
        for (k, x) in row.iter_mut().enumerate() {
            let mut own;
            let t = match alike {
                Some(s) => {
                    own = Tape::random(s ^ k as u64);
                    &mut own
                }
                None => &mut c.t,
            };
            if np > 0 && t.chance(np, 3) {
                let old = x.spc.clone();
                other_precincts(t, &mut x.spc);
                precs |= old != x.spc;
            }
            if ns > 0 && t.chance(ns, 3) {
                let old = x.qnt.clone();
                other_steps(t, x);
                steps |= old != x.qnt;
            }
        }
    }
    let made = assemble(&mut c.t, &siz, &z, &cont, &mct, &[]);
    let st = match stream::parse(&made.bytes) {
        Ok(s) => s,
        Err(e) => return Err(Fail { sig: "harness".into(), msg: format!("assembled stream: {e}") }),
    };
    for w in &made.what {
        c.label(*w);
    }
    c.label_if(mix && per > 0, "components mixed");
    c.label_if(precs, "other precincts");
    c.label_if(steps, "other steps");
    Ok(Some(Built { im, cfgs, made, st, cont, mix, precs, steps }))
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 3500, ..Lim::default() };
    let Some(built) = assembled(c, &lim)? else { return Ok(()) };
    let (levels, layers) = built.levels_layers();
    let Built { im, cfgs, made, st, cont, mix, precs, steps } = built;
    let g = cfgs[0].clone();
    let nt = cont.len();
    let blocks = cont.iter().flatten().map(|k| k.blocks.len()).sum::<usize>();
    c.count("code-blocks", blocks as u64);
    if blocks > 0 && (!made.what.is_empty() || mix || precs || steps) {
        c.nontrivial();
    }
    let reduce = if c.t.chance(1, 3) { c.t.u32(0, levels) } else { 0 };
    let cut = if c.t.chance(1, 4) { c.t.u32(1, layers) } else { 0 };
    c.describe(|| format!("{} {}; {} tiles, {:?}; reduce {reduce} layers {cut} of {layers}; {} bytes", im.brief(), cfgs.iter().map(|g| g.brief()).collect::<Vec<_>>().join(" | "), nt, made.what, made.bytes.len()));
    let out = match refdec::decode(&st, reduce, if cut == 0 { u32::MAX } else { cut }) {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("assembled stream: {e}")),
    };
    let o = DecOpts { reduce, layers: cut, ..Default::default() };
    let got = match decode(&made.bytes, Fmt::J2k, &o) {
        Ok(g) => g,
        Err(e) => return fail("decode-refused", e.text()),
    };
    compare(&out.planes, &got, 4 * tolerance(&im), "decoded")?;
    if c.t.chance(1, 6) {
        // tile by tile
        let s = super::common::Stream { im: im.clone(), g: g.clone(), f: Fmt::J2k, bytes: made.bytes.clone() };
        if c.t.chance(2, 3) {
            c.label("tiles by index");
            super::c16::by_index(c, &s, &o, &got, nt as u32)?;
        } else {
            super::c16::in_sequence(c, &s, &o, &got, nt as u32)?;
        }
    }
    if c.t.chance(1, 4) {
        // a part of it
        let r = rect(&mut c.t, &im);
        let p = match decode(&made.bytes, Fmt::J2k, &DecOpts { area: Some(r), ..o }) {
            Ok(p) => p,
            Err(e) => return fail("region-refused", format!("{r:?}: {}", e.text())),
        };
        same_as_crop(&got, &p, clip(r, &im), reduce)?;
        c.label("region");
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "the codestream holds coded code-blocks and is written in a way the encoder does not use", ..Prop::new("C13", run) }
}
