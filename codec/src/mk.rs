//! Writes codestreams from coded code-blocks: headers, packets and their order, all by choice.
use crate::asm::*;
use crate::refdec::pkt::*;
use crate::refdec::stream::*;
use crate::refdec::t1;
use std::collections::HashMap;
use vkit::Tape;

/// what a code-block holds: magnitude bit-planes and codeword segments
#[derive(Clone, Debug, Default)]
pub struct BlkC {
    pub planes: u32,
    pub segs: Vec<(u32, Vec<u8>)>,
    /// how far into its segment each pass reads
    pub reads: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct CompC {
    pub spc: Spc,
    pub qnt: Qnt,
    pub roi: u32,
    pub blocks: HashMap<(usize, usize, (i64, i64, i64, i64)), BlkC>,
}
/// what the tiles of a stream hold [tile][component]
pub fn content(s: &Stream, tiles: &[Tile]) -> Vec<Vec<CompC>> {
    let mut out = vec![];
    for (n, t) in tiles.iter().enumerate() {
        let mut v = vec![];
        for (c, tc) in t.comps.iter().enumerate() {
            let (spc, qnt, roi) = (s.spc(n, c).clone(), s.qnt(n, c).clone(), s.roi(n, c));
            let mut blocks = HashMap::new();
            for (r, res) in tc.res.iter().enumerate() {
                for p in &res.precs {
                    for (bi, pb) in p.bands.iter().enumerate() {
                        let (e, _) = crate::refdec::step(&qnt, spc.levels, &res.bands[bi]).expect("step");
                        for k in pb.blks.iter().filter(|k| k.passes > 0) {
                            let planes = (qnt.guard + e + roi) - 1 - k.zbp;
                            let segs: Vec<(u32, Vec<u8>)> = k.segs.iter().map(|s| (s.passes, s.data.clone())).collect();
                            let mut reads = vec![];
                            let by: Vec<(u32, &[u8])> = segs.iter().map(|s| (s.0, &s.1[..])).collect();
                            t1::decode_with((k.r.2 - k.r.0) as usize, (k.r.3 - k.r.1) as usize, res.bands[bi].orient, spc.mode, planes, &by, |n| reads.push(n)).expect("block");
                            blocks.insert((r, bi, k.r), BlkC { planes, segs, reads });
                        }
                    }
                }
            }
            v.push(CompC { spc, qnt, roi, blocks });
        }
        out.push(v);
    }
    out
}
pub fn spc_bytes(s: &Spc) -> Vec<u8> {
    let mut o = vec![s.levels as u8, (s.xcb - 2) as u8, (s.ycb - 2) as u8, s.mode, s.rev as u8];
    if s.user_prec {
        o.extend(s.prec.iter().map(|p| (p.0 | p.1 << 4) as u8));
    }
    o
}
pub fn cod(k: &Cod, s: &Spc) -> Seg {
    let mut o = vec![s.user_prec as u8 | (k.sop as u8) << 1 | (k.eph as u8) << 2, k.prog];
    o.extend((k.layers as u16).to_be_bytes());
    o.push(k.mct);
    o.extend(spc_bytes(s));
    Seg::new(0xff52, o)
}
fn cnum(nc: usize, c: usize) -> Vec<u8> {
    if nc < 257 {
        vec![c as u8]
    } else {
        (c as u16).to_be_bytes().to_vec()
    }
}
pub fn coc(nc: usize, c: usize, s: &Spc) -> Seg {
    let mut o = cnum(nc, c);
    o.push(s.user_prec as u8);
    o.extend(spc_bytes(s));
    Seg::new(0xff53, o)
}
pub fn qnt_bytes(q: &Qnt) -> Vec<u8> {
    let mut o = vec![(q.guard << 5) as u8 | q.style];
    for (e, m) in &q.steps {
        if q.style == 0 {
            o.push((e << 3) as u8);
        } else {
            o.extend(((e << 11 | m) as u16).to_be_bytes());
        }
    }
    o
}
pub fn qcd(q: &Qnt) -> Seg {
    Seg::new(0xff5c, qnt_bytes(q))
}
pub fn qcc(nc: usize, c: usize, q: &Qnt) -> Seg {
    let mut o = cnum(nc, c);
    o.extend(qnt_bytes(q));
    Seg::new(0xff5d, o)
}
pub fn rgn(nc: usize, c: usize, sh: u32) -> Seg {
    let mut o = cnum(nc, c);
    o.extend([0, sh as u8]);
    Seg::new(0xff5e, o)
}
pub fn poc(nc: usize, v: &[PocE]) -> Seg {
    let mut o = vec![];
    for e in v {
        o.push(e.rs as u8);
        o.extend(cnum(nc, e.cs as usize));
        o.extend((e.lye as u16).to_be_bytes());
        o.push(e.re as u8);
        o.extend(cnum(nc, e.ce as usize));
        o.push(e.prog);
    }
    Seg::new(0xff5f, o)
}

#[derive(Default)]
struct BitW {
    o: Vec<u8>,
    cur: u32,
    n: u32,
}
impl BitW {
    fn put(&mut self, b: u32) {
        let full = if self.o.last() == Some(&0xff) { 7 } else { 8 };
        self.cur = self.cur << 1 | b;
        self.n += 1;
        if self.n == full {
            self.o.push(self.cur as u8);
            self.cur = 0;
            self.n = 0;
        }
    }
    fn bits(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.put(v >> i & 1);
        }
    }
    fn end(mut self) -> Vec<u8> {
        while self.n > 0 {
            self.put(0);
        }
        if self.o.last() == Some(&0xff) {
            self.o.push(0);
        }
        self.o
    }
}
/// tag tree (B.10.2)
struct TagW {
    lev: Vec<(usize, Vec<(u32, u32, bool)>)>,
}
impl TagW {
    fn new(w: usize, h: usize, leaf: impl Fn(usize) -> u32) -> TagW {
        let mut lev: Vec<(usize, Vec<(u32, u32, bool)>)> = vec![];
        if w * h == 0 {
            return TagW { lev };
        }
        lev.push((w, (0..w * h).map(|i| (leaf(i), 0, false)).collect()));
        let (mut w, mut h) = (w, h);
        while w * h > 1 {
            let (w2, h2) = (w.div_ceil(2), h.div_ceil(2));
            let below = &lev.last().unwrap().1;
            let v = (0..w2 * h2)
                .map(|i| {
                    let (x, y) = (i % w2, i / w2);
                    let m = (0..4).filter_map(|k| {
                        let (a, b) = (2 * x + k % 2, 2 * y + k / 2);
                        (a < w && b < h).then(|| below[b * w + a].0)
                    });
                    (m.min().unwrap(), 0, false)
                })
                .collect();
            lev.push((w2, v));
            (w, h) = (w2, h2);
        }
        TagW { lev }
    }
    /// say whether the value of the leaf is less than t
    fn put(&mut self, o: &mut BitW, x: usize, y: usize, t: u32) {
        let mut low = 0;
        for k in (0..self.lev.len()).rev() {
            let (w, v) = &mut self.lev[k];
            let n = &mut v[(y >> k) * *w + (x >> k)];
            n.1 = n.1.max(low);
            while n.1 < t {
                if n.1 >= n.0 {
                    if !n.2 {
                        o.put(1);
                        n.2 = true;
                    }
                    break;
                }
                o.put(0);
                n.1 += 1;
            }
            low = n.1;
        }
    }
}
/// a packet: header without SOP and EPH, body
#[derive(Clone, Debug)]
pub struct PkW {
    pub hdr: Vec<u8>,
    pub body: Vec<u8>,
}
#[derive(Default, Clone)]
struct Plan {
    /// per layer: codeword segment pieces (passes, bytes)
    lay: Vec<Vec<(u32, Vec<u8>)>>,
    zbp: u32,
}
/// spread the passes of a block over the layers
fn plan(t: &mut Tape, b: &BlkC, layers: u32, whole: bool) -> Vec<Vec<(u32, Vec<u8>)>> {
    let mut lay = vec![vec![]; layers as usize];
    let total: u32 = b.segs.iter().map(|s| s.0).sum();
    if layers == 1 || whole {
        let l = if layers == 1 { 0 } else { t.us(0, layers as usize - 1) };
        lay[l] = b.segs.clone();
        return lay;
    }
    // ends of the layers in passes
    let mut ends: Vec<u32> = (0..layers - 1).map(|_| t.u32(0, total)).collect();
    ends.push(total);
    ends.sort();
    let (mut si, mut used, mut at) = (0, 0u32, 0usize);
    let mut done = 0;
    for (l, e) in ends.iter().enumerate() {
        while done < *e {
            let (m, d) = &b.segs[si];
            let k = (*m - used).min(e - done);
            // what the passes read, and maybe more
            let least = b.reads[(done + k - 1) as usize].max(at);
            let mut to = match t.below(3) {
                _ if used + k == *m => d.len(),
                0 => d.len(),
                1 => least,
                _ => t.us(least, d.len()),
            };
            // no piece ends in FF
            while to > at && to < d.len() && d[to - 1] == 0xff {
                to += 1;
            }
            lay[l].push((k, d[at..to].to_vec()));
            at = to;
            used += k;
            done += k;
            if used == *m {
                si += 1;
                used = 0;
                at = 0;
            }
        }
    }
    lay
}
fn npasses(o: &mut BitW, n: u32) {
    match n {
        1 => o.put(0),
        2 => o.bits(0b10, 2),
        3..=5 => o.bits(0b1100 | (n - 3), 4),
        6..=36 => o.bits(0b1111 << 5 | (n - 6), 9),
        _ => o.bits(0x1ff << 7 | (n - 37), 16),
    }
}
/// all packets of a tile by (layer, resolution, component, precinct)
pub fn packets(t: &mut Tape, s: &Stream, tile: usize, tcs: &[TComp], cont: &[CompC]) -> HashMap<(u32, u32, usize, usize), PkW> {
    let layers = s.cod(tile).layers;
    let mut out = HashMap::new();
    let mut r = t.fork();
    // one stream of choices per tile: a tape of its own keeps shrinking simple
    let mut t = Tape::random(r.next());
    let t = &mut t;
    let style = t.below(4);
    for (c, tc) in tcs.iter().enumerate() {
        let (sp, q, roi) = (s.spc(tile, c), s.qnt(tile, c), s.roi(tile, c));
        let mut found = 0;
        for (ri, res) in tc.res.iter().enumerate() {
            for (pi, p) in res.precs.iter().enumerate() {
                let mut trees = vec![];
                let mut plans: Vec<Vec<Plan>> = vec![];
                for (bi, pb) in p.bands.iter().enumerate() {
                    let (e, _) = crate::refdec::step(q, sp.levels, &res.bands[bi]).expect("step");
                    let mb = q.guard + e + roi - 1;
                    let pl: Vec<Plan> = pb
                        .blks
                        .iter()
                        .map(|k| match cont[c].blocks.get(&(ri, bi, k.r)) {
                            Some(b) => {
                                found += 1;
                                Plan { lay: plan(t, b, layers, style == 0), zbp: mb.checked_sub(b.planes).expect("bit-planes") }
                            }
                            None => Plan { lay: vec![vec![]; layers as usize], zbp: t.u32(0, 3) },
                        })
                        .collect();
                    let first = |p: &Plan| p.lay.iter().position(|l| !l.is_empty()).map_or(layers, |x| x as u32);
                    trees.push((TagW::new(pb.cw, pb.ch, |i| first(&pl[i])), TagW::new(pb.cw, pb.ch, |i| pl[i].zbp)));
                    plans.push(pl);
                }
                let mut lblock: Vec<Vec<u32>> = p.bands.iter().map(|b| vec![3; b.blks.len()]).collect();
                let mut seen: Vec<Vec<bool>> = p.bands.iter().map(|b| vec![false; b.blks.len()]).collect();
                for l in 0..layers {
                    let mut o = BitW::default();
                    let mut body = vec![];
                    let some = plans.iter().flatten().any(|p| !p.lay[l as usize].is_empty());
                    if !some && !t.chance(1, 4) {
                        o.put(0);
                        out.insert((l, ri as u32, c, pi), PkW { hdr: o.end(), body });
                        continue;
                    }
                    o.put(1);
                    for (bi, pb) in p.bands.iter().enumerate() {
                        for i in 0..pb.blks.len() {
                            let (x, y) = (i % pb.cw, i / pb.cw);
                            let parts = &plans[bi][i].lay[l as usize];
                            if seen[bi][i] {
                                o.put(!parts.is_empty() as u32);
                            } else {
                                trees[bi].0.put(&mut o, x, y, l + 1);
                            }
                            if parts.is_empty() {
                                continue;
                            }
                            if !seen[bi][i] {
                                seen[bi][i] = true;
                                for z in 1..=plans[bi][i].zbp + 1 {
                                    trees[bi].1.put(&mut o, x, y, z);
                                }
                            }
                            npasses(&mut o, parts.iter().map(|p| p.0).sum());
                            let lb = &mut lblock[bi][i];
                            let need = parts.iter().map(|(m, d)| (usize::BITS - d.len().leading_zeros()).saturating_sub(m.ilog2())).max().unwrap();
                            let mut to = need.max(*lb);
                            if t.chance(1, 12) {
                                to += t.u32(1, 3);
                            }
                            // at most 32 bits of length
                            to = to.min(20.max(need).max(*lb));
                            for _ in *lb..to {
                                o.put(1);
                            }
                            o.put(0);
                            *lb = to;
                            for (m, d) in parts {
                                o.bits(d.len() as u32, to + m.ilog2());
                                body.extend(d);
                            }
                        }
                    }
                    out.insert((l, ri as u32, c, pi), PkW { hdr: o.end(), body });
                }
            }
        }
        assert_eq!(found, cont[c].blocks.len(), "blocks of tile {tile} component {c}");
    }
    out
}
