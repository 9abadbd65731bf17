//! Generators of images and encoder configurations (all choices on the tape; 0 = simplest).

use crate::w::*;
use vkit::{Ctx, Tape};

#[derive(Clone, Debug)]
pub struct Lim {
    pub max_dim: u32,
    pub max_area: u32,
    pub max_comps: usize,
    pub max_prec: u32,
    pub offsets: bool,
    pub subsampling: bool,
    pub mixed_prec: bool,
    pub signed: bool,
}
impl Default for Lim {
    fn default() -> Self {
        Lim { max_dim: 140, max_area: 12_000, max_comps: 4, max_prec: 16, offsets: true, subsampling: true, mixed_prec: true, signed: true }
    }
}

pub fn dim(t: &mut Tape, max: u32) -> u32 {
    let v = match t.weighted(&[4, 5, 4, 1]) {
        0 => t.u32(1, 9),
        1 => t.u32(1, 36),
        2 => t.u32(1, 80),
        _ => t.u32(1, max),
    };
    v.min(max)
}
/// canvas geometry and component layout, no samples yet
pub fn layout(t: &mut Tape, l: &Lim) -> Img {
    let w = dim(t, l.max_dim);
    let mut h = dim(t, l.max_dim);
    let nc = match t.weighted(&[6, 1, 6, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 4,
        _ => t.us(1, l.max_comps.max(5)),
    }
    .min(l.max_comps);
    while w * h * nc as u32 > l.max_area && h > 1 {
        h = (h / 2).max(1);
    }
    let (x0, y0) = if l.offsets && t.chance(2, 5) { (off(t), off(t)) } else { (0, 0) };
    let (x1, y1) = (x0 + w, y0 + h);
    let mut comps = vec![];
    let sub = l.subsampling && t.chance(1, 4);
    let prec0 = prec(t, l.max_prec);
    let sg0 = l.signed && t.chance(1, 4);
    let mixed = l.mixed_prec && t.chance(1, 5);
    for _ in 0..nc {
        let (mut dx, mut dy) = if sub { (*t.pick(&[1u32, 2, 1, 3, 4, 2]), *t.pick(&[1u32, 2, 1, 3, 4, 2])) } else { (1, 1) };
        // every component must have at least one sample
        while ceil_div(x1, dx) <= ceil_div(x0, dx) {
            dx -= 1;
        }
        while ceil_div(y1, dy) <= ceil_div(y0, dy) {
            dy -= 1;
        }
        let p = if mixed { prec(t, l.max_prec) } else { prec0 };
        let sgnd = if mixed && l.signed { t.bool() } else { sg0 };
        let cx0 = ceil_div(x0, dx);
        let cy0 = ceil_div(y0, dy);
        comps.push(Comp { dx, dy, w: ceil_div(x1, dx) - cx0, h: ceil_div(y1, dy) - cy0, x0: cx0, y0: cy0, prec: p, sgnd, alpha: 0, factor: 0, data: vec![] });
    }
    let color = match nc {
        1 | 2 => *t.pick(&[2, 0]),
        3 | 4 => *t.pick(&[1, 0, 3]),
        _ => 0,
    };
    Img { x0, y0, x1, y1, color, icc: vec![], comps }
}
fn off(t: &mut Tape) -> u32 {
    match t.weighted(&[5, 2, 1]) {
        0 => t.u32(0, 12),
        1 => t.u32(0, 100),
        _ => t.u32(0, 5000),
    }
}
pub fn prec(t: &mut Tape, max: u32) -> u32 {
    match t.weighted(&[6, 2, 2, 3]) {
        0 => 8.min(max),
        1 => 12.min(max),
        2 => 16.min(max),
        _ => t.u32(1, max),
    }
}
pub fn fill(t: &mut Tape, im: &mut Img) {
    let kind0 = t.weighted(&[2, 4, 3, 3, 2, 2, 2, 2]);
    for ci in 0..im.comps.len() {
        let kind = if ci > 0 && t.chance(1, 6) { t.weighted(&[2, 4, 3, 3, 2, 2, 2, 2]) } else { kind0 };
        let mut r = t.fork();
        let c = &mut im.comps[ci];
        let (lo, hi) = (c.lo(), c.hi());
        let span = hi - lo + 1;
        let (w, h) = (c.w as i64, c.h as i64);
        let mut d = Vec::with_capacity((w * h) as usize);
        let a = (r.next() % 61) as i64 - 30;
        let b = (r.next() % 61) as i64 - 30;
        let k = 1 + (r.next() % 9) as i64;
        let base = lo + (r.next() as i64 & i64::MAX) % span;
        for y in 0..h {
            for x in 0..w {
                let rnd = (r.next() >> 16) as i64;
                let v = match kind {
                    0 => base,                                             // flat
                    1 => (span / 2 + a * x * span / 2048 + b * y * span / 2048 + rnd % 5 - 2) % span + lo, // smooth + noise
                    2 => lo + rnd % span,                                  // noise
                    3 => if ((x / k) + (y / k)) % 2 == 0 { lo } else { hi }, // blocks at the extremes
                    4 => if rnd % 23 == 0 { lo + (rnd / 23) % span } else { lo }, // sparse
                    5 => if rnd & 1 == 0 { lo } else { hi },               // extreme noise
                    6 => if x == y || x == w - 1 || y == 0 { hi } else { base }, // lines
                    _ => lo + ((x * x * k + y * y * 3) * span / (w * w + h * h + 1)).rem_euclid(span),
                };
                d.push(v.clamp(lo, hi) as i32);
            }
        }
        c.data = d;
    }
}
pub fn image(t: &mut Tape, l: &Lim) -> Img {
    let mut im = layout(t, l);
    fill(t, &mut im);
    im
}

/// structural coding choices shared by all encoder checks (valid by construction)
pub fn structure(t: &mut Tape, im: &Img) -> EncCfg {
    let mut c = EncCfg::default();
    let (w, h) = (im.x1 - im.x0, im.y1 - im.y0);
    c.numres = match t.weighted(&[3, 5, 1]) {
        0 => 6,
        1 => t.range(1, 6) as i32,
        _ => t.range(1, 12) as i32,
    };
    if t.chance(1, 2) {
        let tw = tile_dim(t, w);
        let th = tile_dim(t, h);
        // offset of the tile grid: at or before the image origin, first tile not empty
        let ox = if im.x0 > 0 && t.bool() { im.x0 - t.u32(0, im.x0.min(tw - 1)) } else if im.x0 < tw { 0 } else { im.x0 };
        let oy = if im.y0 > 0 && t.bool() { im.y0 - t.u32(0, im.y0.min(th - 1)) } else if im.y0 < th { 0 } else { im.y0 };
        c.tile = Some((tw as i32, th as i32));
        c.tile_off = (ox as i32, oy as i32);
    }
    clamp_res(im, &mut c);
    if t.chance(1, 2) {
        let cw = t.us(2, 10).min(10);
        let ch = t.us(2, 10).min(12 - cw).max(2);
        c.cblk = (1 << cw, 1 << ch);
    }
    if t.chance(1, 3) {
        c.mode = t.range(0, 63) as i32;
    }
    if t.chance(1, 3) {
        c.csty |= (t.below(4) as i32) << 1;
    }
    if t.chance(1, 3) {
        let n = t.us(1, c.numres as usize);
        for _ in 0..n {
            c.prec_sizes.push((1 << t.us(1, 8), 1 << t.us(1, 8)));
        }
    }
    c.prog = t.range(0, 4) as i32;
    if im.comps.len() >= 3 && same3(im) && t.chance(3, 5) {
        c.mct = 1;
    }
    if t.chance(1, 4) {
        c.tp = Some(*t.pick(&[b'R', b'L', b'C', b'P']));
    }
    c.plt = t.chance(1, 6);
    c.tlm = t.chance(1, 6);
    if t.chance(1, 5) {
        let n = t.us(0, 40);
        c.comment = Some((0..n).map(|_| 1 + t.below(255) as u8).collect());
    }
    c
}
/// a matrix and level shifts for a component transform of one's own, possibly singular
pub fn matrix(t: &mut Tape, im: &Img) -> (Vec<f32>, Vec<i32>) {
    let n = im.comps.len();
    let kind = t.weighted(&[3, 2, 1]);
    let mut r = t.fork();
    let m = (0..n * n)
        .map(|i| match kind {
            0 => (if i / n == i % n { 1.0 } else { 0.0 }) + ((r.next() % 41) as f32 - 20.0) / 100.0,
            1 => (i / n == n - 1 - i % n) as i32 as f32,
            _ => (r.next() % 3) as f32 - 1.0,
        })
        .collect();
    (m, im.comps.iter().map(|k| if k.sgnd { 0 } else { 1 << (k.prec - 1).min(30) }).collect())
}
/// the encoder requires the nominal tile to be at least 2^(resolutions-1) in both directions
pub fn clamp_res(im: &Img, c: &mut EncCfg) {
    let (tw, th) = c.tile.unwrap_or((im.x1 as i32 - c.tile_off.0, im.y1 as i32 - c.tile_off.1));
    while c.numres > 1 && (1i64 << (c.numres - 1)) > tw.min(th) as i64 {
        c.numres -= 1;
    }
}
pub fn same3(im: &Img) -> bool {
    im.comps.len() >= 3
        && im.comps[1..3].iter().all(|c| c.dx == im.comps[0].dx && c.dy == im.comps[0].dy && c.prec == im.comps[0].prec && c.sgnd == im.comps[0].sgnd)
}
fn tile_dim(t: &mut Tape, n: u32) -> u32 {
    // at most ~5 tiles along an axis, sizes not aligned to anything
    let lo = (n / 5).max(1);
    match t.weighted(&[3, 2, 1]) {
        0 => t.u32(lo, n.max(lo)),
        1 => {
            let p = 1u32 << t.u32(0, 7);
            p.max(lo)
        }
        _ => t.u32(lo, n * 2 + 8),
    }
}
/// layers, last one lossless
pub fn lossless_layers(t: &mut Tape, c: &mut EncCfg) {
    match t.weighted(&[4, 3, 2]) {
        0 => {}
        1 => {
            let n = t.us(1, 5);
            c.layers = n as i32;
            c.disto_alloc = true;
            let mut r = 2.0 + t.us(0, 60) as f32;
            let mut v = vec![];
            for _ in 0..n - 1 {
                v.push(r);
                r = 1.0 + (r - 1.0) * 0.6;
            }
            v.push(*t.pick(&[0.0f32, 1.0]));
            c.rates = v;
        }
        _ => {
            let n = t.us(1, 4);
            c.layers = n as i32;
            c.fixed_quality = true;
            let mut q = 20.0 + t.us(0, 20) as f32;
            for _ in 0..n - 1 {
                c.distoratio.push(q);
                q += 5.0;
            }
            c.distoratio.push(0.0);
        }
    }
}
pub fn roi(t: &mut Tape, im: &Img, c: &mut EncCfg) {
    if t.chance(1, 8) {
        let k = t.us(0, im.comps.len() - 1);
        let room = 24i32 - im.comps[k].prec as i32;
        if room > 0 {
            c.roi = Some((k as i32, t.range(0, room.min(12) as i64) as i32));
        }
    }
}
/// progression order changes that together cover every packet exactly
pub fn pocs(t: &mut Tape, im: &Img, c: &mut EncCfg, tiles: u32) {
    let layers = c.layers.max(1) as u32;
    let nres = c.numres as u32;
    let nc = im.comps.len() as u32;
    let cov = t.below(4);
    let mut v = vec![];
    let split_tile = t.chance(1, 3);
    for tile in 1..=tiles {
        if split_tile && tile % 2 == 0 {
            continue;
        }
        let mut mk = |r0, c0, l1, r1, c1, t: &mut Tape| v.push(Poc { tile, resno0: r0, compno0: c0, layno1: l1, resno1: r1, compno1: c1, prg: t.range(0, 4) as i32 });
        match cov {
            0 => {
                let k = t.u32(1, nres.max(2) - 1).min(nres);
                mk(0, 0, layers, k, nc, t);
                if k < nres {
                    mk(k, 0, layers, nres, nc, t);
                }
            }
            1 => {
                let k = t.u32(1, layers);
                mk(0, 0, k, nres, nc, t);
                if k < layers {
                    mk(0, 0, layers, nres, nc, t);
                }
            }
            2 => {
                let k = t.u32(1, nc);
                mk(0, 0, layers, nres, k, t);
                if k < nc {
                    mk(0, k, layers, nres, nc, t);
                }
            }
            _ => {
                // low resolutions of the first layers first, then everything (already sent packets are skipped)
                let k = t.u32(1, nres);
                let l = t.u32(1, layers);
                mk(0, 0, l, k, nc, t);
                mk(0, 0, layers, nres, nc, t);
            }
        }
        if v.len() > 28 {
            break;
        }
    }
    c.pocs = v;
}
/// number of tiles along each axis
pub fn grid(im: &Img, g: &EncCfg) -> (u32, u32) {
    match g.tile {
        None => (1, 1),
        Some((w, h)) => (ceil_div(im.x1 - g.tile_off.0 as u32, w as u32), ceil_div(im.y1 - g.tile_off.1 as u32, h as u32)),
    }
}
/// canvas rectangle of tile n
pub fn tile_rect(im: &Img, g: &EncCfg, n: u32) -> (u32, u32, u32, u32) {
    let Some((w, h)) = g.tile else { return (im.x0, im.y0, im.x1, im.y1) };
    let tw = grid(im, g).0;
    let (p, q) = (n % tw, n / tw);
    let (x, y) = (g.tile_off.0 as u32 + p * w as u32, g.tile_off.1 as u32 + q * h as u32);
    (x.max(im.x0), y.max(im.y0), (x + w as u32).min(im.x1), (y + h as u32).min(im.y1))
}
/// is there a tile in which no component has a sample?
pub fn empty_tile(im: &Img, g: &EncCfg) -> bool {
    let (a, b) = grid(im, g);
    (0..a * b).any(|n| {
        let (x0, y0, x1, y1) = tile_rect(im, g, n);
        im.comps.iter().all(|c| ceil_div(x0, c.dx) >= ceil_div(x1, c.dx) || ceil_div(y0, c.dy) >= ceil_div(y1, c.dy))
    })
}
/// could the tile-part division ask for more than 255 tile-parts in a tile?
pub fn many_tile_parts(im: &Img, g: &EncCfg) -> bool {
    let Some(f) = g.tp else { return false };
    let letters = |prg: i32| {
        let s: &[u8] = [b"LRCP", b"RLCP", b"RPCL", b"PCRL", b"CPRL"][prg as usize];
        let n = s.iter().position(|&c| c == f).unwrap();
        &s[..=n]
    };
    let count = |prg: i32, l: u64, r: u64, c: u64| -> u64 {
        letters(prg)
            .iter()
            .map(|k| match k {
                b'L' => l,
                b'R' => r,
                b'C' => c,
                _ => 256, // depends on the precincts
            })
            .product()
    };
    let n: u64 = if g.pocs.is_empty() {
        count(g.prog, g.layers.max(1) as u64, g.numres as u64, im.comps.len() as u64)
    } else {
        // tiles without progression changes of their own follow the main progression
        let base = count(g.prog, g.layers.max(1) as u64, g.numres as u64, im.comps.len() as u64);
        base + g.pocs.iter().map(|p| count(p.prg, p.layno1 as u64, (p.resno1 - p.resno0) as u64, (p.compno1 - p.compno0) as u64)).sum::<u64>()
    };
    n > 255
}
pub fn fmt(t: &mut Tape) -> Fmt {
    if t.bool() {
        Fmt::Jp2
    } else {
        Fmt::J2k
    }
}
pub fn label_cfg(c: &mut Ctx, im: &Img, g: &EncCfg) {
    c.label_if(g.tile.is_some(), "tiled");
    c.label_if(g.mode != 0, "cblk-style");
    c.label_if(!g.prec_sizes.is_empty(), "precincts");
    c.label_if(g.layers > 1, "layers>1");
    c.label_if(g.mct == 1, "mct");
    c.label_if(g.tp.is_some(), "tile-parts");
    c.label_if(g.plt, "plt");
    c.label_if(g.tlm, "tlm");
    c.label_if(g.roi.is_some(), "roi");
    c.label_if(!g.pocs.is_empty(), "poc");
    c.label_if(g.csty & 6 != 0, "sop/eph");
    c.label_if(im.x0 > 0 || im.y0 > 0, "offset");
    c.label_if(im.comps.iter().any(|k| k.dx > 1 || k.dy > 1), "subsampled");
    c.label_if(im.comps.iter().any(|k| k.sgnd), "signed");
    c.label(format!("prog{}", g.prog));
    c.label(format!("comps{}", im.comps.len().min(5)));
}
