//! C25: whatever the encoder is asked for, it refuses cleanly or writes a valid stream which declares what was asked.
use super::c12;
use super::common::*;
use crate::gen::*;
use crate::refdec::{self, pkt, stream};
use crate::w::*;
use vkit::*;

const CINEMA_2K: u16 = 3;
const CINEMA_4K: u16 = 4;
fn cinema(r: u16) -> bool {
    (3..=6).contains(&r)
}
fn imf(r: u16) -> bool {
    (0x400..=0x99b).contains(&r)
}
/// what the deprecated fields ask for
fn rsiz(g: &EncCfg) -> u16 {
    if g.rsiz != 0 {
        return g.rsiz;
    }
    match (g.cinema, g.old_rsiz) {
        (_, 3) => 3,
        (_, 4) => 4,
        (_, 0x8100) => 0x8100,
        (1 | 2, _) => 3,
        (3, _) => 4,
        _ => 0,
    }
}
fn odd(t: &mut Tape) -> i32 {
    *t.pick(&[0, -1, 1, 2, i32::MAX, i32::MIN, 255, 256, 65535, 65536, -2, 1 << 30])
}
fn odd_float(t: &mut Tape) -> f32 {
    *t.pick(&[0.0f32, -1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e30, 1e-30, 0.5, 1.0, 1e9])
}
/// one request the interface can express; most of them out of range
fn perturb(t: &mut Tape, im: &mut Img, g: &mut EncCfg) -> &'static str {
    let nc = im.comps.len().max(1);
    match t.below(28) {
        0 => {
            g.numres = if t.chance(2, 3) { *t.pick(&[7, 10, 12, 13, 15, 16, 31, 32, 33, 34, 0]) } else { odd(t) };
            "numresolution"
        }
        1 => {
            let mut v = |t: &mut Tape| if t.chance(2, 3) { *t.pick(&[4, 8, 3, 5, 2, 63, 65, 128, 512, 1024, 2048]) } else { odd(t) };
            let (a, b) = (v(t), v(t));
            match t.below(3) {
                0 => g.cblk.0 = a,
                1 => g.cblk.1 = b,
                _ => g.cblk = (a, b),
            }
            "code-block-size"
        }
        2 => {
            g.mode = if t.chance(1, 2) { *t.pick(&[0x40, 0x41, 0x80, 0x3f, 0x48]) } else { odd(t) };
            "code-block-style"
        }
        3 => {
            g.csty = if t.chance(1, 2) { t.range(0, 16) as i32 } else { odd(t) };
            "coding-style"
        }
        4 => {
            let n = *t.pick(&[1usize, 2, 3, 6, 20, 33, 34, 40]);
            let mut v = |t: &mut Tape| if t.chance(1, 2) { *t.pick(&[1, 2, 3, 100, 32768, 32767, 65536, 4]) } else { odd(t) };
            g.prec_sizes = (0..n).map(|_| (v(t), v(t))).collect();
            "precincts"
        }
        5 => {
            g.prog = if t.chance(1, 2) { 5 } else { odd(t) };
            "progression"
        }
        6 => {
            g.layers = if t.chance(1, 2) { *t.pick(&[100, 101, 99, 50]) } else { odd(t) };
            "layers"
        }
        7 => {
            g.disto_alloc = t.bool();
            g.layers = t.range(1, 4) as i32;
            g.rates = (0..4).map(|_| if t.chance(2, 3) { odd_float(t) } else { 20.0 }).collect();
            "rates"
        }
        8 => {
            g.fixed_quality = true;
            g.disto_alloc = t.chance(1, 4);
            g.layers = t.range(1, 4) as i32;
            g.distoratio = (0..4).map(|_| if t.chance(2, 3) { odd_float(t) } else { 30.0 }).collect();
            "qualities"
        }
        9 => {
            let mut v = |t: &mut Tape| if t.chance(1, 2) { *t.pick(&[1, 2, 3, 7, 300, 100_000]) } else { odd(t) };
            g.tile = Some((v(t), v(t)));
            "tile-size"
        }
        10 => {
            let mut v = |t: &mut Tape, o: u32| if t.chance(1, 2) { o as i32 + *t.pick(&[0, -1, 1, -5, -200]) } else { odd(t) };
            g.tile_off = (v(t, im.x0), v(t, im.y0));
            "tile-offset"
        }
        11 => {
            let c = if t.chance(2, 3) { t.range(0, nc as i64 - 1) as i32 } else { *t.pick(&[-1, -2, nc as i32, i32::MAX, i32::MIN]) };
            let s = if t.chance(2, 3) { *t.pick(&[0, 1, 8, 15, 16, 20, 24, 30, 31, 32, 37, 38, 63, 64]) } else { odd(t) };
            g.roi = Some((c, s));
            "roi"
        }
        12 => {
            g.mct = *t.pick(&[1, 2, 3, -1, 127, -128]);
            "mct"
        }
        13 => {
            g.tp = Some(if t.chance(1, 2) { *t.pick(b"RLCPrlcpX ") } else { t.below(256) as u8 });
            "tile-part-flag"
        }
        14 => {
            let n = *t.pick(&[1usize, 2, 3, 5, 31, 32, 33, 40]);
            g.pocs = (0..n)
                .map(|_| {
                    let mut v = |t: &mut Tape, hi: i64| if t.chance(5, 6) { t.range(0, hi) as u32 } else { *t.pick(&[u32::MAX, 255, 256, 65535, 65536, 33, 34, 0]) };
                    Poc { tile: if t.chance(4, 5) { 1 } else { v(t, 5) }, resno0: v(t, 3), compno0: v(t, nc as i64), layno1: v(t, 5), resno1: v(t, 7), compno1: v(t, nc as i64 + 1), prg: if t.chance(9, 10) { t.range(0, 4) as i32 } else { odd(t) } }
                })
                .collect();
            if t.bool() {
                // and the rest
                g.pocs.push(Poc { tile: 1, resno0: 0, compno0: 0, layno1: 100, resno1: 33, compno1: 16384, prg: t.range(0, 4) as i32 });
            }
            "progression-changes"
        }
        15 => {
            g.rsiz = match t.below(4) {
                0 => *t.pick(&[1, 2, 7, 0x100, 0x30b, 0x8000, 0x8100, 0x4000, 0x9, 0xc000, 0x30c, 0x99c, 0xffff]),
                1 => t.below(65536) as u16,
                2 => t.range(3, 6) as u16,
                _ => imf_profile(t),
            };
            "rsiz"
        }
        16 => {
            let v = if t.chance(2, 3) { *t.pick(&[1, 20, 100, 300, 1000, 5000]) } else { odd(t) };
            if t.chance(2, 3) { g.max_cs = v } else { g.max_comp = v }
            "size-limits"
        }
        17 => {
            let n = *t.pick(&[0usize, 1, 65530, 65531, 65532, 65533, 70_000, 200_000]);
            g.comment = Some(vec![b'c'; n]);
            "comment"
        }
        18 => {
            g.guard_bits = Some(t.range(-1, 9) as i32);
            "guard-bits"
        }
        19 => {
            let s = *t.pick(&["PLT=YES", "PLT=NO", "TLM=YES", "TLM=NO", "GUARD_BITS=1", "GUARD_BITS=7", "GUARD_BITS=8", "GUARD_BITS=-1", "GUARD_BITS=x", "GUARD_BITS=", "GUARD_BITS=2x", "GUARD_BITS= 2", "PLT=", "PLT=yes", "TLM=1", "PLT", "", "FOO=BAR", "plt=YES"]);
            g.opts.push(s.into());
            "options"
        }
        20 => {
            let v = if t.chance(2, 3) { t.u32(20, 40) } else { *t.pick(&[0, 1, 31, 32, 64, u32::MAX]) };
            let all = t.bool();
            let k = t.below(nc as u64) as usize;
            for (i, c) in im.comps.iter_mut().enumerate() {
                if all || i == k {
                    c.prec = v;
                }
            }
            "precision"
        }
        21 => {
            let k = t.below(nc as u64) as usize;
            let v = *t.pick(&[0u32, 255, 256, 2, 1000, u32::MAX]);
            if let Some(c) = im.comps.get_mut(k) {
                if t.bool() { c.dx = v } else { c.dy = v }
                if t.bool() && c.dx > 0 && c.dy > 0 {
                    c.w = ceil_div(im.x1, c.dx).saturating_sub(ceil_div(im.x0, c.dx));
                    c.h = ceil_div(im.y1, c.dy).saturating_sub(ceil_div(im.y0, c.dy));
                    (c.x0, c.y0) = (ceil_div(im.x0, c.dx), ceil_div(im.y0, c.dy));
                    c.data = vec![1; (c.w * c.h) as usize];
                }
            }
            "subsampling"
        }
        22 => {
            match t.below(5) {
                0 => im.x1 = im.x0,
                1 => im.y1 = im.y0.saturating_sub(1),
                2 => im.x1 += 1,
                3 => im.y0 += 1,
                _ => im.x0 += 3,
            }
            "image-area"
        }
        23 => {
            let k = t.below(nc as u64) as usize;
            if let Some(c) = im.comps.get_mut(k) {
                c.w = (c.w as i64 + t.range(-2, 3)).max(0) as u32;
                c.h = (c.h as i64 + t.range(-2, 3)).max(0) as u32;
                c.data = vec![3; (c.w * c.h) as usize];
            }
            "component-size"
        }
        24 => {
            if im.comps.is_empty() || t.chance(1, 4) {
                im.comps.clear();
                return "no-components";
            }
            // 8-bit or 16-bit component indices
            let n = *t.pick(&[255usize, 256, 257, 258, 300]);
            let mut k = im.comps[0].clone();
            if !(1..=31).contains(&k.prec) {
                k.prec = 8;
            }
            im.x1 = im.x0 + t.u32(1, 6).min(im.x1.saturating_sub(im.x0).max(1));
            im.y1 = im.y0 + t.u32(1, 4).min(im.y1.saturating_sub(im.y0).max(1));
            let (w, h) = (im.x1 - im.x0, im.y1 - im.y0);
            im.color = 0;
            g.tile = None;
            g.tile_off = (0, 0);
            g.numres = 1 + t.range(0, 2) as i32;
            if g.mct == 1 && t.bool() {
                g.mct = 0;
            }
            let mut r = t.fork();
            im.comps = (0..n)
                .map(|_| Comp { dx: 1, dy: 1, w, h, x0: im.x0, y0: im.y0, data: (0..w * h).map(|_| (k.lo() + (r.next() >> 16) as i64 % (k.hi() - k.lo() + 1)) as i32).collect(), ..k.clone() })
                .collect();
            if t.bool() {
                g.roi = Some((*t.pick(&[0, 254, n as i32 - 1, n as i32 - 2, n as i32]), t.range(1, 6) as i32));
            }
            if t.bool() {
                let k = *t.pick(&[1u32, 254, 255, 256, n as u32 - 1]);
                let (layers, nres) = (g.layers.clamp(1, 100) as u32, g.numres as u32);
                g.pocs = vec![Poc { tile: 1, resno0: 0, compno0: 0, layno1: layers, resno1: nres, compno1: k.min(n as u32), prg: t.range(0, 4) as i32 }, Poc { tile: 1, resno0: 0, compno0: k.min(n as u32 - 1), layno1: layers, resno1: nres, compno1: n as u32, prg: t.range(0, 4) as i32 }];
            } else {
                g.pocs.clear();
            }
            "many-components"
        }
        25 => {
            let k = t.below(nc as u64) as usize;
            if let Some(c) = im.comps.get_mut(k) {
                let v = *t.pick(&[1i32 << 17, 1 << 24, -(1 << 20), i32::MAX, i32::MIN, -1]);
                let n = c.data.len().max(1);
                let i = t.below(n as u64) as usize;
                if let Some(d) = c.data.get_mut(i) {
                    *d = v;
                }
            }
            "samples-beyond-precision"
        }
        26 => {
            g.fixed_alloc = true;
            if t.chance(4, 5) {
                let mut r = t.fork();
                g.matrice = Some((0..300).map(|_| (r.next() >> 20) as i32 % 12 - (r.next() >> 40 & 1) as i32).collect());
                g.layers = t.range(0, 11) as i32;
            }
            "fixed-allocation"
        }
        _ => {
            match t.below(3) {
                0 => g.cinema = t.range(0, 4) as i32,
                1 => g.old_rsiz = *t.pick(&[0, 3, 4, 0x8100, 5]),
                _ => {
                    im.color = t.range(-1, 6) as i32;
                    for c in &mut im.comps {
                        c.alpha = t.below(4) as u16;
                    }
                }
            }
            "deprecated-or-colour"
        }
    }
}
fn imf_profile(t: &mut Tape) -> u16 {
    let main = if t.chance(1, 6) { t.range(0, 15) as u16 } else { t.range(0, 11) as u16 };
    let sub = if main == 0 { t.range(0, 15) as u16 } else { t.range(0, 10) as u16 };
    let p = t.range(4, 9) as u16;
    p << 8 | sub << 4 | main
}
/// an image and a request a profile could be made for, with at most small departures
fn for_profile(t: &mut Tape) -> (Img, EncCfg) {
    let mut g = EncCfg { defaults: t.bool(), ..EncCfg::default() };
    let r = match t.below(3) {
        0 => CINEMA_2K,
        1 => CINEMA_4K,
        _ => imf_profile(t),
    };
    if cinema(r) && t.chance(1, 4) {
        match (r, t.bool()) {
            (3, true) => g.cinema = 1 + t.range(0, 1) as i32,
            (4, true) => g.cinema = 3,
            _ => g.old_rsiz = r as i32,
        }
    } else {
        g.rsiz = r;
    }
    let nc = if cinema(r) && t.chance(11, 12) { 3 } else { t.us(1, 4) };
    let prec = if cinema(r) { if t.chance(11, 12) { 12 } else { 8 } } else { t.u32(8, 16) };
    let (w, h) = if t.bool() { (t.u32(64, 130), t.u32(64, 90)) } else { (dim(t, 130), dim(t, 90)) };
    let (w, h) = match t.below(12) {
        0 if nc <= 3 => (2049 + t.u32(0, 30), t.u32(1, 3)),
        1 if nc <= 3 => (4097 + t.u32(0, 30), 1),
        2 if nc <= 3 => (t.u32(1, 2), 1081 + t.u32(0, 40)),
        3 if nc <= 3 => (1024 + t.u32(0, 1200), t.u32(1, 3)),
        _ => (w, h),
    };
    let off = if t.chance(1, 12) { t.u32(1, 5) } else { 0 };
    let sub = t.chance(1, 8);
    let odd_sign = t.chance(1, 20);
    let mut im = Img { x0: off, y0: 0, x1: off + w, y1: h, color: if nc == 3 { 1 } else { 0 }, ..Default::default() };
    for i in 0..nc {
        let dx = if sub && i > 0 { 2 } else { 1 };
        let dx = if ceil_div(im.x1, dx) > ceil_div(im.x0, dx) { dx } else { 1 };
        let (a, b) = (ceil_div(im.x0, dx), ceil_div(im.x1, dx));
        im.comps.push(Comp { dx, dy: 1, w: b - a, h, x0: a, y0: 0, prec, sgnd: odd_sign && i == 0, ..Default::default() });
    }
    fill(t, &mut im);
    if t.chance(1, 3) {
        g.mct = 1;
    }
    if imf(r) {
        g.irreversible = (r >> 8) < 7 && t.chance(5, 6);
        if t.chance(1, 4) {
            g.layers = 1;
            g.disto_alloc = true;
            g.rates = vec![*t.pick(&[0.0, 1.0, 4.0, 20.0])];
        }
    }
    // departures from what the profile wants
    for _ in 0..t.weighted(&[4, 3, 1]) {
        match t.below(12) {
            0 => g.numres = t.range(1, 9) as i32,
            1 => g.cblk = (1 << t.range(2, 6), 1 << t.range(2, 6)),
            2 => g.mode = t.range(0, 63) as i32,
            3 => g.csty = *t.pick(&[2, 4, 6]),
            4 => {
                let n = t.us(1, 6);
                for _ in 0..n {
                    g.prec_sizes.push(if t.chance(3, 4) { (256, 256) } else { (128, 128) });
                }
            }
            5 => g.prog = t.range(0, 4) as i32,
            6 => {
                g.layers = t.range(1, 4) as i32;
                g.disto_alloc = t.bool();
                g.rates = vec![30.0, 20.0, 10.0, 5.0];
            }
            7 => {
                g.tile = Some(*t.pick(&[(64, 64), (1024, 1024), (128, 32), (2048, 2048)]));
            }
            8 => g.roi = Some((0, 3)),
            9 => g.max_cs = *t.pick(&[400, 1000, 3000, 2_000_000]),
            10 => g.max_comp = *t.pick(&[200, 600, 2000, 2_000_000]),
            _ => {
                if !im.comps.is_empty() {
                    g.tp = Some(*t.pick(b"RLCP"));
                    g.irreversible = t.bool();
                }
            }
        }
    }
    (im, g)
}
/// must this request be granted the profile it names?
fn deserves(im: &Img, g: &EncCfg, r: u16) -> bool {
    let k = &im.comps;
    let (w, h) = (im.x1, im.y1);
    if im.x0 != 0 || im.y0 != 0 || k.iter().any(|c| c.sgnd || c.dy != 1 || c.w != ceil_div(w, c.dx) || c.h != h) {
        return false;
    }
    if r == CINEMA_2K || r == CINEMA_4K {
        let n = if r == CINEMA_2K { 1 } else { 2 };
        return k.len() == 3 && k.iter().all(|c| c.prec == 12 && c.dx == 1) && w <= 2048 * n && h <= 1080 * n && g.tile_off == (0, 0) && w.min(h) >= 64;
    }
    if !imf(r) {
        return false;
    }
    let plain = EncCfg { rsiz: g.rsiz, irreversible: g.irreversible, layers: g.layers, disto_alloc: g.disto_alloc, rates: g.rates.clone(), mct: g.mct, defaults: g.defaults, comment: g.comment.clone(), plt: g.plt, tlm: g.tlm, ..EncCfg::default() };
    let (main, sub, p) = (r & 15, r >> 4 & 15, r >> 8);
    let n = [1, 2, 4, 1, 2, 4][(p - 4) as usize];
    // IMF sublevels per main level (Table A.53)
    let most = [15, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    *g == plain
        && g.layers <= 1
        && (p < 7 || !g.irreversible)
        && main <= 11
        && sub <= most[main as usize]
        && k.len() <= 3
        && k.iter().enumerate().all(|(i, c)| (8..=16).contains(&c.prec) && (c.dx == 1 || i > 0 && c.dx == 2 && k[1].dx == 2 && (i < 2 || k.len() < 3 || k[2].dx == 2)))
        && (k.len() < 3 || k[1].dx == k[2].dx)
        && w.min(h) >= 2
        && w <= 2048 * n
        && h <= 1556 * n
}
/// does the stream keep to the profile it names?
fn keeps(s: &stream::Stream, r: u16, len: usize) -> Result<(), String> {
    let z = &s.siz;
    let ok = |b: bool, what: &str| if b { Ok(()) } else { Err(format!("profile {r:#x}: {what}")) };
    let (cod, spc) = s.main.cod.as_ref().unwrap();
    let all = || (0..s.tiles.len()).flat_map(|t| (0..z.comps.len()).map(move |c| (t, c)));
    ok((z.x0, z.y0, z.tx0, z.ty0) == (0, 0, 0, 0), "offsets")?;
    ok(cod.layers == 1, "layers")?;
    ok(cod.prog == 4, "progression")?;
    for (t, c) in all() {
        let p = s.spc(t, c);
        ok(p.xcb == 5 && p.ycb == 5 && p.mode == 0, "code-blocks")?;
        for l in 0..=p.levels {
            let want = if l == 0 { 7 } else { 8 };
            let got = if p.user_prec { p.prec[l as usize] } else { (15, 15) };
            ok(got == (want, want), "precincts")?;
        }
        ok(s.roi(t, c) == 0, "region of interest")?;
        if cinema(r) || (r >> 8) < 7 {
            ok(!p.rev, "reversible transform")?;
        } else {
            ok(p.rev, "irreversible transform")?;
        }
    }
    ok(!s.tlm.is_empty(), "no TLM")?;
    ok(s.ppm.is_none() && s.parts.iter().all(|p| p.ppt.is_empty()), "packed packet headers")?;
    let nl = spc.levels;
    if cinema(r) {
        ok(r == CINEMA_2K || r == CINEMA_4K, "not supported")?;
        let n = if r == CINEMA_2K { 1 } else { 2 };
        ok(z.x1 <= 2048 * n && z.y1 <= 1080 * n, "image size")?;
        ok(s.tiles.len() == 1, "tiles")?;
        ok(z.comps.len() == 3 && z.comps.iter().all(|c| c.prec == 12 && !c.sgnd && c.dx == 1 && c.dy == 1), "components")?;
        ok(if r == CINEMA_2K { nl <= 5 } else { (1..=6).contains(&nl) }, "levels")?;
        let pocs: Vec<_> = s.pocs(0).iter().map(|p| (p.rs, p.cs, p.re.min(nl + 1), p.ce.min(3), p.lye, p.prog)).collect();
        if r == CINEMA_2K {
            ok(pocs.is_empty(), "progression order changes")?;
            ok(s.parts.len() == 3, "tile-parts")?;
        } else {
            ok(pocs == [(0, 0, nl, 3, 1, 4), (nl, 0, nl + 1, 3, 1, 4)], "progression order changes")?;
            ok(s.parts.len() == 6, "tile-parts")?;
        }
        ok(len <= 1_302_083, "size")?;
    } else {
        let p = r >> 8;
        let n = [1, 2, 4, 1, 2, 4][(p - 4) as usize];
        ok(z.x1 <= 2048 * n && z.y1 <= 1556 * n, "image size")?;
        ok(z.comps.len() <= 3 && z.comps.iter().all(|c| (8..=16).contains(&c.prec) && !c.sgnd && c.dy == 1), "components")?;
        ok(z.comps[0].dx == 1 && z.comps.iter().skip(1).all(|c| c.dx == z.comps[1].dx && c.dx <= 2), "subsampling")?;
        ok((0..s.tiles.len()).all(|t| s.pocs(t).is_empty()), "progression order changes")?;
        let whole = z.tw >= z.x1 && z.th >= z.y1;
        ok(whole || p >= 7 && z.tw == z.th && [1024, 2048, 4096].contains(&z.tw), "tiles")?;
        if p < 7 {
            ok((1..=4 + n.ilog2() + 1).contains(&nl), "levels")?;
        }
        let most = [15, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9];
        ok(r & 15 <= 11 && r >> 4 & 15 <= most[(r & 15) as usize], "level numbers")?;
    }
    Ok(())
}
fn floor_log2(v: i32) -> u32 {
    v.ilog2()
}
/// does the stream declare the structure which was asked for?
fn declares(s: &stream::Stream, im: &Img, g: &EncCfg) -> R {
    let nc = im.comps.len();
    let (cod, _) = s.main.cod.as_ref().unwrap();
    ensure!(s.tiles.iter().all(|t| t.cod.is_none() && t.coc.iter().all(|c| c.is_none())), "cod", "coding style in tile headers");
    ensure!(cod.prog as i32 == g.prog, "progression", "{} for {}", cod.prog, g.prog);
    ensure!(cod.layers as i32 == g.layers.max(1), "layers", "{} for {}", cod.layers, g.layers);
    ensure!((cod.sop, cod.eph) == (g.csty & 2 != 0, g.csty & 4 != 0), "coding-style", "{cod:?} for {}", g.csty);
    let k = &im.comps;
    let can = nc >= 3 && k[1..3].iter().all(|c| (c.dx, c.dy) == (k[0].dx, k[0].dy));
    ensure!(cod.mct as i32 == (g.mct == 1 && can) as i32, "mct", "{} for {}", cod.mct, g.mct);
    for c in 0..nc {
        let p = s.spc(0, c);
        ensure!(p.levels as i32 == g.numres - 1, "levels", "{} for {}", p.levels, g.numres);
        ensure!((1 << p.xcb, 1 << p.ycb) == g.cblk, "code-block-size", "{p:?} for {:?}", g.cblk);
        ensure!(p.mode as i32 == g.mode, "code-block-style", "{} for {}", p.mode, g.mode);
        ensure!(p.rev != g.irreversible, "transform", "{p:?}");
        let user = g.csty & 1 != 0 || !g.prec_sizes.is_empty();
        ensure!(p.user_prec == user, "precincts", "{p:?}");
        if user {
            for l in 0..=p.levels as usize {
                let i = p.levels as usize - l;
                let n = g.prec_sizes.len();
                let (a, b) = g.prec_sizes[i.min(n - 1)];
                let sh = i.saturating_sub(n - 1).min(31);
                let want = |v: i32| -> Option<u32> {
                    let v = v >> sh;
                    // others are rounded or refused
                    ((if l == 0 { 1 } else { 2 })..=32768).contains(&v).then(|| floor_log2(v))
                };
                ensure!(want(a).map_or(true, |v| v == p.prec[l].0) && want(b).map_or(true, |v| v == p.prec[l].1), "precincts", "{:?} at level {l} for {:?}", p.prec[l], g.prec_sizes);
            }
        }
        let roi = match g.roi {
            Some((i, v)) if i == c as i32 => v,
            _ => 0,
        };
        ensure!(s.roi(0, c) as i64 == roi as i64, "roi", "component {c}: shift {} for {:?}", s.roi(0, c), g.roi);
        let mut guard = g.guard_bits;
        for o in &g.opts {
            if let Some(v) = o.strip_prefix("GUARD_BITS=") {
                guard = v.parse().ok();
            }
        }
        if let Some(v) = guard {
            ensure!(s.qnt(0, c).guard as i32 == v, "guard-bits", "{} for {v}", s.qnt(0, c).guard);
        }
    }
    let (mut plt, mut tlm) = (g.plt, g.tlm);
    for o in &g.opts {
        match &o[..] {
            "PLT=YES" => plt = true,
            "PLT=NO" => plt = false,
            "TLM=YES" => tlm = true,
            "TLM=NO" => tlm = false,
            _ => {}
        }
    }
    ensure!(s.has_plt == plt, "plt", "PLT {} for {plt}", s.has_plt);
    ensure!(s.tlm.is_empty() != tlm, "tlm", "TLM {} for {tlm}", !s.tlm.is_empty());
    // progression order changes
    for t in 0..s.tiles.len() {
        let want: Vec<_> = g.pocs.iter().filter(|p| p.tile == t as u32 + 1).map(|p| (p.resno0, p.compno0, p.layno1.min(g.layers.max(1) as u32), p.resno1.min(g.numres as u32), p.compno1.min(nc as u32), p.prg)).collect();
        let got: Vec<_> = s.pocs(t).iter().map(|p| (p.rs, p.cs, p.lye.min(g.layers.max(1) as u32), p.re.min(g.numres as u32), p.ce.min(nc as u32), p.prog as i32)).collect();
        ensure!(want == got || want.is_empty() && !s.main.poc.is_empty(), "progression-changes", "tile {t}: {got:?} for {want:?}");
    }
    let own = s.main.coms.iter().filter(|c| c.0 == 1).map(|c| &c.1[..]).collect::<Vec<_>>();
    match &g.comment {
        Some(c) if !c.is_empty() => {
            ensure!(own.contains(&&c[..]), "comment", "{} comments, none of them the requested one of {} bytes", own.len(), c.len())
        }
        Some(_) => ensure!(own.iter().all(|c| c.is_empty()), "comment", "a comment nobody asked for"),
        None => {}
    }
    Ok(())
}
/// tile-parts begin where the progression moves on to another resolution, layer or component
fn divided(s: &stream::Stream, flag: u8) -> R {
    for n in 0..s.tiles.len() {
        let Ok(t) = pkt::tile(s, n, u32::MAX, false) else { return Ok(()) };
        if !s.pocs(n).is_empty() {
            continue; // which letters count can change within a tile
        }
        let letters = [b"LRCP", b"RLCP", b"RPCL", b"PCRL", b"CPRL"][s.cod(n).prog as usize];
        let outer: Vec<u8> = letters[..=letters.iter().position(|l| *l == flag).unwrap()].iter().copied().filter(|l| *l != b'P').collect();
        let key = |p: &pkt::Pk| -> Vec<u32> { outer.iter().map(|l| match l { b'L' => p.l, b'R' => p.r, _ => p.c as u32 }).collect() };
        for w in t.pks.windows(2) {
            ensure!(w[0].part != w[1].part || key(&w[0]) == key(&w[1]), "tile-parts", "tile {n}: division at {} but packets {:?} and {:?} share a tile-part", flag as char, (w[0].l, w[0].r, w[0].c, w[0].k), (w[1].l, w[1].r, w[1].c, w[1].k));
        }
    }
    Ok(())
}
/// do the components cover the image area, with samples in range?
fn consistent(im: &Img) -> bool {
    im.comps.iter().all(|c| {
        (1..=38).contains(&c.prec)
            && c.dx > 0
            && c.dy > 0
            && (c.x0, c.y0, c.x0 + c.w, c.y0 + c.h) == (ceil_div(im.x0, c.dx), ceil_div(im.y0, c.dy), ceil_div(im.x1, c.dx), ceil_div(im.y1, c.dy))
            && c.data.iter().all(|v| (c.lo()..=c.hi()).contains(&(*v as i64)))
    })
}
fn whole_pocs(im: &Img, g: &EncCfg, n_tiles: usize) -> bool {
    let (l, r, n) = (g.layers.max(1) as usize, g.numres.max(1) as usize, im.comps.len());
    let mut tiles: Vec<u32> = g.pocs.iter().map(|p| p.tile).filter(|t| (1..=n_tiles as u32).contains(t)).collect();
    tiles.sort();
    tiles.dedup();
    tiles.iter().all(|t| {
        let mut sent = vec![0u32; r * n];
        for p in g.pocs.iter().filter(|p| p.tile == *t) {
            for a in (p.resno0 as usize)..(p.resno1 as usize).min(r) {
                for c in (p.compno0 as usize)..(p.compno1 as usize).min(n) {
                    sent[a * n + c] = sent[a * n + c].max(p.layno1);
                }
            }
        }
        sent.iter().all(|v| *v as usize >= l)
    })
}
fn lossless(g: &EncCfg) -> bool {
    if g.irreversible || g.fixed_alloc || g.max_cs > 0 || g.max_comp > 0 || g.mct_matrix.is_some() {
        return false;
    }
    let last = g.layers.max(1) as usize - 1;
    if g.layers == 0 {
        return !g.fixed_quality || g.distoratio.first().copied().unwrap_or(0.0) == 0.0;
    }
    if g.fixed_quality {
        g.distoratio.get(last).copied().unwrap_or(0.0) == 0.0
    } else {
        g.rates.get(last).copied().unwrap_or(0.0) <= 1.0
    }
}
fn bad_option(o: &str) -> bool {
    match o.strip_prefix("GUARD_BITS=") {
        Some(v) => !v.parse::<i32>().map_or(false, |v| (0..=7).contains(&v)),
        None => !["PLT=YES", "PLT=NO", "TLM=YES", "TLM=NO"].contains(&o),
    }
}
fn run(c: &mut Ctx) -> R {
    let (mut im, mut g);
    let mut what = vec![];
    match c.t.weighted(&[6, 2, 1]) {
        0 => {
            let lim = Lim { max_area: 2500, max_dim: 90, ..Lim::default() };
            (im, g) = any_cfg(c, &lim);
            for _ in 0..c.t.weighted(&[1, 6, 3, 1]) {
                what.push(perturb(&mut c.t, &mut im, &mut g));
            }
        }
        1 => {
            (im, g) = for_profile(&mut c.t);
            what.push("profile");
        }
        _ => {
            im = image(&mut c.t, &Lim { max_area: 2500, max_dim: 90, ..Lim::default() });
            g = EncCfg { defaults: true, ..EncCfg::default() };
            if c.t.bool() {
                clamp_res(&im, &mut g);
            }
            what.push("defaults");
        }
    }
    let f = fmt(&mut c.t);
    for w in &what {
        c.label(*w);
    }
    c.describe(|| format!("{what:?} {} {} {f:?}", im.brief(), { let mut g = g.clone(); if let Some(c) = &mut g.comment { c.truncate(50) } if let Some(m) = &mut g.matrice { m.truncate(20) } g.brief() }));
    let mut msgs = Msgs::default();
    let bytes = match encode_with(&im, &g, f, &EncTransport::default(), &mut msgs) {
        Ok(mut m) => std::mem::take(&mut m.buf),
        Err(e) => {
            c.label("refused");
            if what.is_empty() || what == ["defaults"] && !(im.x1 - im.x0).min(im.y1 - im.y0).lt(&32) {
                let excused = empty_tile(&im, &g) || many_tile_parts(&im, &g);
                ensure!(excused, "refused", "nothing unusual was asked for: {}", e.text());
            }
            ensure!(!(what == ["profile"] && deserves(&im, &g, rsiz(&g))), "refused-profile", "{}", e.text());
            c.nontrivial();
            return Ok(());
        }
    };
    dump(&bytes);
    c.label("accepted");
    c.nontrivial();
    if let Some(o) = g.opts.iter().find(|o| bad_option(o)) {
        return fail("option-accepted", format!("{o:?} is none of the options"));
    }
    let (lo, hi) = match f {
        Fmt::J2k => (0, bytes.len()),
        Fmt::Jp2 => match c12::jp2_ok(&bytes, &im) {
            Ok(r) => r,
            Err(e) => return fail("file-format", e),
        },
    };
    let st = match stream::parse(&bytes[lo..hi]) {
        Ok(x) => x,
        Err(e) => return fail("markers", e),
    };
    let asked = rsiz(&g);
    let got = st.siz.rsiz;
    let profiled = cinema(asked) || imf(asked);
    // the deprecated fields and set_MCT can add to what was asked
    ensure!(got == asked || got == 0 || got == 0x8100 && g.mct_matrix.is_some(), "rsiz", "{got:#x} for {asked:#x}");
    ensure!(got & 0xc000 != 0x4000 || st.cap.is_some(), "rsiz", "{got:#x} without CAP");
    ensure!(![1, 2].contains(&asked) || got == asked, "rsiz", "{got:#x} for {asked:#x}");
    if profiled {
        ensure!((z_comps(&st), (st.siz.x0, st.siz.y0, st.siz.x1, st.siz.y1)) == (i_comps(&im), (im.x0 as i64, im.y0 as i64, im.x1 as i64, im.y1 as i64)), "siz", "{:?}", st.siz);
        if got == asked {
            c.label("profile-granted");
            if let Err(e) = keeps(&st, got, hi - lo) {
                return fail("profile-broken", e);
            }
        } else {
            ensure!(!deserves(&im, &g, asked), "profile-denied", "{asked:#x}: {:?}", msgs.warn);
            ensure!(!msgs.warn.is_empty(), "profile-silent", "{got:#x} for {asked:#x} without a warning");
        }
        // a profile overrides the request
    } else {
        c12::siz_ok(&st, &im, &g)?;
        declares(&st, &im, &g)?;
        if let Some(t) = g.tp {
            if b"RLCP".contains(&t) {
                divided(&st, t)?;
            }
        }
    }
    if g.mct_matrix.is_some() {
        return Ok(());
    }
    // a cinema profile brings its own progression order changes, the others keep the requested ones
    let whole = [3, 4].contains(&asked) || {
        let mut g = g.clone();
        g.numres = st.spc(0, 0).levels as i32 + 1;
        whole_pocs(&im, &g, st.tiles.len())
    };
    if !whole {
        c.label("packets-left-out");
        ensure!(!msgs.err.is_empty(), "packets-left-out", "without a word");
    }
    let out = match decode(&bytes, f, &DecOpts::default()) {
        Ok(g) => g,
        Err(e) => return fail("decode-refused", e.text()),
    };
    if !whole {
        return Ok(());
    }
    let rd = match refdec::decode(&st, 0, u32::MAX) {
        Ok(o) => o,
        Err(e) => return fail("packets", e),
    };
    // samples which are none of the image reach values where single precision tells
    if !(g.irreversible && what.contains(&"samples-beyond-precision")) {
        c12::compare(&rd.planes, &out, c12::tolerance(&im), "decoded")?;
    }
    if cinema(got) {
        // the deprecated field overrides the request
        let own = match (g.rsiz, g.cinema) {
            (0, 2) => 520_833,
            (0, 1 | 3) => 1_041_666,
            _ if g.max_comp > 0 => g.max_comp.min(1_041_666),
            _ => 1_041_666,
        };
        component_sizes(&st, own)?;
    }
    if !profiled && lossless(&g) && consistent(&im) {
        if let Some(d) = super::c10::diff(&im, &out) {
            return fail("not-lossless", d);
        }
        c.label("lossless");
    }
    Ok(())
}
fn component_sizes(st: &stream::Stream, max: i32) -> R {
    let mut n = vec![0usize; st.siz.comps.len()];
    for t in 0..st.tiles.len() {
        if let Ok(t) = pkt::tile(st, t, u32::MAX, false) {
            for p in &t.pks {
                n[p.c] += p.hdr.len() + p.body.1 - p.body.0;
            }
        }
    }
    ensure!(n.iter().all(|v| *v <= max as usize), "component-size", "{n:?} bytes of the components, {max} allowed");
    Ok(())
}
fn z_comps(s: &stream::Stream) -> Vec<(u32, bool, i64, i64)> {
    s.siz.comps.iter().map(|c| (c.prec, c.sgnd, c.dx, c.dy)).collect()
}
fn i_comps(im: &Img) -> Vec<(u32, bool, i64, i64)> {
    im.comps.iter().map(|c| (c.prec, c.sgnd, c.dx as i64, c.dy as i64)).collect()
}
pub fn prop() -> Prop {
    Prop { rule: "the request was refused by a failure of the call, or the stream was parsed, decoded and compared with the request", ..Prop::new("C25", run) }
}
