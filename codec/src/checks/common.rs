//! Streams to decode in many ways, and helpers shared by the metamorphic checks.
use crate::gen::*;
use crate::w::*;
use vkit::*;

pub struct Stream {
    pub im: Img,
    pub g: EncCfg,
    pub f: Fmt,
    pub bytes: Vec<u8>,
}
/// lossy layers: rates or qualities, the last one possibly unlimited
pub fn lossy_layers(t: &mut Tape, c: &mut EncCfg) {
    match t.weighted(&[3, 3, 2]) {
        0 => {
            c.disto_alloc = true;
            c.layers = 1;
            c.rates = vec![0.0];
        }
        1 => {
            let n = t.us(1, 5);
            c.layers = n as i32;
            c.disto_alloc = true;
            let mut r = 1.5 + t.us(0, 60) as f32;
            for _ in 0..n {
                c.rates.push(r);
                r = 1.0 + (r - 1.0) * 0.6;
            }
            if t.chance(1, 3) {
                *c.rates.last_mut().unwrap() = 0.0;
            }
        }
        _ => {
            let n = t.us(1, 4);
            c.layers = n as i32;
            c.fixed_quality = true;
            let mut q = 20.0 + t.us(0, 25) as f32;
            for _ in 0..n {
                c.distoratio.push(q);
                q += 5.0;
            }
        }
    }
}
/// an image and any configuration the encoder offers
pub fn any_cfg(c: &mut Ctx, lim: &Lim) -> (Img, EncCfg) {
    let im = image(&mut c.t, lim);
    let mut g = structure(&mut c.t, &im);
    if c.t.chance(2, 5) {
        g.irreversible = true;
        lossy_layers(&mut c.t, &mut g);
        // component transforms other than the reversible one keep samples of at most 16 bits
    } else if c.t.chance(1, 5) {
        lossy_layers(&mut c.t, &mut g);
    } else {
        lossless_layers(&mut c.t, &mut g);
    }
    roi(&mut c.t, &im, &mut g);
    let tiles = grid(&im, &g);
    if tiles.0 * tiles.1 <= 12 && c.t.chance(1, 8) {
        pocs(&mut c.t, &im, &mut g, tiles.0 * tiles.1);
    }
    (im, g)
}
pub fn any_stream(c: &mut Ctx, lim: &Lim) -> Option<Stream> {
    let (im, g) = any_cfg(c, lim);
    let f = fmt(&mut c.t);
    label_cfg(c, &im, &g);
    c.label(if g.irreversible { "irreversible" } else { "reversible" });
    c.describe(|| format!("{} {} {:?}", im.brief(), g.brief(), f));
    match encode(&im, &g, f) {
        Ok(bytes) => {
            dump(&bytes);
            Some(Stream { im, g, f, bytes })
        }
        Err(_) => {
            c.label("not-encoded");
            None
        }
    }
}
/// position and size of a component on its grid when the canvas is cut to r and n resolutions are dropped
pub fn comp_rect(k: &Comp, r: (u32, u32, u32, u32), n: u32) -> (u32, u32, u32, u32) {
    let f = |v: u32, d: u32| ceil_pow2(ceil_div(v, d), n);
    (f(r.0, k.dx), f(r.1, k.dy), f(r.2, k.dx), f(r.3, k.dy))
}
/// does part (decoded of canvas rectangle r, n resolutions dropped) hold the samples full has there?
pub fn same_as_crop(full: &Img, part: &Img, r: (u32, u32, u32, u32), n: u32) -> R {
    ensure!((part.x0, part.y0, part.x1, part.y1) == r, "wrong-bounds", "decoded image has bounds {:?}, wanted {:?}", (part.x0, part.y0, part.x1, part.y1), r);
    ensure!(part.comps.len() == full.comps.len(), "wrong-components", "{} components, full decode {}", part.comps.len(), full.comps.len());
    let whole = (full.x0, full.y0, full.x1, full.y1);
    for (i, (p, q)) in part.comps.iter().zip(&full.comps).enumerate() {
        let a = comp_rect(q, whole, n);
        let b = comp_rect(q, r, n);
        let (w, h) = (b.2.saturating_sub(b.0), b.3.saturating_sub(b.1));
        ensure!((p.w, p.h) == (w, h), "wrong-size", "comp {i} is {}x{}, expected {w}x{h}", p.w, p.h);
        ensure!((p.x0, p.y0) == (ceil_div(r.0, q.dx), ceil_div(r.1, q.dy)), "wrong-position", "comp {i} at {},{}", p.x0, p.y0);
        ensure!((p.prec, p.sgnd, p.dx, p.dy, p.factor) == (q.prec, q.sgnd, q.dx, q.dy, q.factor), "wrong-attributes", "comp {i}: {:?} vs {:?}", (p.prec, p.sgnd, p.dx, p.dy, p.factor), (q.prec, q.sgnd, q.dx, q.dy, q.factor));
        ensure!(p.data.len() == w as usize * h as usize, "no-samples", "comp {i} has {} samples, expected {w}x{h}", p.data.len());
        for y in 0..h {
            for x in 0..w {
                let v = p.data[(y * w + x) as usize];
                let o = q.data[((y + b.1 - a.1) * q.w + x + b.0 - a.0) as usize];
                ensure!(v == o, "mismatch", "comp {i} at ({x},{y}) of {w}x{h}: {v}, full decode has {o}");
            }
        }
    }
    Ok(())
}
/// a rectangle inside, across or around the image
pub fn rect(t: &mut Tape, im: &Img) -> (i32, i32, i32, i32) {
    let mut axis = |lo: u32, hi: u32, t: &mut Tape| -> (i32, i32) {
        let (lo, hi) = (lo as i64, hi as i64);
        match t.weighted(&[6, 3, 2, 1]) {
            0 => {
                let a = t.range(lo, hi - 1);
                (a as i32, t.range(a + 1, hi) as i32)
            }
            1 => {
                let a = t.range(lo, hi - 1);
                (a as i32, (a + 1 + t.range(0, 7)).min(hi) as i32)
            }
            2 => (lo as i32, hi as i32),
            _ => (t.range((lo - 9).max(0), hi - 1) as i32, t.range(lo + 1, hi + 20) as i32),
        }
    };
    let (a, b) = axis(im.x0, im.x1, t);
    let (c, d) = axis(im.y0, im.y1, t);
    let fix = |a: i32, b: i32| if b <= a { (b - 1, b) } else { (a, b) };
    let ((a, b), (c, d)) = (fix(a, b), fix(c, d));
    (a.max(0), c.max(0), b.max(1), d.max(1))
}
pub fn clip(r: (i32, i32, i32, i32), im: &Img) -> (u32, u32, u32, u32) {
    ((r.0 as u32).max(im.x0), (r.1 as u32).max(im.y0), (r.2 as u32).min(im.x1), (r.3 as u32).min(im.y1))
}
/// a stream from the encoder, or one assembled in ways the encoder does not use
pub struct Any {
    pub s: Stream,
    pub assembled: bool,
    /// fewest decomposition levels of any tile-component
    pub levels: u32,
    pub layers: u32,
}
pub fn any_or_assembled(c: &mut Ctx, lim: &Lim, den: u64) -> Result<Option<Any>, Fail> {
    if !c.t.chance(1, den) {
        return Ok(any_stream(c, lim).map(|s| {
            let (levels, layers) = (s.g.numres as u32 - 1, s.g.layers.max(1) as u32);
            Any { s, assembled: false, levels, layers }
        }));
    }
    let Some(b) = super::c13::assembled(c, lim)? else { return Ok(None) };
    c.label("assembled");
    let (levels, layers) = b.levels_layers();
    c.describe(|| format!("{} {} {:?}; {} levels or more", b.im.brief(), b.cfgs.iter().map(|g| g.brief()).collect::<Vec<_>>().join(" | "), b.made.what, levels));
    dump(&b.made.bytes);
    let g = EncCfg { numres: levels as i32 + 1, layers: layers as i32, tp: None, ..b.cfgs[0].clone() };
    Ok(Some(Any { s: Stream { im: b.im, g, f: Fmt::J2k, bytes: b.made.bytes }, assembled: true, levels, layers }))
}
