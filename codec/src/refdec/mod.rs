//! A reference decoder written from ISO/IEC 15444-1, independent of the library under test.
pub mod pkt;
pub mod stream;
pub mod t1;
pub mod wt;
use crate::need;
use pkt::*;
use stream::*;
use wt::*;

/// samples of a component (DC level shifted and clamped), reversible ones exact
#[derive(Clone, Debug, PartialEq)]
pub struct Plane {
    pub g: Grid<i64>,
    /// some tile was coded with the irreversible transform
    pub lossy: bool,
}
/// quantised coefficients of a sub-band to what they stand for
fn dequant(s: &Stream, tile: usize, c: usize, b: &Band, coefs: &Grid<t1::Coef>) -> E<Grid<f64>> {
    let sp = s.spc(tile, c);
    let q = s.qnt(tile, c);
    let sh = s.roi(tile, c);
    let (e, mu) = step(q, sp.levels, b)?;
    let mb = q.guard + e - 1;
    let gain = [0, 1, 1, 2][b.orient as usize];
    let delta = if sp.rev { 1.0 } else { 2f64.powi((s.siz.comps[c].prec + gain) as i32 - e as i32) * (1.0 + mu as f64 / 2048.0) };
    let mut g = Grid::new(b.r);
    for (o, k) in g.d.iter_mut().zip(&coefs.d) {
        if k.mag == 0 {
            continue;
        }
        let (mut mag, mut p) = (k.mag, k.plane as i32);
        if sh > 0 {
            // H.1: coefficients of the region have bits among the upper Mb of Mb + s
            if (mag as u128) << p >= 1u128 << sh {
                p -= sh as i32;
                if p < 0 {
                    mag >>= -p;
                    p = 0;
                }
            }
        }
        let _ = mb;
        let v = if sp.rev { ((mag as f64 + 0.5) * 2f64.powi(p)).floor() } else { (mag as f64 + 0.5) * 2f64.powi(p) * delta };
        *o = if k.neg { -v } else { v };
    }
    Ok(g)
}
pub fn step(q: &Qnt, nl: u32, b: &Band) -> E<(u32, u32)> {
    if q.style == 1 {
        let (e, m) = q.steps[0];
        let e = e as i64 - nl as i64 + b.nb as i64;
        need!(e >= 0, "derived exponent {e}");
        return Ok((e as u32, m));
    }
    let i = if b.orient == 0 { 0 } else { 3 * (nl - b.nb) as usize + b.orient as usize };
    need!(i < q.steps.len(), "no quantisation step {i}");
    Ok(q.steps[i])
}
/// decoded coefficients of all code-blocks of a band
fn coefs(s: &Stream, tile: usize, c: usize, res: &Res, bi: usize) -> E<Grid<t1::Coef>> {
    let b = &res.bands[bi];
    let sp = s.spc(tile, c);
    let q = s.qnt(tile, c);
    let (e, _) = step(q, sp.levels, b)?;
    let mb = (q.guard + e + s.roi(tile, c)) as i64 - 1;
    let mut g: Grid<t1::Coef> = Grid::new(b.r);
    for p in &res.precs {
        for k in &p.bands[bi].blks {
            if !k.incl || k.segs.iter().all(|s| s.passes == 0) {
                continue;
            }
            let planes = mb - k.zbp as i64;
            need!(planes > 0, "{} bit-planes of {mb} missing", k.zbp);
            let segs: Vec<(u32, &[u8])> = k.segs.iter().map(|s| (s.passes, &s.data[..])).collect();
            let (w, h) = ((k.r.2 - k.r.0) as usize, (k.r.3 - k.r.1) as usize);
            need!(planes < 62, "{planes} bit-planes");
            let v = t1::decode(w, h, b.orient, sp.mode, planes as u32, &segs)?;
            for y in 0..h {
                for x in 0..w {
                    let i = g.at(k.r.0 + x as i64, k.r.1 + y as i64);
                    g.d[i] = v[y * w + x];
                }
            }
        }
    }
    Ok(g)
}
/// wavelet-domain values of a tile-component: LL, then HL LH HH of every resolution
pub fn bands(s: &Stream, t: &Tile, tile: usize, c: usize, reduce: u32) -> E<Vec<Grid<f64>>> {
    let tc = &t.comps[c];
    let mut v = vec![];
    for r in &tc.res[..tc.res.len() - reduce as usize] {
        for (bi, b) in r.bands.iter().enumerate() {
            v.push(dequant(s, tile, c, b, &coefs(s, tile, c, r, bi)?)?);
        }
    }
    Ok(v)
}
fn compose(s: &Stream, t: &Tile, tile: usize, c: usize, v: &[Grid<f64>]) -> Grid<f64> {
    let tc = &t.comps[c];
    let rev = s.spc(tile, c).rev;
    if rev {
        let int = |g: &Grid<f64>| Grid { x0: g.x0, y0: g.y0, x1: g.x1, y1: g.y1, d: g.d.iter().map(|x| *x as i64).collect::<Vec<i64>>() };
        let mut g = int(&v[0]);
        for i in 0..v.len() / 3 {
            g = inv53(tc.res[i + 1].r, &g, [&int(&v[3 * i + 1]), &int(&v[3 * i + 2]), &int(&v[3 * i + 3])]);
        }
        return Grid { x0: g.x0, y0: g.y0, x1: g.x1, y1: g.y1, d: g.d.iter().map(|x| *x as f64).collect() };
    }
    let mut g = v[0].clone();
    for i in 0..v.len() / 3 {
        g = inv97(tc.res[i + 1].r, &g, [&v[3 * i + 1], &v[3 * i + 2], &v[3 * i + 3]]);
    }
    g
}
pub struct Out {
    pub planes: Vec<Plane>,
    /// how far the samples before rounding reach, and how large a rounding error can become
    pub tiles: Vec<Tile>,
}
pub fn decode(s: &Stream, reduce: u32, layers: u32) -> E<Out> {
    let mut tiles = vec![];
    for n in 0..s.tiles.len() {
        tiles.push(tile(s, n, layers, false)?);
    }
    let planes = samples(s, &tiles, reduce, None)?;
    Ok(Out { planes, tiles })
}
/// `replace`: values of the wavelet domain to use instead of what the packets hold [tile][component][band]
pub fn samples(s: &Stream, tiles: &[Tile], reduce: u32, replace: Option<&Vec<Vec<Vec<Grid<f64>>>>>) -> E<Vec<Plane>> {
    let z = &s.siz;
    let mut planes: Vec<Plane> = z
        .comps
        .iter()
        .map(|k| {
            let r = (cdiv(z.x0, k.dx), cdiv(z.y0, k.dy), cdiv(z.x1, k.dx), cdiv(z.y1, k.dy));
            Plane { g: Grid::new((cshift(r.0, reduce), cshift(r.1, reduce), cshift(r.2, reduce), cshift(r.3, reduce))), lossy: false }
        })
        .collect();
    for (n, t) in tiles.iter().enumerate() {
        let mut v = vec![];
        for c in 0..z.comps.len() {
            need!(reduce <= s.spc(n, c).levels, "component {c} has fewer resolutions");
            let b = match replace {
                Some(r) => r[n][c].clone(),
                None => bands(s, t, n, c, reduce)?,
            };
            v.push(compose(s, t, n, c, &b));
            planes[c].lossy |= !s.spc(n, c).rev;
        }
        if s.cod(n).mct == 1 {
            need!(v.len() >= 3, "component transform of {} components", v.len());
            need!((1..3).all(|i| v[i].d.len() == v[0].d.len()), "component transform of components of different size");
            let rev = s.spc(n, 0).rev;
            for i in 0..v[0].d.len() {
                let (a, b, c) = (v[0].d[i], v[1].d[i], v[2].d[i]);
                let (r, g, bl) = if rev {
                    let g = a - ((b + c) / 4.0).floor();
                    (c + g, g, b + g)
                } else {
                    (a + 1.402 * c, a - 0.344136 * b - 0.714136 * c, a + 1.772 * b)
                };
                v[0].d[i] = r;
                v[1].d[i] = g;
                v[2].d[i] = bl;
            }
        }
        for (c, g) in v.iter().enumerate() {
            let k = &z.comps[c];
            let (lo, hi) = if k.sgnd { (-(1i64 << (k.prec - 1)), (1i64 << (k.prec - 1)) - 1) } else { (0, (1i64 << k.prec) - 1) };
            let dc = if k.sgnd { 0 } else { 1i64 << (k.prec - 1) };
            let p = &mut planes[c].g;
            for y in g.y0..g.y1 {
                for x in g.x0..g.x1 {
                    let i = p.at(x, y);
                    p.d[i] = (g.get(x, y).round_ties_even() as i64).saturating_add(dc).clamp(lo, hi);
                }
            }
        }
    }
    Ok(planes)
}
