//! C11: what lossy coding promises - small errors of the default quantiser, byte budgets, qualities, layers that help.
use super::common::*;
use crate::gen::*;
use crate::refdec::{self, pkt, stream};
use crate::w::*;
use vkit::*;

/// squared error of each component, and the largest error of any sample
fn errors(a: &Img, b: &Img) -> (Vec<f64>, i64) {
    let mut most = 0;
    let v = a
        .comps
        .iter()
        .zip(&b.comps)
        .map(|(p, q)| {
            p.data.iter().zip(&q.data).map(|(x, y)| {
                let d = *x as i64 - *y as i64;
                most = most.max(d.abs());
                (d * d) as f64
            }).sum()
        })
        .collect();
    (v, most)
}
fn sound(got: &Img, im: &Img) -> R {
    ensure!((got.x0, got.y0, got.x1, got.y1) == (im.x0, im.y0, im.x1, im.y1), "bounds", "{}", got.brief());
    ensure!(got.comps.len() == im.comps.len(), "components", "{}", got.comps.len());
    for (i, (k, q)) in got.comps.iter().zip(&im.comps).enumerate() {
        ensure!((k.w, k.h, k.dx, k.dy, k.prec, k.sgnd) == (q.w, q.h, q.dx, q.dy, q.prec, q.sgnd), "geometry", "component {i}: {} for {}", got.brief(), im.brief());
        ensure!(k.data.len() == q.data.len(), "samples", "component {i}: {} samples", k.data.len());
        let (lo, hi) = (k.lo(), k.hi());
        if let Some(v) = k.data.iter().find(|v| (**v as i64) < lo || **v as i64 > hi) {
            return fail("range", format!("component {i}: sample {v} outside {lo}..{hi}"));
        }
    }
    Ok(())
}
/// what the default step sizes and the rounding on the way allow
fn free_errors(im: &Img, g: &EncCfg, got: &Img, what: &str) -> R {
    let (e, most) = errors(got, im);
    if !g.irreversible {
        ensure!(most == 0, "lossless", "{what}: reversible, but samples differ by {most}");
        return Ok(());
    }
    let prec = im.comps.iter().map(|k| k.prec).max().unwrap();
    let f = 4f64.powi(prec as i32 - 16).max(1.0) * if g.mct == 1 { 3.0 } else { 1.0 };
    let (mse, abs) = (f * if prec > 14 { 16.0 } else { 2.5 }, (f.sqrt() * 16.0) as i64);
    for (i, (k, e)) in im.comps.iter().zip(&e).enumerate() {
        let e = e / k.data.len().max(1) as f64;
        ensure!(e <= mse, "error", "{what}: mean squared error {e} of component {i}");
    }
    ensure!(most <= abs, "error", "{what}: a sample is off by {most}");
    Ok(())
}
/// nothing flat, nothing regular: every block has something to code and no two blocks are the same
fn textured(t: &mut Tape, im: &mut Img) {
    for c in &mut im.comps {
        let mut r = t.fork();
        let (lo, hi) = (c.lo(), c.hi());
        let span = hi - lo + 1;
        let (a, b) = (r.next() as i64 % 7 - 3, r.next() as i64 % 7 - 3);
        let n = (span >> t.us(1, 2)).max(2);
        for y in 0..c.h as i64 {
            for x in 0..c.w as i64 {
                let v = lo + span / 2 + a * x * span / 2048 + b * y * span / 2048 + (r.next() >> 16) as i64 % n - n / 2;
                c.data[(y * c.w as i64 + x) as usize] = v.clamp(lo, hi) as i32;
            }
        }
    }
}
/// between what and what the packets of a tile up to each layer may come to, where the components agree
fn budgets(im: &Img, g: &EncCfg, tile: u32, st: &stream::Stream) -> Option<Vec<(f64, f64)>> {
    let k = &im.comps[0];
    if im.comps.iter().any(|q| (q.prec, q.dx, q.dy) != (k.prec, k.dx, k.dy)) {
        return None;
    }
    let (x0, y0, x1, y1) = tile_rect(im, g, tile);
    let raw = im.comps.len() as f64 * k.prec as f64 * (x1 - x0) as f64 * (y1 - y0) as f64 / (8 * k.dx * k.dy) as f64;
    let parts = st.parts.iter().filter(|p| p.tile == tile as usize).count() as f64;
    let off = (parts - 1.0) * 14.0 / g.layers as f64 + st.main_end as f64 / st.tiles.len() as f64 + 2.0;
    let mut o: Vec<(f64, f64)> = vec![];
    for r in &g.rates {
        let b = raw / *r as f64;
        let (lo, hi) = o.last().map_or((30.0, 30.0), |p| (p.0, p.1 + 20.0));
        o.push(((b - off).max(lo), b.max(hi)));
    }
    Some(o)
}
fn run(c: &mut Ctx) -> R {
    let kind = c.t.weighted(&[3, 4, 3]);
    let lim = Lim { max_area: if kind == 1 { 16000 } else { 9000 }, ..Lim::default() };
    let mut im = image(&mut c.t, &lim);
    let tex = kind != 0 && c.t.chance(4, 5);
    if tex {
        textured(&mut c.t, &mut im);
    }
    let mut g = structure(&mut c.t, &im);
    g.irreversible = kind == 0 || c.t.chance(2, 3);
    let n = if c.t.chance(1, 2) { 1 } else { c.t.us(2, 6) };
    match kind {
        0 => {
            g.disto_alloc = true;
            g.layers = 1;
            g.rates = vec![0.0];
        }
        1 => {
            g.disto_alloc = true;
            g.layers = n as i32;
            let mut r = 1.0 + c.t.us(1, 400) as f32 / if c.t.bool() { 4.0 } else { 20.0 };
            for _ in 0..n {
                g.rates.push(r);
                r = 1.0 + (r - 1.0) * *c.t.pick(&[0.5f32, 0.7, 0.9]);
            }
            if c.t.chance(1, 5) {
                *g.rates.last_mut().unwrap() = 0.0;
            }
        }
        _ => {
            g.fixed_quality = true;
            g.layers = n as i32;
            let mut q = 10.0 + c.t.us(0, 300) as f32 / 8.0;
            for _ in 0..n {
                g.distoratio.push(q);
                q += c.t.us(1, 60) as f32 / 8.0;
            }
            if c.t.chance(1, 5) {
                *g.distoratio.last_mut().unwrap() = 0.0;
            }
        }
    }
    label_cfg(c, &im, &g);
    c.describe(|| format!("{} {}", im.brief(), g.brief()));
    let b = match encode(&im, &g, Fmt::J2k) {
        Ok(x) => x,
        Err(_) if many_tile_parts(&im, &g) || empty_tile(&im, &g) => {
            c.label("not-encoded");
            return Ok(());
        }
        Err(e) => return fail("encode-refused", e.text()),
    };
    dump(&b);
    let dec = |b: &[u8], l: u32| match decode(b, Fmt::J2k, &DecOpts { layers: l, ..Default::default() }) {
        Ok(g) => Ok(g),
        Err(e) => fail("decode-refused", e.text()),
    };
    let all = dec(&b, 0)?;
    sound(&all, &im)?;
    let n: usize = im.comps.iter().map(|k| k.data.len()).sum();
    let peak: f64 = im.comps.iter().map(|k| ((1u64 << k.prec) - 1).pow(2) as f64 * k.data.len() as f64).sum();
    let psnr = |e: f64| 10.0 * (peak / e.max(1e-9)).log10();
    let prec = im.comps.iter().map(|k| k.prec).max().unwrap();
    if kind == 0 {
        free_errors(&im, &g, &all, "no limit")?;
        if im.comps.iter().any(|k| k.data.iter().any(|v| *v != k.data[0])) {
            c.nontrivial();
        }
        return Ok(());
    }
    // the same without limits
    let mut h = g.clone();
    h.fixed_quality = false;
    h.disto_alloc = true;
    h.layers = 1;
    h.rates = vec![0.0];
    h.distoratio.clear();
    let fb = match encode(&im, &h, Fmt::J2k) {
        Ok(x) => x,
        Err(e) => return fail("encode-refused", format!("without limits: {}", e.text())),
    };
    let freed = dec(&fb, 0)?;
    sound(&freed, &im)?;
    let free: f64 = errors(&freed, &im).0.iter().sum();
    let parsed = |b: &[u8]| -> Result<_, Fail> {
        let st = match stream::parse(b) {
            Ok(x) => x,
            Err(e) => return fail("markers", e),
        };
        match refdec::decode(&st, 0, u32::MAX) {
            Ok(o) => Ok((st, o)),
            Err(e) => fail("packets", e),
        }
    };
    let (_, fout) = parsed(&fb)?;
    let (st, out) = parsed(&b)?;
    // nothing is dropped where the last layer has no limit
    if *if kind == 1 { &g.rates } else { &g.distoratio }.last().unwrap() == 0.0 {
        c.label("last-unlimited");
        free_errors(&im, &g, &all, "the last layer without limit")?;
    }
    // the least there can be
    let mut least = vec![];
    if kind == 1 {
        let mut h = g.clone();
        h.layers = 1;
        h.rates = vec![1e6];
        let b = match encode(&im, &h, Fmt::J2k) {
            Ok(x) => x,
            Err(e) => return fail("encode-refused", format!("rate of a million: {}", e.text())),
        };
        let (_, o) = parsed(&b)?;
        for (i, t) in o.tiles.iter().enumerate() {
            let sum = |t: &pkt::Tile| t.pks.iter().map(|p| p.at.1 - p.at.0).sum::<usize>();
            let empty: usize = t.pks.iter().map(|p| 1 + 6 * p.sop as usize + 2 * p.eph as usize).sum();
            let (n, full) = (sum(t), sum(&fout.tiles[i]));
            least.push(n);
            if tex && full > 2 * empty && full > 1000 {
                c.label("least-judged");
                ensure!(n * 10 <= full * 6, "rate", "tile {i} has {n} bytes of packets at a rate of a million, {full} without limits");
            }
        }
    }
    let mut last = f64::INFINITY;
    for l in 1..=g.layers as u32 {
        let d = dec(&b, l)?;
        sound(&d, &im)?;
        let e: f64 = errors(&d, &im).0.iter().sum();
        if tex && n >= 16 {
            let room = last * 1.5 + n as f64 * (8.0 + 4f64.powi(prec as i32 - 12));
            ensure!(e <= room, "layers", "squared error {e} with {l} layers, {last} with one less; {n} samples");
        }
        last = e;
        if kind == 2 {
            let q = g.distoratio[l as usize - 1] as f64;
            let want = if q > 0.0 { q.min(psnr(free)) } else { psnr(free) };
            c.label_if(q > 0.0 && q < psnr(free), "quality-below-best");
            let slack = if n < 400 { 18.0 } else if want > 40.0 { 15.0 } else { 11.0 };
            ensure!(psnr(e) >= want - slack, "quality", "{:.2} dB in {l} layers; {q} asked for, {:.2} without limits; {n} samples", psnr(e), psnr(free));
            if q > 0.0 && q < psnr(free) {
                c.nontrivial();
            }
            continue;
        }
        let (mut easy, mut sum) = (true, 0.0);
        for (i, t) in out.tiles.iter().enumerate() {
            let Some(x) = budgets(&im, &g, i as u32, &st) else {
                easy = false;
                break;
            };
            if g.rates[l as usize - 1] <= 0.0 {
                easy = false;
                continue;
            }
            let (lo, hi) = x[l as usize - 1];
            sum += hi;
            let ps: Vec<_> = t.pks.iter().filter(|p| p.l < l).collect();
            let bytes = |f: &dyn Fn(&pkt::Pk) -> bool| -> usize { ps.iter().filter(|p| f(p)).map(|p| p.at.1 - p.at.0).sum() };
            let none = |f: &dyn Fn(&pkt::Pk) -> bool| -> usize { ps.iter().filter(|p| f(p)).map(|p| 1 + 6 * p.sop as usize + 2 * p.eph as usize).sum() };
            let (pk, empty) = (bytes(&|_| true), none(&|_| true));
            let full: usize = fout.tiles[i].pks.iter().map(|p| p.at.1 - p.at.0).sum();
            let what = || format!("tile {i} has {pk} bytes of packets in {l} layers, {hi:.1} allowed, {empty} if empty, {full} in all");
            c.label_if(full as f64 > hi, "limit-below-full");
            if full as f64 > hi {
                c.nontrivial();
            }
            if l == 1 {
                // where nothing fits the steepest pass of each block is what there is at least
                ensure!(pk as f64 <= hi.ceil().max(least[i] as f64), "rate", "{}, {} at least", what(), least[i]);
            } else {
                // or only empty packets are left to add
                let (was, new) = (bytes(&|p| p.l + 1 < l), none(&|p| p.l + 1 == l));
                ensure!(pk as f64 <= hi.max((was + new) as f64) + 16.0 + 0.05 * new as f64, "rate", "{}; {was} and {new} before and new", what());
                easy &= (was + new) as f64 <= hi;
            }
            if tex && lo - empty as f64 > 200.0 {
                c.label("roomy");
                let largest = fout.tiles[i].pks.iter().map(|p| p.at.1 - p.at.0).max().unwrap_or(0);
                if full as f64 > 1.5 * hi && lo - empty as f64 > 2.0 * largest as f64 {
                    c.label("use-judged");
                    ensure!(pk as f64 > lo * 0.3, "unused", "{}", what());
                }
            } else {
                easy = false;
            }
        }
        if easy && g.layers == 1 && !g.plt {
            c.label("whole-stream-judged");
            ensure!(b.len() as f64 <= sum + 14.0 * st.parts.len() as f64 + 16.0, "rate", "{} bytes in all, {sum:.1} asked for", b.len());
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "an image which is not flat; with rates or qualities, one which is below what the image can be coded with", ..Prop::new("C11", run) }
}
