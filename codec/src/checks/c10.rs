use crate::gen::*;
use crate::w::*;
use vkit::*;

pub fn diff(a: &Img, b: &Img) -> Option<String> {
    if (a.x0, a.y0, a.x1, a.y1) != (b.x0, b.y0, b.x1, b.y1) {
        return Some(format!("bounds {:?} vs {:?}", (a.x0, a.y0, a.x1, a.y1), (b.x0, b.y0, b.x1, b.y1)));
    }
    if a.comps.len() != b.comps.len() {
        return Some(format!("{} vs {} components", a.comps.len(), b.comps.len()));
    }
    for (i, (p, q)) in a.comps.iter().zip(&b.comps).enumerate() {
        if (p.dx, p.dy, p.w, p.h, p.x0, p.y0) != (q.dx, q.dy, q.w, q.h, q.x0, q.y0) {
            return Some(format!("comp {i} geometry {:?} vs {:?}", (p.dx, p.dy, p.w, p.h, p.x0, p.y0), (q.dx, q.dy, q.w, q.h, q.x0, q.y0)));
        }
        if (p.prec, p.sgnd) != (q.prec, q.sgnd) {
            return Some(format!("comp {i} depth {:?} vs {:?}", (p.prec, p.sgnd), (q.prec, q.sgnd)));
        }
        if p.data.len() != q.data.len() {
            return Some(format!("comp {i} has {} vs {} samples", p.data.len(), q.data.len()));
        }
        if std::env::var_os("VKIT_DIFF").is_some() { for (x,y) in p.data.chunks(p.w as usize).zip(q.data.chunks(p.w as usize)) { eprintln!("{:?}\n{:?}\n", x, y); } }
        if let Some(k) = p.data.iter().zip(&q.data).position(|(x, y)| x != y) {
            let n = p.data.iter().zip(&q.data).filter(|(x, y)| x != y).count();
            return Some(format!("comp {i}: {n} of {} samples differ, first at ({},{}): {} vs {}", p.data.len(), k as u32 % p.w, k as u32 / p.w, p.data[k], q.data[k]));
        }
    }
    None
}

fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_prec: if c.t.chance(1, 6) { 31 } else { 16 }, ..Lim::default() };
    let im = image(&mut c.t, &lim);
    let mut g = structure(&mut c.t, &im);
    lossless_layers(&mut c.t, &mut g);
    roi(&mut c.t, &im, &mut g);
    let tiles = grid(&im, &g);
    if tiles.0 * tiles.1 <= 12 && c.t.chance(1, 6) {
        pocs(&mut c.t, &im, &mut g, tiles.0 * tiles.1);
    }
    let f = fmt(&mut c.t);
    label_cfg(c, &im, &g);
    c.describe(|| format!("{} {} {:?}", im.brief(), g.brief(), f));
    if im.comps.iter().any(|k| k.data.iter().any(|&v| v != k.data[0])) {
        c.nontrivial();
    }
    let bytes = match encode(&im, &g, f) {
        Ok(b) => b,
        // a tile in which no component has a sample may be refused
        Err(_) if empty_tile(&im, &g) => return Ok(()),
        // the 8-bit TPsot/TNsot fields bound the number of tile-parts
        Err(_) if many_tile_parts(&im, &g) => return Ok(()),
        // coefficients are limited to 25 bits of magnitude; transforms may add up to 4 bits to the samples
        Err(_) if im.comps.iter().any(|k| k.prec >= 23) => {
            c.label("refused-high-precision");
            return Ok(());
        }
        Err(e) => return fail("encode-refused", e.text()),
    };
    dump(&bytes);
    let out = match decode(&bytes, f, &DecOpts::default()) {
        Ok(o) => o,
        Err(e) => return fail("decode-refused", e.text()),
    };
    if let Some(d) = diff(&im, &out) {
        return fail("mismatch", d);
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        rule: "the image is not constant",
        ..Prop::new("C10", run)
    }
}
