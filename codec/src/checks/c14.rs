use super::common::*;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 9000, ..Lim::default() };
    let Some(Any { s, .. }) = any_or_assembled(c, &lim, 4)? else { return Ok(()) };
    let red = if c.t.chance(2, 5) { c.t.u32(0, s.g.numres as u32 - 1) } else { 0 };
    let layers = if c.t.chance(1, 6) { c.t.u32(1, 4) } else { 0 };
    let lenient = c.t.chance(1, 4);
    let full = match decode(&s.bytes, s.f, &DecOpts { reduce: red, layers, lenient, ..Default::default() }) {
        Ok(o) => o,
        Err(e) => return fail("decode-refused", e.text()),
    };
    let n = c.t.us(1, 3);
    let rects: Vec<_> = (0..n).map(|_| rect(&mut c.t, &s.im)).collect();
    c.describe(|| format!("reduce {red} layers {layers} regions {rects:?}"));
    let tiles = grid(&s.im, &s.g);
    let single = tiles == (1, 1);
    let valid = |r: (u32, u32, u32, u32)| r.0 < r.2 && r.1 < r.3;
    let whole = (s.im.x0, s.im.y0, s.im.x1, s.im.y1);
    for r in &rects {
        let k = clip(*r, &s.im);
        let must = valid(k);
        if must && k != whole {
            c.nontrivial();
        }
        match decode(&s.bytes, s.f, &DecOpts { reduce: red, layers, lenient, area: Some(*r), ..Default::default() }) {
            Ok(p) => same_as_crop(&full, &p, k, red)?,
            Err(e) if must => return fail("region-refused", format!("region {r:?}: {}", e.text())),
            Err(_) => c.label("empty-region-refused"),
        }
    }
    // the same regions one after another from one codec: single tiles are kept for this
    if single && rects.len() > 1 && rects.iter().all(|r| valid(clip(*r, &s.im))) {
        c.label("in-turn");
        // what covers the whole image is not kept, so that later regions may be refused
        let kept = rects.iter().position(|r| clip(*r, &s.im) == whole).map_or(rects.len(), |i| i + 1);
        let rects = &rects[..kept];
        let mut m = Msgs::default();
        let mut mem = Mem::reader(&s.bytes);
        let mut out = vec![];
        let bad = unsafe {
            let mut g = Guards::new();
            g.stream = mem_stream(&mut mem, true, 1 << 20);
            g.codec = opj_create_decompress(s.f.codec());
            set_handlers(g.codec, &mut m);
            let mut p: Box<opj_dparameters_t> = Box::default();
            p.cp_reduce = red;
            p.cp_layer = layers;
            let mut bad = None;
            if opj_setup_decoder(g.codec, &mut *p) == 0 || opj_decoder_set_strict_mode(g.codec, !lenient as i32) == 0 || opj_read_header(g.stream, g.codec, &mut g.image) == 0 {
                bad = Some("header".to_string());
            } else {
                for r in rects {
                    if opj_set_decode_area(g.codec, g.image, r.0, r.1, r.2, r.3) == 0 {
                        bad = Some(format!("set_decode_area {r:?}"));
                        break;
                    }
                    if opj_decode(g.codec, g.stream, g.image) == 0 {
                        bad = Some(format!("decode of {r:?}"));
                        break;
                    }
                    out.push(Img::from_opj(g.image));
                }
            }
            drop(g);
            bad
        };
        if let Some(b) = bad {
            return fail("region-in-turn-refused", format!("{b} (after {} regions): {:?}", out.len(), m.err));
        }
        for (r, p) in rects.iter().zip(&out) {
            same_as_crop(&full, p, clip(*r, &s.im), red).map_err(|e| Fail { sig: format!("in-turn-{}", e.sig), msg: format!("region {r:?}: {}", e.msg) })?;
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "a non-empty region smaller than the image was decoded and compared", ..Prop::new("C14", run) }
}
