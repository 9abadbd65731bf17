use super::common::*;
use crate::gen::*;
use crate::w::*;
use vkit::*;

/// the same codestream, saying in every COD that no component transform was used
fn without_any_mct(b: &[u8]) -> Option<Vec<u8>> {
    let mut x = crate::asm::Cs::parse(b)?;
    for s in x.main.iter_mut().chain(x.parts.iter_mut().flat_map(|p| &mut p.segs)) {
        if s.m == 0xff52 {
            s.d.as_mut()?[4] = 0;
        }
    }
    Some(x.build())
}
/// the same codestream, saying that no component transform was used
pub fn without_mct(b: &[u8], f: Fmt) -> Option<Vec<u8>> {
    let mut v = b.to_vec();
    let at = match f {
        Fmt::J2k => 0,
        Fmt::Jp2 => crate::boxes::codestream(b)?.0,
    };
    // every COD there is: the main header's (this encoder writes none elsewhere)
    let mut p = at + 2;
    loop {
        let m = u16::from_be_bytes([v[p], v[p + 1]]);
        let l = u16::from_be_bytes([v[p + 2], v[p + 3]]) as usize;
        if m == 0xff90 {
            return None;
        }
        if m == 0xff52 {
            v[p + 8] = 0;
            return Some(v);
        }
        p += 2 + l;
    }
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 9000, ..Lim::default() };
    let Some(Any { s, assembled, levels, .. }) = any_or_assembled(c, &lim, 4)? else { return Ok(()) };
    let n = s.im.comps.len();
    let red = if c.t.chance(1, 4) { c.t.u32(0, levels) } else { 0 };
    let area = if c.t.chance(1, 3) { Some(rect(&mut c.t, &s.im)) } else { None };
    let tiles = grid(&s.im, &s.g);
    let tile = if area.is_none() && c.t.chance(1, 5) { Some(c.t.u32(0, tiles.0 * tiles.1 - 1)) } else { None };
    let o = DecOpts { reduce: red, lenient: c.t.chance(1, 5), layers: if c.t.chance(1, 6) { c.t.u32(1, 4) } else { 0 }, area, tile, ..Default::default() };
    // the set: distinct, in any order; sometimes invalid
    let mut all: Vec<u32> = (0..n as u32).collect();
    c.t.shuffle(&mut all);
    let mut set = all[..c.t.us(1, n)].to_vec();
    let invalid = c.t.weighted(&[8, 1, 1]);
    match invalid {
        1 => set.push(set[c.t.us(0, set.len() - 1)]),
        2 => {
            let i = c.t.us(0, set.len() - 1);
            set[i] = *c.t.pick(&[n as u32, n as u32 + 1, 255, 16384, u32::MAX]);
        }
        _ => {}
    }
    c.describe(|| format!("components {set:?} reduce {red} area {area:?} tile {tile:?}"));
    let part = decode(&s.bytes, s.f, &DecOpts { comps: Some(set.clone()), ..o.clone() });
    if invalid > 0 {
        c.label("invalid-set");
        c.nontrivial();
        return match part {
            Err(e) if e.stage == "set_decoded_components" => Ok(()),
            Err(e) => fail("invalid-set-accepted", format!("{set:?}: {}", e.text())),
            Ok(_) => fail("invalid-set-accepted", format!("{set:?} of {n}")),
        };
    }
    let plain = if assembled { without_any_mct(&s.bytes) } else { without_mct(&s.bytes, s.f) };
    let Some(plain) = plain else { return fail("harness", "no COD") };
    let full = match decode(&plain, s.f, &o) {
        Ok(i) => i,
        Err(e) => {
            c.label("no-full-decode");
            // a region may lie outside of the image
            if area.is_none() {
                return fail("decode-refused", e.text());
            }
            return Ok(());
        }
    };
    if set.len() < n || s.g.mct != 0 {
        c.nontrivial();
    }
    c.label_if(s.g.mct != 0, "with-mct");
    let p = match part {
        Ok(p) => p,
        Err(e) => return fail("subset-refused", format!("{set:?} of {n}: {}", e.text())),
    };
    ensure!(p.comps.len() == set.len(), "wrong-count", "{} components for {set:?}", p.comps.len());
    ensure!((p.x0, p.y0, p.x1, p.y1) == (full.x0, full.y0, full.x1, full.y1), "wrong-bounds", "{} vs {}", p.brief(), full.brief());
    for (k, &i) in p.comps.iter().zip(&set) {
        let f = &full.comps[i as usize];
        ensure!((k.dx, k.dy, k.w, k.h, k.x0, k.y0, k.prec, k.sgnd, k.factor) == (f.dx, f.dy, f.w, f.h, f.x0, f.y0, f.prec, f.sgnd, f.factor), "wrong-attributes", "component {i}: {:?}", (k.dx, k.dy, k.w, k.h, k.x0, k.y0, k.prec, k.sgnd, k.factor));
        ensure!(k.data.len() == f.data.len(), "no-samples", "component {i}: {} samples of {}", k.data.len(), f.data.len());
        if let Some(q) = k.data.iter().zip(&f.data).position(|(a, b)| a != b) {
            return fail("mismatch", format!("component {i}: sample {q}: {} instead of {}", k.data[q], f.data[q]));
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "a proper subset, or components of a stream with a component transform, or an invalid set", ..Prop::new("C17", run) }
}
