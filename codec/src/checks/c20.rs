//! C20: streams cut off after the main header.
use super::c12::tolerance;
use super::common::*;
use crate::boxes;
use crate::gen::*;
use crate::refdec::wt::{interleave, Grid};
use crate::refdec::{self, pkt, stream};
use crate::w::*;
use vkit::*;

/// where a tile-component's samples are touched by the marked coefficients
fn spread(s: &stream::Stream, t: &pkt::Tile, tile: usize, c: usize, reduce: u32, dirty: &[(u32, usize, (i64, i64, i64, i64))]) -> Grid<u8> {
    let tc = &t.comps[c];
    let reach = if s.spc(tile, c).rev { 2 } else { 4 };
    let mut v: Vec<Vec<Grid<u8>>> = tc.res.iter().map(|r| r.bands.iter().map(|b| Grid::new(b.r)).collect()).collect();
    for (r, b, q) in dirty {
        let g = &mut v[*r as usize][*b];
        for y in q.1..q.3 {
            for x in q.0..q.2 {
                let i = g.at(x, y);
                g.d[i] = 1;
            }
        }
    }
    let mut g = v[0][0].clone();
    for i in 1..tc.res.len() - reduce as usize {
        let m = interleave(tc.res[i].r, &g, [&v[i][0], &v[i][1], &v[i][2]]);
        let mut o = Grid::new(tc.res[i].r);
        if m.d.iter().any(|x| *x != 0) {
            for y in m.y0..m.y1 {
                for x in m.x0..m.x1 {
                    if m.get(x, y) != 0 {
                        for yy in (y - reach).max(m.y0)..(y + reach + 1).min(m.y1) {
                            for xx in (x - reach).max(m.x0)..(x + reach + 1).min(m.x1) {
                                let i = o.at(xx, yy);
                                o.d[i] = 1;
                            }
                        }
                    }
                }
            }
        }
        g = o;
    }
    g
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 4000, ..Lim::default() };
    let (im, f, bytes);
    if c.t.chance(3, 4) {
        let Some(s) = any_stream(c, &lim) else { return Ok(()) };
        (im, f, bytes) = (s.im, s.f, s.bytes);
    } else {
        let Some(b) = super::c13::assembled(c, &lim)? else { return Ok(()) };
        c.label("assembled");
        c.describe(|| format!("{} {:?}", b.im.brief(), b.made.what));
        (im, f, bytes) = (b.im, Fmt::J2k, b.made.bytes);
    }
    let (lo, hi) = match f {
        Fmt::J2k => (0, bytes.len()),
        Fmt::Jp2 => boxes::codestream(&bytes).ok_or_else(|| Fail { sig: "harness".into(), msg: "no codestream".into() })?,
    };
    let st = match stream::parse(&bytes[lo..hi]) {
        Ok(x) => x,
        Err(e) => return fail("markers", e),
    };
    let full = match refdec::decode(&st, 0, u32::MAX) {
        Ok(o) => o,
        Err(e) => return fail("packets", e),
    };
    // where to cut: anywhere, or near something
    let len = hi - lo;
    let first = st.main_end + 2;
    let cut = match c.t.weighted(&[4, 3, 2, 2]) {
        0 => c.t.us(first, len),
        1 => {
            let p = c.t.us(0, st.parts.len() - 1);
            let t = &full.tiles[st.parts[p].tile];
            let v: Vec<&pkt::Pk> = t.pks.iter().filter(|k| k.part == p).collect();
            match v.is_empty() {
                true => st.parts[p].end,
                false => {
                    let k = v[c.t.us(0, v.len() - 1)];
                    *c.t.pick(&[k.at.0, k.at.0 + 1, k.body.0, k.body.0 + 1, k.at.1, k.at.1.saturating_sub(1), k.body.0.saturating_sub(1)])
                }
            }
        }
        2 => {
            let p = &st.parts[c.t.us(0, st.parts.len() - 1)];
            *c.t.pick(&[p.sot, p.sot + 2, p.sot + 11, p.sot + 12, p.sot + 13, p.sod_end - 2, p.sod_end - 1, p.sod_end, p.sod_end + 1, p.end - 1, p.end])
        }
        _ => len - c.t.us(0, len.min(9)),
    }
    .clamp(first, len);
    // what is left
    let mut rest = st.clone();
    rest.parts.retain(|p| p.sod_end <= cut);
    rest.data.truncate(cut);
    for p in &mut rest.parts {
        let end = if p.psot == 0 { cut.saturating_sub(2).max(p.sod_end) } else { cut };
        p.end = p.end.min(end);
    }
    let cut_part = st.parts.iter().zip(&rest.parts).position(|(a, b)| b.end < a.end);
    let in_header = st.parts.iter().any(|p| p.sot < cut && cut < p.sod_end);
    let nt = st.tiles.len();
    let mut tiles = vec![];
    for n in 0..nt {
        match pkt::tile(&rest, n, u32::MAX, true) {
            Ok(t) => tiles.push(t),
            Err(e) => return fail("harness", e),
        }
    }
    // code-blocks which lose data in the packet the cut is in, or all in it when the header is incomplete
    let mut dirty: Vec<Vec<Vec<(u32, usize, (i64, i64, i64, i64))>>> = vec![vec![vec![]; im.comps.len()]; nt];
    let mut in_body = false;
    if let Some(p) = cut_part {
        let n = st.parts[p].tile;
        let end = rest.parts[p].end;
        let t = &full.tiles[n];
        if let Some(k) = t.pks.get(tiles[n].pks.len()).filter(|k| k.part == p) {
            let prec = &t.comps[k.c].res[k.r as usize].precs[k.k];
            let mut at = k.body.0;
            for (bi, pb) in prec.bands.iter().enumerate() {
                for b in &pb.blks {
                    if let Some((_, _, n_bytes)) = b.contrib.iter().find(|x| x.0 == k.l) {
                        at += n_bytes;
                        if k.body.0 > end || at > end {
                            dirty[n][k.c].push((k.r, bi, b.r));
                            in_body |= k.body.0 < end;
                        }
                    }
                }
            }
        }
    }
    // packed packet headers are all there: what they say of packets after the cut counts, whose data are lost
    for n in 0..nt {
        if st.ppm.is_some() || st.parts.iter().any(|p| p.tile == n && !p.ppt.is_empty()) {
            let t = &full.tiles[n];
            for k in t.pks.iter().enumerate().filter(|(i, k)| *i >= tiles[n].pks.len() || k.at.0 >= cut).map(|x| x.1) {
                for (bi, pb) in t.comps[k.c].res[k.r as usize].precs[k.k].bands.iter().enumerate() {
                    for b in pb.blks.iter().filter(|b| b.contrib.iter().any(|x| x.0 == k.l)) {
                        dirty[n][k.c].push((k.r, bi, b.r));
                    }
                }
            }
        }
    }
    let promised = cut_part.map_or(false, |p| st.parts[p].psot != 0 || in_body)
        || st.parts.iter().any(|p| p.psot != 0 && p.sot + 12 <= cut && cut < p.sod_end && p.end > p.sod_end);
    let reduce = if c.t.chance(1, 4) {
        let least = (0..nt).flat_map(|n| (0..im.comps.len()).map(move |k| (n, k))).map(|(n, k)| st.spc(n, k).levels).min().unwrap();
        let main = st.main.cod.as_ref().map(|k| k.1.levels).into_iter().chain(st.main.coc.iter().flatten().map(|k| k.levels)).chain(st.tiles.iter().flat_map(|h| h.cod.iter().map(|k| k.1.levels).chain(h.coc.iter().flatten().map(|k| k.levels)))).min().unwrap();
        c.t.u32(0, least.min(main))
    } else {
        0
    };
    let left = rest.parts.len();
    c.describe(|| format!("cut at {cut} of {len} ({} in the file of {}), {left} of {} tile-parts, {} blocks damaged, reduce {reduce}", cut + lo, bytes.len(), st.parts.len(), dirty.iter().flatten().map(|x| x.len()).sum::<usize>()));
    let short = bytes[..lo + cut].to_vec();
    dump(&short);
    c.label_if(in_header, "cut in a tile-part header");
    c.label_if(in_body, "cut in a packet body");
    c.label_if(cut_part.is_some() && !in_body, "cut in a packet header or between");
    c.label_if(nt > 1, "tiles");
    if cut_part.is_some() || left < st.parts.len() {
        c.nontrivial();
    }
    let want = match refdec::samples(&rest, &tiles, reduce, None) {
        Ok(v) => v,
        Err(e) => return fail("harness", e),
    };
    let o = DecOpts { reduce, lenient: true, ..Default::default() };
    let judge = |a: &Img, what: &str| -> R {
        ensure!((a.x0, a.y0, a.x1, a.y1) == (im.x0, im.y0, im.x1, im.y1), "bounds", "{what}: {}", a.brief());
        ensure!(a.comps.len() == im.comps.len(), "components", "{what}: {}", a.brief());
        for (i, (p, q)) in a.comps.iter().zip(&im.comps).enumerate() {
            let g = &want[i].g;
            ensure!((p.w as usize, p.h as usize) == (g.w(), g.h()) && p.data.len() == g.d.len(), "dimensions", "{what}: component {i} is {}x{} with {} samples, expected {}x{}", p.w, p.h, p.data.len(), g.w(), g.h());
            ensure!((p.dx, p.dy, p.prec, p.sgnd) == (q.dx, q.dy, q.prec, q.sgnd), "attributes", "{what}: component {i}: {}", a.brief());
            if let Some(v) = p.data.iter().find(|v| (**v as i64) < q.lo() || (**v as i64) > q.hi()) {
                return fail("out-of-range", format!("{what}: component {i} has {v}"));
            }
        }
        for n in 0..nt {
            if rest.parts.iter().all(|p| p.tile != n) {
                continue;
            }
            let mct = st.cod(n).mct == 1;
            let mut masks: Vec<Grid<u8>> = (0..im.comps.len()).map(|k| spread(&st, &tiles[n], n, k, reduce, &dirty[n][k])).collect();
            if mct {
                for i in 0..masks[0].d.len() {
                    let any = masks[..3].iter().any(|m| m.d[i] != 0) as u8;
                    masks[..3].iter_mut().for_each(|m| m.d[i] = any);
                }
            }
            for (k, m) in masks.iter().enumerate() {
                let tol = if (0..nt).any(|n| !st.spc(n, k).rev) || (mct && !st.spc(n, 0).rev) { 4 * tolerance(&im) } else { 0 };
                for y in m.y0..m.y1 {
                    for x in m.x0..m.x1 {
                        if m.get(x, y) != 0 {
                            continue;
                        }
                        let g = &want[k].g;
                        let i = g.at(x, y);
                        let d = (a.comps[k].data[i] as i64 - g.d[i]).abs();
                        let complete = st.parts.iter().zip(rest.parts.iter().map(Some).chain(std::iter::repeat(None))).all(|(a, b)| a.tile != n || b.map_or(false, |b| a.end == b.end));
                        ensure!(d <= tol, if complete { "complete-tile" } else { "intact-data" }, "{what}: tile {n} component {k} at ({x},{y}): {}, the data before the cut say {}", a.comps[k].data[i], g.d[i]);
                    }
                }
            }
        }
        Ok(())
    };
    let a = match decode(&short, f, &o) {
        Ok(a) => a,
        Err(e) => return fail("lenient-refused", e.text()),
    };
    judge(&a, "lenient")?;
    match decode(&short, f, &DecOpts { lenient: false, strict_call: c.t.bool(), ..o }) {
        Ok(a) => {
            ensure!(!promised, "strict-accepted", "cut at {cut}: tile-part {:?} misses data", cut_part);
            c.label("strict, decoded");
            judge(&a, "strict")?;
        }
        Err(_) => c.label("strict, refused"),
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "the cut takes away at least a part of a tile-part", ..Prop::new("C20", run) }
}
