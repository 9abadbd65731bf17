//! C15: resolution reduction and layer limits.
use super::c12::{compare, tolerance};
use super::common::*;
use crate::asm::Cs;
use crate::boxes;
use crate::gen::*;
use crate::refdec::{self, pkt, stream};
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

/// the codestream cs without the packets of layers from n on
pub fn first_layers(cs: &[u8], st: &stream::Stream, tiles: &[pkt::Tile], n: u32) -> Option<Vec<u8>> {
    let mut x = Cs::parse(cs)?;
    let d = x.find_mut(0xff52)?.d.as_mut()?;
    d[2..4].copy_from_slice(&(n as u16).to_be_bytes());
    x.main.retain(|s| s.m != 0xff55);
    if x.parts.len() != st.parts.len() {
        return None;
    }
    let mut nsop = vec![0u16; tiles.len()];
    for (i, (p, q)) in x.parts.iter_mut().zip(&st.parts).enumerate() {
        p.segs.retain(|s| s.m != 0xff58);
        p.body.clear();
        for k in tiles[q.tile].pks.iter().filter(|k| k.part == i && k.l < n) {
            let at = p.body.len();
            p.body.extend(&cs[k.at.0..k.at.1]);
            if k.sop {
                p.body[at + 4..at + 6].copy_from_slice(&nsop[q.tile].to_be_bytes());
            }
            nsop[q.tile] = nsop[q.tile].wrapping_add(1);
        }
    }
    Some(x.build())
}
/// the requests through the interfaces which follow the header: refused ones, then maybe one to keep
fn with_factors(b: &[u8], f: Fmt, reduce: u32, layers: u32, bad: &[u32], good: Option<u32>) -> Result<Img, String> {
    let mut m = Msgs::default();
    let mut mem = Mem::reader(b);
    unsafe {
        let mut g = Guards::new();
        g.stream = mem_stream(&mut mem, true, 1 << 20);
        open_decoder(&mut g, f, &DecOpts { reduce, layers, ..Default::default() }, &mut m).map_err(|e| format!("{e}: {:?}", m.err))?;
        for r in bad {
            if opj_set_decoded_resolution_factor(g.codec, *r) != 0 {
                return Err(format!("accepted: reduction {r}"));
            }
        }
        if let Some(r) = good {
            if opj_set_decoded_resolution_factor(g.codec, r) == 0 {
                return Err(format!("set_decoded_resolution_factor({r}): {:?}", m.err));
            }
        }
        if opj_decode(g.codec, g.stream, g.image) == 0 {
            return Err(format!("decode: {:?}", m.err));
        }
        if opj_end_decompress(g.codec, g.stream) == 0 {
            return Err(format!("end_decompress: {:?}", m.err));
        }
        Ok(Img::from_opj(g.image))
    }
}
pub fn same(a: &Img, b: &Img, sig: &'static str, what: &str) -> R {
    ensure!((a.x0, a.y0, a.x1, a.y1) == (b.x0, b.y0, b.x1, b.y1), format!("{sig}-bounds"), "{what}: {} / {}", a.brief(), b.brief());
    ensure!(a.comps.len() == b.comps.len(), format!("{sig}-components"), "{what}: {} / {}", a.brief(), b.brief());
    for (i, (p, q)) in a.comps.iter().zip(&b.comps).enumerate() {
        ensure!(
            (p.dx, p.dy, p.w, p.h, p.x0, p.y0, p.prec, p.sgnd, p.factor, p.alpha) == (q.dx, q.dy, q.w, q.h, q.x0, q.y0, q.prec, q.sgnd, q.factor, q.alpha),
            format!("{sig}-attributes"),
            "{what}: component {i}: {} factor {} / {} factor {}",
            a.brief(),
            p.factor,
            b.brief(),
            q.factor
        );
        if p.data != q.data {
            let j = p.data.iter().zip(&q.data).position(|(x, y)| x != y);
            return fail(sig, format!("{what}: component {i} of {}x{}: first difference {:?}: {:?} / {:?}", p.w, p.h, j, j.map(|j| p.data[j]), j.map(|j| q.data[j])));
        }
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 5000, ..Lim::default() };
    let Some(Any { s, assembled, levels, layers: nl }) = any_or_assembled(c, &lim, 4)? else { return Ok(()) };
    let r = c.t.u32(0, levels);
    let l = match c.t.weighted(&[3, 4, 1]) {
        0 => 0,
        1 => c.t.u32(1, nl),
        _ => *c.t.pick(&[nl + 1, nl + 7, 65535, u32::MAX]),
    };
    let (lo, hi) = match s.f {
        Fmt::J2k => (0, s.bytes.len()),
        Fmt::Jp2 => boxes::codestream(&s.bytes).ok_or_else(|| Fail { sig: "harness".into(), msg: "no codestream".into() })?,
    };
    let cs = &s.bytes[lo..hi];
    let st = match stream::parse(cs) {
        Ok(x) => x,
        Err(e) => return fail("markers", e),
    };
    // what the main header allows, and what every tile has
    let main = (0..st.siz.comps.len()).map(|k| st.main.coc.get(k).and_then(|x| x.as_ref()).map_or(st.main.cod.as_ref().unwrap().1.levels, |x| x.levels)).min().unwrap();
    let every = (0..st.tiles.len()).flat_map(|t| (0..st.siz.comps.len()).map(move |k| (t, k))).map(|(t, k)| st.spc(t, k).levels).min().unwrap();
    let bad: Vec<u32> = if c.t.chance(1, 3) { (0..c.t.us(1, 2)).map(|_| *c.t.pick(&[main + 1, main + 2, 32, 33, 255, i32::MAX as u32, u32::MAX])).filter(|b| *b > main).collect() } else { vec![] };
    let first = if c.t.chance(1, 3) { c.t.u32(0, levels) } else { 0 };
    c.describe(|| format!("levels {levels} layers {nl}: reduce {r} limit {l} refused {bad:?} first {first}"));
    let cut = if l == 0 { u32::MAX } else { l };
    let out = match refdec::decode(&st, r, cut) {
        Ok(o) => o,
        Err(e) => return fail("packets", e),
    };
    if r > 0 || (l > 0 && l < nl) {
        c.nontrivial();
    }
    c.label_if(r > 0, "reduced");
    c.label_if(l > 0 && l < nl, "limited");
    c.label_if(!bad.is_empty(), "impossible");
    let o = DecOpts { reduce: r, layers: l, ..Default::default() };
    let a = match decode(&s.bytes, s.f, &o) {
        Ok(g) => g,
        Err(e) => return fail("decode-refused", e.text()),
    };
    ensure!((a.x0, a.y0, a.x1, a.y1) == (s.im.x0, s.im.y0, s.im.x1, s.im.y1), "bounds", "{}", a.brief());
    for (i, (k, q)) in a.comps.iter().zip(&s.im.comps).enumerate() {
        let w = |v: u32, d: u32| ceil_pow2(ceil_div(v, d), r);
        let want = (w(a.x1, q.dx) - w(a.x0, q.dx), w(a.y1, q.dy) - w(a.y0, q.dy));
        ensure!((k.w, k.h) == want, "dimensions", "component {i} is {}x{}, expected {want:?}", k.w, k.h);
        ensure!((k.dx, k.dy, k.prec, k.sgnd, k.factor) == (q.dx, q.dy, q.prec, q.sgnd, r), "attributes", "component {i}: {:?}", (k.dx, k.dy, k.prec, k.sgnd, k.factor));
    }
    compare(&out.planes, &a, if assembled { 4 } else { 1 } * tolerance(&s.im), "decoded")?;
    // the other interface
    let b = match with_factors(&s.bytes, s.f, first, l, &bad, Some(r)) {
        Ok(b) => b,
        Err(e) if e.starts_with("accepted") => return fail("impossible-accepted", e),
        Err(e) => return fail("factor-refused", e),
    };
    same(&b, &a, "interface", "opj_set_decoded_resolution_factor / cp_reduce")?;
    if !bad.is_empty() {
        // refused ones leave no trace
        let b = match with_factors(&s.bytes, s.f, r, l, &bad, None) {
            Ok(b) => b,
            Err(e) => return fail("refusal-damages", e),
        };
        same(&b, &a, "refusal", "after refused reductions / without them")?;
        // and the header is not accepted with an impossible reduction to begin with
        if decode(&s.bytes, s.f, &DecOpts { reduce: bad[0], layers: l, ..Default::default() }).is_ok() {
            return fail("impossible-accepted", format!("cp_reduce {} with {levels} levels", bad[0]));
        }
    }
    if main > every && c.t.chance(1, 2) {
        // only the tile headers tell
        c.label("impossible-in-a-tile");
        let n = c.t.u32(every + 1, main);
        if decode(&s.bytes, s.f, &DecOpts { reduce: n, layers: l, ..Default::default() }).is_ok() {
            return fail("impossible-accepted", format!("cp_reduce {n}, a tile has {every} levels"));
        }
        if with_factors(&s.bytes, s.f, 0, l, &[], Some(n)).is_ok() {
            return fail("impossible-accepted", format!("decoded with reduction {n}, a tile has {every} levels"));
        }
    }
    if l > 0 && l < nl && !assembled {
        let Some(v) = first_layers(cs, &st, &out.tiles, l) else { return fail("harness", "no rebuilt stream") };
        dump(&v);
        let d = match decode(&v, Fmt::J2k, &DecOpts { reduce: r, ..Default::default() }) {
            Ok(d) => d,
            Err(e) => return fail("harness-rebuilt", e.text()),
        };
        same(&d, &a, "layers", "stream of the first layers / layer limit")?;
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "a reduction above 0, or a layer limit below the number of layers", ..Prop::new("C15", run) }
}
