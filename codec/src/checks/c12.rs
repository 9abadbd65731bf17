//! C12: what the encoder writes is a standard-conforming codestream.
use super::common::*;
use crate::boxes;
use crate::gen::*;
use crate::refdec::{self, stream};
use crate::w::*;
use vkit::*;

fn u32_at(b: &[u8], p: usize) -> u32 {
    u32::from_be_bytes(b[p..p + 4].try_into().unwrap())
}
/// the file format around the codestream (Annex I)
pub fn jp2_ok(b: &[u8], im: &Img) -> Result<(usize, usize), String> {
    let top = boxes::list(b, 0, b.len()).ok_or("boxes do not fill the file")?;
    let kinds: Vec<&[u8]> = top.iter().map(|x| &x.0[..]).collect();
    if kinds != [&b"jP  "[..], b"ftyp", b"jp2h", b"jp2c"] {
        return Err(format!("boxes {kinds:?}"));
    }
    if b[top[0].1..top[0].2] != [13, 10, 0x87, 10] {
        return Err("signature".into());
    }
    let f = &b[top[1].1..top[1].2];
    if f.len() < 12 || f.len() % 4 != 0 || &f[..4] != b"jp2 " || !f[8..].chunks(4).any(|c| c == b"jp2 ") {
        return Err(format!("ftyp {f:?}"));
    }
    let h = boxes::list(b, top[2].1, top[2].2).ok_or("boxes do not fill jp2h")?;
    let count = |k: &[u8; 4]| h.iter().filter(|x| &x.0 == k).count();
    if h.first().map(|x| &x.0) != Some(b"ihdr") || count(b"ihdr") != 1 || count(b"colr") < 1 || count(b"bpcc") > 1 || count(b"cdef") > 1 {
        return Err(format!("jp2h with {:?}", h.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    let i = &b[h[0].1..h[0].2];
    let n = im.comps.len();
    if i.len() != 14 || u32_at(i, 0) != im.y1 - im.y0 || u32_at(i, 4) != im.x1 - im.x0 || u16::from_be_bytes([i[8], i[9]]) as usize != n || i[11] != 7 || i[12] > 1 || i[13] > 1 {
        return Err(format!("ihdr {i:?}"));
    }
    let depth: Vec<u8> = im.comps.iter().map(|c| (c.prec - 1) as u8 | (c.sgnd as u8) << 7).collect();
    match h.iter().find(|x| &x.0 == b"bpcc") {
        Some(x) => {
            if i[10] != 255 || b[x.1..x.2] != depth {
                return Err(format!("bit depths {} {:?}, components have {depth:?}", i[10], &b[x.1..x.2]));
            }
        }
        None => {
            if depth.iter().any(|d| *d != i[10]) {
                return Err(format!("bit depth {} for components with {depth:?}", i[10]));
            }
        }
    }
    for x in h.iter().filter(|x| &x.0 == b"colr") {
        let d = &b[x.1..x.2];
        let ok = d.len() >= 3 && match d[0] {
            1 => d.len() == 7, // which colour space: at the end of the case
            2 => d.len() > 3,
            _ => false,
        };
        if !ok {
            return Err(format!("colr {:?}", &d[..d.len().min(20)]));
        }
    }
    if let Some(x) = h.iter().find(|x| &x.0 == b"cdef") {
        let d = &b[x.1..x.2];
        let m = u16::from_be_bytes([d[0], d[1]]) as usize;
        if d.len() != 2 + 6 * m {
            return Err(format!("cdef {d:?}"));
        }
    }
    Ok((top[3].1, top[3].2))
}
pub fn compare(planes: &[refdec::Plane], got: &Img, tol: i64, what: &str) -> R {
    ensure!(planes.len() == got.comps.len(), "components", "{what}: {} components, reference has {}", got.comps.len(), planes.len());
    for (i, (p, k)) in planes.iter().zip(&got.comps).enumerate() {
        ensure!((p.g.w(), p.g.h()) == (k.w as usize, k.h as usize), "size", "{what}: component {i} is {}x{}, reference {}x{}", k.w, k.h, p.g.w(), p.g.h());
        ensure!(k.data.len() == p.g.d.len(), "no-samples", "{what}: component {i} has {} samples", k.data.len());
        let t = if p.lossy { tol } else { 0 };
        for (j, (a, b)) in p.g.d.iter().zip(&k.data).enumerate() {
            let d = (a - *b as i64).abs();
            if d > t {
                return fail(if p.lossy { "samples-irreversible" } else { "samples" }, format!("{what}: component {i} at ({},{}) of {}x{}: {b}, reference {a}", j % p.g.w(), j / p.g.w(), k.w, k.h));
            }
        }
    }
    Ok(())
}
/// rounding, single-precision arithmetic, and a synthesis constant which is off by 3.3e-5
pub fn tolerance(im: &Img) -> i64 {
    let p = im.comps.iter().map(|c| c.prec).max().unwrap_or(8);
    1 + (1i64 << p >> 12)
}
pub fn siz_ok(s: &stream::Stream, im: &Img, g: &EncCfg) -> R {
    let z = &s.siz;
    ensure!((z.x0, z.y0, z.x1, z.y1) == (im.x0 as i64, im.y0 as i64, im.x1 as i64, im.y1 as i64), "siz", "image area {z:?}");
    if let Some(t) = g.tile {
        ensure!((z.tx0, z.ty0, z.tw, z.th) == (g.tile_off.0 as i64, g.tile_off.1 as i64, t.0 as i64, t.1 as i64), "siz-tiles", "tiles {z:?}");
    } else {
        ensure!(s.tiles.len() == 1, "siz-tiles", "{} tiles", s.tiles.len());
    }
    ensure!(z.comps.len() == im.comps.len(), "siz-components", "{z:?}");
    for (a, b) in z.comps.iter().zip(&im.comps) {
        ensure!((a.prec, a.sgnd, a.dx, a.dy) == (b.prec, b.sgnd, b.dx as i64, b.dy as i64), "siz-components", "{a:?} for {}", b.prec);
    }
    Ok(())
}
/// small images with tens of thousands of packets in a tile
fn many_packets(c: &mut Ctx) -> Option<Stream> {
    c.label("many-packets");
    let (w, h) = (c.t.u32(24, 32), c.t.u32(24, 32));
    let layers = c.t.u32(60, 100);
    let mut im = Img { x1: w, y1: h, comps: vec![Comp { w, h, dx: 1, dy: 1, prec: 8, data: vec![0; (w * h) as usize], ..Default::default() }], ..Default::default() };
    fill(&mut c.t, &mut im);
    let g = EncCfg {
        numres: 1,
        prec_sizes: vec![(1, 1)],
        csty: *c.t.pick(&[0, 0, 0, 2, 4, 6]),
        layers: layers as i32,
        disto_alloc: true,
        // all in the first layer; anything else takes seconds
        rates: vec![0.0; layers as usize],
        prog: c.t.u32(0, 4) as i32,
        plt: c.t.chance(9, 10),
        tlm: c.t.chance(1, 4),
        ..Default::default()
    };
    c.describe(|| format!("{} {}", im.brief(), g.brief()));
    let bytes = encode(&im, &g, Fmt::J2k).ok()?;
    dump(&bytes);
    Some(Stream { im, g, f: Fmt::J2k, bytes })
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 5000, ..Lim::default() };
    let s = if c.t.chance(1, 800) { many_packets(c) } else { any_stream(c, &lim) };
    let Some(s) = s else { return Ok(()) };
    let (lo, hi) = match s.f {
        Fmt::J2k => (0, s.bytes.len()),
        Fmt::Jp2 => match jp2_ok(&s.bytes, &s.im) {
            Ok(r) => r,
            Err(e) => return fail("file-format", e),
        },
    };
    let st = match stream::parse(&s.bytes[lo..hi]) {
        Ok(x) => x,
        Err(e) => return fail("markers", e),
    };
    siz_ok(&st, &s.im, &s.g)?;
    ensure!(!s.g.plt || st.has_plt, "plt", "no PLT marker segments");
    ensure!(!s.g.tlm || !st.tlm.is_empty(), "tlm", "no TLM marker segment");
    let out = match refdec::decode(&st, 0, u32::MAX) {
        Ok(o) => o,
        Err(e) => return fail("packets", e),
    };
    let blocks = out.tiles.iter().flat_map(|t| &t.comps).flat_map(|t| &t.res).flat_map(|r| &r.precs).flat_map(|p| &p.bands).flat_map(|b| &b.blks).filter(|b| b.passes > 0).count();
    c.count("code-blocks", blocks as u64);
    if blocks > 0 {
        c.nontrivial();
    }
    let got = match decode(&s.bytes, s.f, &DecOpts::default()) {
        Ok(g) => g,
        Err(e) => return fail("decode-refused", e.text()),
    };
    compare(&out.planes, &got, tolerance(&s.im), "decoded")?;
    // last, so that it hides nothing else
    if s.f == Fmt::Jp2 {
        if let Some(v) = colr(&s.bytes).filter(|v| ![16, 17, 18, 12, 24].contains(v)) {
            ensure!(s.im.color == 0, "colr", "enumerated colour space {v} for colour space {}", s.im.color);
            return fail("colr-unspecified", format!("enumerated colour space {v} for an unspecified one"));
        }
    }
    Ok(())
}
fn colr(b: &[u8]) -> Option<u32> {
    let h = boxes::list(b, 0, b.len())?.into_iter().find(|x| &x.0 == b"jp2h")?;
    let c = boxes::list(b, h.1, h.2)?.into_iter().find(|x| &x.0 == b"colr")?;
    (b[c.1] == 1).then(|| u32_at(b, c.1 + 3))
}
pub fn prop() -> Prop {
    Prop { rule: "the stream holds at least one coded code-block, which the reference decoder decoded", ..Prop::new("C12", run) }
}
