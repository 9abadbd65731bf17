//! C24: what opj_get_cstr_info and opj_get_cstr_index report, against the markers of the stream.
use super::common::*;
use crate::boxes;
use crate::gen::*;
use crate::refdec::stream::{self, Spc, Stream};
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

#[derive(Clone, Debug, PartialEq)]
struct Info {
    grid: (u32, u32, u32, u32, u32, u32),
    csty: u32,
    prg: i32,
    layers: u32,
    mct: u32,
    comps: Vec<InfoC>,
}
#[derive(Clone, Debug, PartialEq)]
struct InfoC {
    csty: u32,
    numres: u32,
    cblk: (u32, u32),
    mode: u32,
    rev: u32,
    prec: Vec<(u32, u32)>,
    qntsty: u32,
    guard: u32,
    steps: Vec<(u32, u32)>,
    roi: i32,
}
unsafe fn info(codec: *mut opj_codec_t) -> Option<Info> {
    let mut p = opj_get_cstr_info(codec);
    if p.is_null() {
        return None;
    }
    let i = &*p;
    let d = &i.m_default_tile_info;
    let comps = (0..i.nbcomps as usize)
        .map(|k| {
            let t = &*d.tccp_info.add(k);
            let nr = t.numresolutions as usize;
            let nb = if t.qntsty == 1 { 1 } else { 3 * nr - 2 };
            InfoC {
                csty: t.csty,
                numres: t.numresolutions,
                cblk: (t.cblkw, t.cblkh),
                mode: t.cblksty,
                rev: t.qmfbid,
                prec: (0..nr.min(33)).map(|r| (t.prcw[r], t.prch[r])).collect(),
                qntsty: t.qntsty,
                guard: t.numgbits,
                steps: (0..nb.min(97)).map(|b| (t.stepsizes_expn[b], t.stepsizes_mant[b])).collect(),
                roi: t.roishift,
            }
        })
        .collect();
    let r = Info { grid: (i.tx0, i.ty0, i.tdx, i.tdy, i.tw, i.th), csty: d.csty, prg: d.prg as i32, layers: d.numlayers, mct: d.mct, comps };
    opj_destroy_cstr_info(&mut p);
    assert!(p.is_null());
    Some(r)
}
/// type, position, length
type Mk = (u16, i64, i64);
#[derive(Clone, Debug, PartialEq, Default)]
struct Index {
    start: i64,
    end: i64,
    markers: Vec<Mk>,
    tiles: Vec<IndexT>,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct IndexT {
    tileno: u32,
    tps: Vec<(i64, i64, i64)>,
    nb: u32,
    markers: Vec<Mk>,
}
unsafe fn index(codec: *mut opj_codec_t) -> Option<Index> {
    let mut p = opj_get_cstr_index(codec);
    if p.is_null() {
        return None;
    }
    let i = &*p;
    let mks = |m: *const opj_marker_info_t, n: u32| -> Vec<Mk> { (0..if m.is_null() { 0 } else { n as usize }).map(|k| &*m.add(k)).map(|k| (k.type_, k.pos as i64, k.len as i64)).collect() };
    let mut r = Index { start: i.main_head_start as i64, end: i.main_head_end as i64, markers: mks(i.marker, i.marknum), tiles: vec![] };
    for t in 0..if i.tile_index.is_null() { 0 } else { i.nb_of_tiles as usize } {
        let t = &*i.tile_index.add(t);
        let tps = (0..if t.tp_index.is_null() { 0 } else { t.nb_tps as usize }).map(|k| &*t.tp_index.add(k)).map(|k| (k.start_pos as i64, k.end_header as i64, k.end_pos as i64)).collect();
        r.tiles.push(IndexT { tileno: t.tileno, tps, nb: t.nb_tps, markers: mks(t.marker, t.marknum) });
    }
    opj_destroy_cstr_index(&mut p);
    assert!(p.is_null());
    Some(r)
}
/// what the main header says
fn true_info(st: &Stream) -> Info {
    let z = &st.siz;
    let g = z.grid();
    let (k, s0) = st.main.cod.as_ref().expect("COD");
    let comps = (0..z.comps.len())
        .map(|c| {
            let s: &Spc = st.main.coc[c].as_ref().unwrap_or(s0);
            let q = st.main.qcc[c].as_ref().or(st.main.qcd.as_ref()).expect("QCD");
            InfoC {
                csty: s.user_prec as u32,
                numres: s.levels + 1,
                cblk: (s.xcb, s.ycb),
                mode: s.mode as u32,
                rev: s.rev as u32,
                prec: s.prec.clone(),
                qntsty: q.style as u32,
                guard: q.guard,
                steps: q.steps.clone(),
                roi: st.main.rgn[c].unwrap_or(0) as i32,
            }
        })
        .collect();
    Info {
        grid: (z.tx0 as u32, z.ty0 as u32, z.tw as u32, z.th as u32, g.0 as u32, g.1 as u32),
        csty: s0.user_prec as u32 | (k.sop as u32) << 1 | (k.eph as u32) << 2,
        prg: k.prog as i32,
        layers: k.layers,
        mct: k.mct as u32,
        comps,
    }
}
fn same_info(got: &Info, want: &Info) -> R {
    ensure!(got.grid == want.grid, "info-grid", "{:?}, the markers say {:?}", got.grid, want.grid);
    let f = |i: &Info| (i.csty, i.prg, i.layers, i.mct);
    ensure!(f(got) == f(want), "info-coding", "style, progression, layers, transform {:?}, the markers say {:?}", f(got), f(want));
    ensure!(got.comps.len() == want.comps.len(), "info-components", "{} of {}", got.comps.len(), want.comps.len());
    for (i, (a, b)) in got.comps.iter().zip(&want.comps).enumerate() {
        let mut a = a.clone();
        // a quantisation marker may hold more or fewer steps than a component has bands
        let n = a.steps.len().min(b.steps.len());
        ensure!(n == b.steps.len() || b.steps.len() > 3 * b.numres as usize - 2, "info-steps", "component {i}: {} steps, the markers say {}", a.steps.len(), b.steps.len());
        let mut b = b.clone();
        b.steps.truncate(n);
        a.steps.truncate(n);
        ensure!(a == b, "info-component", "component {i}: {a:?}, the markers say {b:?}");
    }
    Ok(())
}
fn listed(got: &[Mk], want: &[Mk], all: bool, what: &str) -> R {
    let eq = |a: &Mk, b: &Mk| (a.1, a.2) == (b.1, b.2) && (a.0 == b.0 || (a.0 == 0 && !known(b.0)));
    let mut from = 0;
    for g in got {
        match want[from..].iter().position(|w| eq(g, w)) {
            Some(k) => from += k + 1,
            None if want.iter().any(|w| eq(g, w)) => return fail("index-order", format!("{what}: {g:x?} twice or out of order: {got:x?}, there are {want:x?}")),
            None => return fail("index-marker", format!("{what}: {g:x?} is not there: {got:x?}, there are {want:x?}")),
        }
    }
    // markers without a segment which mean nothing (FF30 to FF3F) need not be listed
    let must = |v: &[Mk]| v.iter().filter(|k| !(k.0 == 0 && k.2 == 2 || (0xff30..=0xff3f).contains(&k.0))).count();
    ensure!(!all || must(got) == must(want), "index-incomplete", "{what}: {got:x?}, there are {want:x?}");
    Ok(())
}
fn known(m: u16) -> bool {
    matches!(m, 0xff4f..=0xff64 | 0xff74..=0xff78 | 0xff90..=0xff93 | 0xffd9) && !matches!(m, 0xff54 | 0xff56 | 0xff59..=0xff5b | 0xff62)
}
/// which of it must be listed
#[derive(Clone, Copy, PartialEq, Debug)]
enum Read {
    Header,
    Some,
    /// a decoder which has failed need not know anything any more
    Failed,
    All,
}
fn check_index(i: &Index, st: &Stream, base: i64, read: Read) -> R {
    ensure!((i.start, i.end) == (base, base + st.main_end as i64), "index-header", "main header {}..{}, it is at {}..{}", i.start, i.end, base, base + st.main_end as i64);
    let mv = |v: &[(u16, usize, usize)]| -> Vec<Mk> { v.iter().map(|k| (k.0, base + k.1 as i64, k.2 as i64)).collect() };
    let main: Vec<(u16, usize, usize)> = st.markers.iter().filter(|k| k.1 < st.main_end).cloned().collect();
    listed(&i.markers, &mv(&main), true, "main header")?;
    let g = st.siz.grid();
    ensure!(i.tiles.len() as i64 == g.0 * g.1, "index-tiles", "{} tiles of {}", i.tiles.len(), g.0 * g.1);
    for (n, t) in i.tiles.iter().enumerate() {
        let parts: Vec<_> = st.parts.iter().filter(|p| p.tile == n).collect();
        let mut want = vec![];
        for p in &parts {
            for k in mv(&p.markers) {
                // the data belong to SOD
                want.push(if k.0 == 0xff93 { (k.0, k.1, base + p.end as i64 - k.1) } else { k });
            }
        }
        if read == Read::Header {
            ensure!(t.markers.is_empty() && t.nb == 0 && t.tps.is_empty(), "index-unread", "tile {n} was not read: {t:x?}");
            continue;
        }
        listed(&t.markers, &want, read == Read::All, &format!("tile {n}"))?;
        ensure!(t.tileno as usize == n || t.markers.is_empty(), "index-number", "tile {n} has number {}", t.tileno);
        ensure!(t.nb as usize == t.tps.len() && t.tps.len() <= parts.len(), "index-tile-parts", "tile {n}: {} tile-parts listed, number {}, there are {}", t.tps.len(), t.nb, parts.len());
        ensure!(read != Read::All || t.tps.len() == parts.len(), "index-incomplete", "tile {n}: {} tile-parts listed, there are {}", t.tps.len(), parts.len());
        for (j, (a, p)) in t.tps.iter().zip(&parts).enumerate() {
            let b = (base + p.sot as i64, base + p.sod_end as i64 - 2, base + p.end as i64);
            let ok = |x: i64, y: i64| x == y || (read != Read::All && x == 0);
            ensure!(ok(a.0, b.0) && ok(a.1, b.1) && ok(a.2, b.2), "index-tile-part", "tile {n} tile-part {j} is listed at {a:?}, it is at {b:?}");
            ensure!(a.0 != 0 || (a.1 == 0 && a.2 == 0), "index-tile-part", "tile {n} tile-part {j} is listed at {a:?}");
        }
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 2000, ..Lim::default() };
    let (im, f, mut bytes);
    if c.t.chance(1, 2) {
        let Some(s) = any_stream(c, &lim) else { return Ok(()) };
        (im, f, bytes) = (s.im, s.f, s.bytes);
    } else {
        let Some(b) = super::c13::assembled(c, &lim)? else { return Ok(()) };
        c.label("assembled");
        c.describe(|| format!("{} {:?}", b.im.brief(), b.made.what));
        im = b.im;
        if c.t.bool() {
            f = Fmt::Jp2;
            let comps: Vec<(u32, bool)> = im.comps.iter().map(|k| (k.prec, k.sgnd)).collect();
            let junk = c.t.us(0, 40);
            bytes = boxes::file(im.x1 - im.x0, im.y1 - im.y0, &comps, if comps.len() >= 3 { 16 } else { 17 }, &boxes::bx(b"free", &vec![7; junk]), &b.made.bytes);
        } else {
            f = Fmt::J2k;
            bytes = b.made.bytes;
        }
        dump(&bytes);
    }
    let (lo, hi) = match f {
        Fmt::J2k => (0, bytes.len()),
        Fmt::Jp2 => boxes::codestream(&bytes).ok_or_else(|| Fail { sig: "harness".into(), msg: "no codestream".into() })?,
    };
    let st = match stream::parse(&bytes[lo..hi]) {
        Ok(x) => x,
        Err(e) => return fail("markers", e),
    };
    let base = lo as i64;
    let nt = (st.siz.grid().0 * st.siz.grid().1) as u32;
    let mut way = c.t.weighted(&[1, 4, 2, 2, 2, 2]);
    if way >= 4 && st.parts.last().map_or(true, |p| p.psot == 0) {
        // the end of such a tile-part is where the stream is cut
        way = 1;
    }
    let mut lenient = false;
    if way >= 4 {
        // cut off somewhere after the main header
        let at = c.t.us(st.main_end + 2, hi - lo) + lo;
        bytes.truncate(at);
        lenient = c.t.bool();
        c.describe(|| format!("cut at {at} of {hi}, lenient {lenient}"));
    }
    c.label(["header", "decode", "region", "tiles", "cut", "cut, tiles"][way]);
    if st.parts.len() > 1 || st.markers.len() > 4 {
        c.nontrivial();
    }
    let want = true_info(&st);
    let mut m = Msgs::default();
    let mut mem = Mem::reader(&bytes);
    unsafe {
        let mut g = Guards::new();
        g.stream = mem_stream(&mut mem, true, 1 << 20);
        let levels = st.main.cod.iter().map(|k| k.1.levels).chain(st.main.coc.iter().flatten().map(|k| k.levels)).chain(st.tiles.iter().flat_map(|h| h.cod.iter().map(|k| k.1.levels).chain(h.coc.iter().flatten().map(|k| k.levels)))).min().unwrap() + 1;
        let o = DecOpts { lenient, reduce: if c.t.chance(1, 4) { c.t.u32(0, levels - 1) } else { 0 }, ..Default::default() };
        if let Err(e) = open_decoder(&mut g, f, &o, &mut m) {
            if way >= 4 {
                return Ok(());
            }
            return fail("header-refused", format!("{e}: {:?}", m.err));
        }
        let look = |read: Read, codec: *mut opj_codec_t, want: &Info, st: &Stream| -> R {
            match info(codec) {
                Some(i) => same_info(&i, want)?,
                None if read == Read::Failed => return Ok(()),
                None => return fail("no-info", format!("{read:?}")),
            }
            match index(codec) {
                Some(i) => check_index(&i, st, base, read),
                None => fail("no-index", format!("{read:?}")),
            }
        };
        look(Read::Header, g.codec, &want, &st)?;
        match way {
            0 => {}
            1 => {
                ensure!(opj_decode(g.codec, g.stream, g.image) != 0, "decode-refused", "{:?}", m.err);
                look(Read::All, g.codec, &want, &st)?;
                ensure!(opj_end_decompress(g.codec, g.stream) != 0, "end-refused", "{:?}", m.err);
                look(Read::All, g.codec, &want, &st)?;
            }
            2 => {
                let r = rect(&mut c.t, &im);
                if opj_set_decode_area(g.codec, g.image, r.0, r.1, r.2, r.3) == 0 {
                    return Ok(()); // C14's business
                }
                look(Read::Header, g.codec, &want, &st)?;
                ensure!(opj_decode(g.codec, g.stream, g.image) != 0, "decode-refused", "{:?}", m.err);
                look(Read::Some, g.codec, &want, &st)?;
            }
            4 => {
                let ok = opj_decode(g.codec, g.stream, g.image) != 0;
                c.label_if(ok, "cut, decoded");
                look(if ok { Read::Some } else { Read::Failed }, g.codec, &want, &st)?;
            }
            _ => {
                for _ in 0..c.t.us(1, 4) {
                    let n = c.t.u32(0, nt - 1);
                    let ok = opj_get_decoded_tile(g.codec, g.stream, g.image, n) != 0;
                    ensure!(ok || way == 5, "tile-refused", "tile {n}: {:?}", m.err);
                    look(if ok { Read::Some } else { Read::Failed }, g.codec, &want, &st)?;
                    if !ok {
                        break;
                    }
                    c.count("tiles", 1);
                }
            }
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "several tile-parts, or a main header with more than the required segments", ..Prop::new("C24", run) }
}
