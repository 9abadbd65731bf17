use super::c10::diff;
use super::common::*;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

/// bytes per sample in the raw tile interface
fn width(prec: u32) -> usize {
    match (prec + 7) / 8 {
        3 => 4,
        n => n as usize,
    }
}
/// samples of a rectangle on each component's (reduced) grid, as the raw tile interface lays them out
fn raw(full: &Img, r: (u32, u32, u32, u32), n: u32) -> Vec<u8> {
    let mut v = vec![];
    for k in &full.comps {
        let a = comp_rect(k, (full.x0, full.y0, full.x1, full.y1), n);
        let b = comp_rect(k, r, n);
        for y in b.1..b.3 {
            for x in b.0..b.2 {
                let s = k.data[((y - a.1) * k.w + x - a.0) as usize];
                v.extend_from_slice(&s.to_ne_bytes()[..width(k.prec)]);
            }
        }
    }
    v
}
pub fn by_index(c: &mut Ctx, s: &Stream, o: &DecOpts, full: &Img, n: u32) -> R {
    let k = c.t.us(1, 5);
    let order: Vec<u32> = (0..k).map(|_| c.t.u32(0, n - 1)).collect();
    c.describe(|| format!("tiles by index {order:?}"));
    let fresh = c.t.chance(1, 4);
    let mut i = 0;
    while i < order.len() {
        // one codec serves all, or each tile has its own
        let take = if fresh { 1 } else { order.len() };
        let mut m = Msgs::default();
        let mut mem = Mem::reader(&s.bytes);
        let mut got = vec![];
        let bad = unsafe {
            let mut g = Guards::new();
            g.stream = mem_stream(&mut mem, true, 1 << 20);
            let mut bad = open_decoder(&mut g, s.f, o, &mut m).err().map(|e| e.to_string());
            for &t in &order[i..i + take] {
                if bad.is_some() {
                    break;
                }
                if opj_get_decoded_tile(g.codec, g.stream, g.image, t) == 0 {
                    bad = Some(format!("tile {t} after {:?}", &order[i..i + got.len()]));
                } else {
                    got.push(Img::from_opj(g.image));
                }
            }
            bad
        };
        for (t, p) in order[i..].iter().zip(&got) {
            let r = tile_rect(&s.im, &s.g, *t);
            same_as_crop(full, p, r, o.reduce).map_err(|e| Fail { sig: format!("tile-{}", e.sig), msg: format!("tile {t}: {}", e.msg) })?;
        }
        if let Some(b) = bad {
            return fail("tile-refused", format!("{b}: {:?}", m.err));
        }
        i += take;
    }
    Ok(())
}
pub fn in_sequence(c: &mut Ctx, s: &Stream, o: &DecOpts, full: &Img, n: u32) -> R {
    c.label("raw-sequence");
    let skip = c.t.chance(1, 5); // decode only some of the tiles offered
    let mut t = c.t.fork();
    let mut m = Msgs::default();
    let mut mem = Mem::reader(&s.bytes);
    let mut seen = vec![];
    unsafe {
        let mut g = Guards::new();
        g.stream = mem_stream(&mut mem, true, 1 << 20);
        if let Err(e) = open_decoder(&mut g, s.f, o, &mut m) {
            return fail("header-refused", format!("{e}: {:?}", m.err));
        }
        loop {
            let (mut idx, mut size, mut x0, mut y0, mut x1, mut y1, mut nc, mut on) = (0, 0, 0, 0, 0, 0, 0, 0);
            if opj_read_tile_header(g.codec, g.stream, &mut idx, &mut size, &mut x0, &mut y0, &mut x1, &mut y1, &mut nc, &mut on) == 0 {
                return fail("tile-header-refused", format!("after {seen:?}: {:?}", m.err));
            }
            if on == 0 {
                break;
            }
            let r = tile_rect(&s.im, &s.g, idx);
            ensure!(idx < n && !seen.contains(&idx), "tile-index", "tile {idx} after {seen:?}, {n} tiles");
            ensure!((x0 as u32, y0 as u32, x1 as u32, y1 as u32) == r, "tile-bounds", "tile {idx}: {:?}, expected {r:?}", (x0, y0, x1, y1));
            ensure!(nc as usize == s.im.comps.len(), "tile-components", "{nc}");
            let want = raw(full, r, o.reduce);
            ensure!(size as usize == want.len(), "tile-data-size", "tile {idx}: {size} bytes, expected {}", want.len());
            seen.push(idx);
            if skip && t.next() % 2 == 0 {
                c.label("tile-skipped");
                // the interface goes on with the next tile only after decoding this one
                break;
            }
            let mut buf = vec![0xa5u8; size as usize + 8];
            if opj_decode_tile_data(g.codec, idx, buf.as_mut_ptr(), size, g.stream) == 0 {
                return fail("tile-data-refused", format!("tile {idx} after {seen:?}: {:?}", m.err));
            }
            ensure!(buf[size as usize..].iter().all(|&b| b == 0xa5), "tile-data-overrun", "tile {idx}");
            if let Some(p) = (0..want.len()).find(|&p| want[p] != buf[p]) {
                return fail("tile-data-mismatch", format!("tile {idx}: byte {p} of {}: {} expected {}", want.len(), buf[p], want[p]));
            }
        }
        if !skip {
            ensure!(seen.len() == n as usize, "tiles-missing", "{seen:?} of {n}");
        }
    }
    Ok(())
}
fn decode_side(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 9000, max_prec: if c.t.chance(1, 8) { 24 } else { 16 }, ..Lim::default() };
    if c.t.chance(1, 5) {
        let Some(Any { s, levels, layers, .. }) = any_or_assembled(c, &lim, 1)? else { return Ok(()) };
        return read_tiles(c, s, levels, layers);
    }
    let (mut im, mut g) = any_cfg(c, &lim);
    if g.tile.is_none() {
        // one tile is rarely interesting here
        let mut x = structure(&mut c.t, &im);
        if x.tile.is_some() && g.pocs.is_empty() {
            std::mem::swap(&mut x.tile, &mut g.tile);
            g.tile_off = x.tile_off;
            clamp_res(&im, &mut g);
            g.prec_sizes.truncate(g.numres as usize);
        }
    }
    im.icc.clear();
    let f = fmt(&mut c.t);
    label_cfg(c, &im, &g);
    c.describe(|| format!("{} {} {:?}", im.brief(), g.brief(), f));
    let Ok(bytes) = encode(&im, &g, f) else {
        c.label("not-encoded");
        return Ok(());
    };
    dump(&bytes);
    let levels = g.numres as u32 - 1;
    read_tiles(c, Stream { im, g, f, bytes }, levels, 4)
}
fn read_tiles(c: &mut Ctx, s: Stream, levels: u32, layers: u32) -> R {
    let red = if c.t.chance(1, 3) { c.t.u32(0, levels) } else { 0 };
    let o = DecOpts { reduce: red, layers: if c.t.chance(1, 6) { c.t.u32(1, layers) } else { 0 }, lenient: c.t.chance(1, 5), ..Default::default() };
    let full = match decode(&s.bytes, s.f, &o) {
        Ok(o) => o,
        Err(e) => return fail("decode-refused", e.text()),
    };
    let tiles = grid(&s.im, &s.g);
    let n = tiles.0 * tiles.1;
    c.label(match n {
        1 => "1 tile",
        2..=4 => "2-4 tiles",
        _ => ">4 tiles",
    });
    if n > 1 {
        c.nontrivial();
    }
    if c.t.bool() {
        by_index(c, &s, &o, &full, n)
    } else {
        in_sequence(c, &s, &o, &full, n)
    }
}
fn write_side(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 9000, max_prec: if c.t.chance(1, 8) { 24 } else { 16 }, ..Lim::default() };
    let (im, g) = any_cfg(c, &lim);
    let f = fmt(&mut c.t);
    label_cfg(c, &im, &g);
    c.label("write-tiles");
    c.describe(|| format!("written by tiles: {} {} {:?}", im.brief(), g.brief(), f));
    let whole = match encode(&im, &g, f) {
        Ok(b) => b,
        Err(_) => {
            c.label("not-encoded");
            return Ok(());
        }
    };
    let tiles = grid(&im, &g);
    let n = tiles.0 * tiles.1;
    if n > 1 {
        c.nontrivial();
    }
    let bare = c.t.bool(); // without sample buffers in the image
    let probe = c.t.chance(1, 4);
    let mut m = Msgs::default();
    let mut mem = Mem::writer();
    let bad: Option<String> = unsafe {
        let mut gd = Guards::new();
        let mut run = || -> Result<(), String> {
            if bare {
                let mut p: Vec<_> = im.comps.iter().map(|c| openjp2::image::opj_image_cmptparm_t { dx: c.dx, dy: c.dy, w: c.w, h: c.h, x0: c.x0, y0: c.y0, prec: c.prec, bpp: c.prec, sgnd: c.sgnd as u32 }).collect();
                gd.image = openjp2::image::opj_image_tile_create(p.len() as u32, p.as_mut_ptr(), color_of(im.color));
                (*gd.image).x0 = im.x0;
                (*gd.image).y0 = im.y0;
                (*gd.image).x1 = im.x1;
                (*gd.image).y1 = im.y1;
                (*gd.image).color_space = color_of(im.color);
            } else {
                gd.image = Img { comps: im.comps.iter().map(|k| Comp { data: vec![], ..k.clone() }).collect(), ..im.clone() }.to_opj();
            }
            gd.codec = opj_create_compress(f.codec());
            set_handlers(gd.codec, &mut m);
            setup(&mut gd, &g)?;
            gd.stream = mem_stream(&mut mem, false, 1 << 20);
            if opj_start_compress(gd.codec, gd.image, gd.stream) == 0 {
                return Err("start_compress".into());
            }
            for t in 0..n {
                let mut d = raw(&im, tile_rect(&im, &g, t), 0);
                if probe && d.len() > 1 {
                    // a tile out of turn is refused and changes nothing
                    if t + 1 < n && opj_write_tile(gd.codec, t + 1, d.as_mut_ptr(), d.len() as u32, gd.stream) != 0 {
                        return Err(format!("tile {} accepted in place of {t}", t + 1));
                    }
                }
                let len = d.len() as u32;
                if opj_write_tile(gd.codec, t, d.as_mut_ptr(), len, gd.stream) == 0 {
                    return Err(format!("write_tile {t}"));
                }
            }
            if opj_end_compress(gd.codec, gd.stream) == 0 {
                return Err("end_compress".into());
            }
            Ok(())
        };
        run().err()
    };
    if let Some(b) = bad {
        return fail("write-tiles-refused", format!("{b}: {:?}", m.err));
    }
    let o = DecOpts::default();
    let a = decode(&whole, f, &o).map_err(|e| Fail { sig: "decode-refused".into(), msg: e.text() })?;
    let b = decode(&mem.buf, f, &o).map_err(|e| Fail { sig: "tiles-decode-refused".into(), msg: e.text() })?;
    if let Some(d) = diff(&a, &b) {
        return fail("written-by-tiles-differs", d);
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 4) {
        write_side(c)
    } else {
        decode_side(c)
    }
}
pub fn prop() -> Prop {
    Prop { rule: "an image of several tiles was read or written tile by tile", ..Prop::new("C16", run) }
}
