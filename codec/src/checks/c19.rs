//! C19: hostile input is refused or decoded.
use super::common::*;
use crate::alloc;
use crate::asm::*;
use crate::boxes;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use std::ffi::c_void;
use vkit::*;

fn num(t: &mut Tape, w: usize) -> u32 {
    let max = if w == 4 { u32::MAX } else { (1u32 << (8 * w)) - 1 };
    match t.weighted(&[6, 3, 2, 2, 3]) {
        0 => t.u32(0, 5),
        1 => max,
        2 => max / 2 + t.u32(0, 2),
        3 => max - t.u32(0, 4),
        _ => (t.u64() as u32) & max,
    }
}
fn poke(t: &mut Tape, b: &mut [u8]) {
    if b.is_empty() {
        return;
    }
    let w = *t.pick(&[1usize, 1, 2, 4]);
    let i = t.us(0, b.len() - 1);
    match t.weighted(&[4, 3, 3]) {
        0 => {
            let v = num(t, w).to_be_bytes();
            for k in 0..w {
                if i + k < b.len() {
                    b[i + k] = v[4 - w + k];
                }
            }
        }
        1 => b[i] ^= 1 << t.below(8),
        _ => b[i] = b[i].wrapping_add(*t.pick(&[1, 255, 2, 128])),
    }
}
/// a marker segment with contents that are about right
pub fn rand_seg(t: &mut Tape, nc: usize) -> Seg {
    let two = nc > 256;
    let mut o: Vec<u8> = vec![];
    let comp = |t: &mut Tape, o: &mut Vec<u8>| {
        let c = t.us(0, nc.max(1)) as u16;
        if two {
            o.extend(c.to_be_bytes())
        } else {
            o.push(c as u8)
        }
    };
    let spc = |t: &mut Tape, o: &mut Vec<u8>, prec: bool| {
        let n = if t.chance(1, 8) { t.below(34) as u8 } else { t.below(7) as u8 };
        let blk = if t.chance(1, 3) { 256 } else { 64 };
        o.extend([n, t.below(9) as u8, t.below(9) as u8, t.below(blk) as u8, t.below(2) as u8]);
        if prec {
            for _ in 0..=n {
                o.push(t.below(256) as u8);
            }
        }
    };
    let qnt = |t: &mut Tape, o: &mut Vec<u8>| {
        let st = *t.pick(&[0u8, 1, 2, 0, 2, 3]);
        o.push(st | (t.below(8) as u8) << 5);
        let n = t.us(0, 19);
        match st {
            0 => (0..n).for_each(|_| o.push((t.below(32) as u8) << 3)),
            1 => o.extend((t.below(65536) as u16).to_be_bytes()),
            _ => (0..n).for_each(|_| o.extend((t.below(65536) as u16).to_be_bytes())),
        }
    };
    let m = *t.pick(&[0xff52u16, 0xff53, 0xff5c, 0xff5d, 0xff5e, 0xff5f, 0xff55, 0xff58, 0xff57, 0xff60, 0xff61, 0xff63, 0xff64, 0xff50, 0xff78, 0xff74, 0xff75, 0xff77, 0xff30, 0xff6f, 0xff59]);
    match m {
        0xff52 => {
            let s = t.below(8) as u8;
            o.extend([s, t.below(6) as u8, 0, t.below(6) as u8, t.below(3) as u8]);
            spc(t, &mut o, s & 1 != 0)
        }
        0xff53 => {
            comp(t, &mut o);
            let s = t.below(2) as u8;
            o.push(s);
            spc(t, &mut o, s & 1 != 0)
        }
        0xff5c => qnt(t, &mut o),
        0xff5d => {
            comp(t, &mut o);
            qnt(t, &mut o)
        }
        0xff5e => {
            comp(t, &mut o);
            o.extend([t.below(2) as u8, t.below(40) as u8])
        }
        0xff5f => {
            for _ in 0..t.us(1, 4) {
                o.push(t.below(6) as u8);
                comp(t, &mut o);
                o.extend((t.below(6) as u16).to_be_bytes());
                o.push(t.below(8) as u8);
                comp(t, &mut o);
                o.push(t.below(6) as u8);
            }
        }
        0xff55 => {
            let (st, sp) = (t.below(4) as u8, t.below(2) as u8);
            o.extend([t.below(3) as u8, st << 4 | sp << 6]);
            for _ in 0..t.us(0, 5) {
                o.extend(t.bytes((st as usize).min(2)));
                if sp == 0 {
                    o.extend([0, t.below(256) as u8]);
                } else {
                    o.extend([0, 0, 0, t.below(256) as u8]);
                }
            }
        }
        0xff58 => {
            o.push(t.below(3) as u8);
            o.extend({ let l = t_len(t); t.bytes(l) });
        }
        0xff57 => {
            o.push(t.below(3) as u8);
            let n = t.us(0, 12);
            o.push(n as u8);
            o.extend(t.bytes(n));
        }
        0xff60 => {
            o.push(t.below(3) as u8);
            for _ in 0..t.us(0, 3) {
                let n = t.us(0, 20);
                o.extend((n as u32).to_be_bytes());
                o.extend(t.bytes(n));
            }
        }
        0xff61 => {
            o.push(t.below(3) as u8);
            o.extend({ let l = t_len(t); t.bytes(l) });
        }
        0xff63 => o.extend(t.bytes(4 * nc)),
        0xff64 => {
            o.extend([0, t.below(2) as u8]);
            o.extend({ let l = t_len(t); t.bytes(l) });
        }
        0xff50 => {
            o.extend(*t.pick(&[[0u8, 2, 0, 0], [0, 0, 0, 0], [255, 255, 255, 255]]));
            o.extend({ let l = t_len(t).min(66); t.bytes(l) });
        }
        0xff78 => {
            o.extend((nc as u16).to_be_bytes());
            (0..nc).for_each(|_| o.push(t.below(256) as u8));
        }
        0xff74 => {
            let ty = t.below(4) as u8;
            o.extend([0, 0, ty << 2 | t.below(4) as u8, t.below(4) as u8, 0, 0]);
            let n = *t.pick(&[nc * nc, nc, nc * nc + 1, 0]) * [2, 4, 4, 8][ty as usize];
            o.extend(t.bytes(n.min(600)));
        }
        0xff75 => {
            o.extend([0, 0, t.below(4) as u8, 0, 0, 0, 1, 1, 0, nc as u8]);
            (0..nc).for_each(|i| o.push(i as u8));
            o.extend([0, nc as u8]);
            (0..nc).for_each(|i| o.push(i as u8));
            o.extend([t.below(2) as u8, t.below(4) as u8, t.below(4) as u8]);
        }
        0xff77 => {
            let n = t.us(0, 2);
            o.push(n as u8);
            (0..n).for_each(|_| o.push(t.below(4) as u8));
        }
        0xff30 => return Seg { m, d: None, len: None },
        _ => o.extend({ let l = t_len(t); t.bytes(l) }),
    }
    if t.chance(1, 5) {
        poke(t, &mut o);
    }
    if t.chance(1, 12) {
        let n = t.us(0, o.len());
        o.truncate(n);
    }
    Seg::new(m, o)
}
fn t_len(t: &mut Tape) -> usize {
    t.us(0, 30)
}
fn spoil_segs(t: &mut Tape, v: &mut Vec<Seg>, nc: usize) {
    match t.weighted(&[4, 4, 2, 2, 2, 1]) {
        0 => {
            let s = rand_seg(t, nc);
            let i = t.us(0, v.len());
            v.insert(i, s);
        }
        1 if !v.is_empty() => {
            let i = t.us(0, v.len() - 1);
            if let Some(d) = &mut v[i].d {
                poke(t, d);
            }
        }
        2 if !v.is_empty() => {
            let i = t.us(0, v.len() - 1);
            let s = v[i].clone();
            let j = t.us(0, v.len());
            v.insert(j, s);
        }
        3 if !v.is_empty() => {
            let i = t.us(0, v.len() - 1);
            v.remove(i);
        }
        4 if !v.is_empty() => {
            let i = t.us(0, v.len() - 1);
            if let Some(d) = &mut v[i].d {
                if t.bool() {
                    let n = t.us(0, d.len());
                    d.truncate(n);
                } else {
                    let n = t.us(1, 9);
                    d.extend(t.bytes(n));
                }
            }
        }
        _ if !v.is_empty() => {
            let i = t.us(0, v.len() - 1);
            v[i].len = Some(num(t, 2) as u16);
        }
        _ => {}
    }
}
pub fn spoil_cs(t: &mut Tape, cs: &mut Cs) {
    let nc = cs.find(0xff51).and_then(|s| s.d.as_ref()).map_or(1, |d| if d.len() > 36 { d[35] as usize } else { 1 });
    for _ in 0..(if t.chance(1, 3) { t.us(2, 5) } else { 1 }) {
        match t.weighted(&[6, 3, 4, 3, 2, 2, 2, 2]) {
            0 => spoil_segs(t, &mut cs.main, nc),
            1 if !cs.parts.is_empty() => {
                let i = t.us(0, cs.parts.len() - 1);
                spoil_segs(t, &mut cs.parts[i].segs, nc);
            }
            2 if !cs.parts.is_empty() => {
                let i = t.us(0, cs.parts.len() - 1);
                let b = &mut cs.parts[i].body;
                for _ in 0..t.us(1, 4) {
                    // packet headers are where most can go wrong: at the start
                    let n = if t.bool() { b.len().min(12) } else { b.len() };
                    poke(t, &mut b[..n]);
                }
            }
            3 if !cs.parts.is_empty() => {
                let i = t.us(0, cs.parts.len() - 1);
                let p = &mut cs.parts[i];
                match t.below(4) {
                    0 => p.psot = Some(if t.bool() { num(t, 4) } else { (p.len() as u32).wrapping_add(t.below(40) as u32).wrapping_sub(20) }),
                    1 => p.tp = num(t, 1) as u8,
                    2 => p.ntp = num(t, 1) as u8,
                    _ => p.tile = num(t, 2) as u16,
                }
            }
            4 if !cs.parts.is_empty() => {
                let i = t.us(0, cs.parts.len() - 1);
                let p = cs.parts[i].clone();
                match t.below(3) {
                    0 => {
                        let j = t.us(0, cs.parts.len());
                        cs.parts.insert(j, p);
                    }
                    1 => {
                        cs.parts.remove(i);
                    }
                    _ => {
                        let j = t.us(0, cs.parts.len() - 1);
                        cs.parts.swap(i, j);
                    }
                }
            }
            5 if !cs.parts.is_empty() => {
                // split a tile-part anywhere
                let i = t.us(0, cs.parts.len() - 1);
                let mut p = cs.parts[i].clone();
                let k = t.us(0, p.body.len());
                p.body = cs.parts[i].body.split_off(k);
                p.segs.clear();
                p.tp = p.tp.wrapping_add(1);
                cs.parts.insert(i + 1, p);
            }
            6 if !cs.parts.is_empty() => {
                let i = t.us(0, cs.parts.len() - 1);
                let b = &mut cs.parts[i].body;
                match t.below(3) {
                    0 => {
                        let n = t.us(0, b.len());
                        b.truncate(n);
                    }
                    1 => {
                        let n = t.us(1, 60);
                        b.extend(t.bytes(n));
                    }
                    _ => {
                        let n = t.us(0, b.len());
                        let k = t.us(1, 20);
                        let v = t.bytes(k);
                        b.splice(n..n, v);
                    }
                }
            }
            _ => {
                // coding style: high-throughput blocks, other block styles, other transforms
                if let Some(d) = cs.find_mut(0xff52).and_then(|s| s.d.as_mut()) {
                    if d.len() >= 10 {
                        match t.below(5) {
                            0 => d[8] = 0x40 | if t.bool() { 8 } else { 0 },
                            1 => d[8] = t.below(256) as u8,
                            2 => d[9] ^= 1,
                            3 => d[5] = t.below(8) as u8,
                            _ => d[4] ^= 1,
                        }
                    }
                }
            }
        }
    }
}
pub fn rand_box(t: &mut Tape, nc: usize) -> Vec<u8> {
    let k: &[u8; 4] = *t.pick(&[b"pclr", b"cmap", b"cdef", b"colr", b"bpcc", b"res ", b"uuid", b"ihdr", b"xml ", b"jp2h", b"ftyp", b"jP  ", b"jp2c"]);
    let n = nc as u8;
    let mut d: Vec<u8> = match k {
        b"pclr" => {
            let ne = t.us(0, 20);
            let np = t.us(0, 5);
            let mut d = (ne as u16).to_be_bytes().to_vec();
            d.push(np as u8);
            let bits: Vec<u8> = (0..np).map(|_| *t.pick(&[7u8, 7, 15, 0x87, 0, 31, 255])).collect();
            d.extend(&bits);
            for _ in 0..ne {
                for b in &bits {
                    d.extend(t.bytes(((*b & 0x7f) as usize + 8) / 8));
                }
            }
            d
        }
        b"cmap" => {
            let mut d = vec![];
            for i in 0..t.us(0, 5) {
                d.extend([0, t.below(n as u64 + 2) as u8, t.below(3) as u8, if t.bool() { i as u8 } else { t.below(6) as u8 }]);
            }
            d
        }
        b"cdef" => {
            let m = t.us(0, 5);
            let mut d = (m as u16).to_be_bytes().to_vec();
            for i in 0..m {
                d.extend([0, if t.bool() { i as u8 } else { t.below(n as u64 + 2) as u8 }, *t.pick(&[0u8, 0, 255]), *t.pick(&[0u8, 1, 2, 255]), *t.pick(&[0u8, 0, 255]), t.below(n as u64 + 3) as u8]);
            }
            if t.chance(1, 3) {
                d.iter_mut().for_each(|x| if t.chance(1, 9) { *x = 255 });
            }
            d
        }
        b"colr" => match t.below(3) {
            0 => {
                let mut d = vec![1, 0, 0];
                d.extend([16u32, 17, 18, 12, 14, 24, 0, 77][t.us(0, 7)].to_be_bytes());
                if t.chance(1, 3) {
                    d.extend(t.bytes(28));
                }
                d
            }
            1 => {
                let mut d = vec![2, 0, 0];
                d.extend({ let l = t_len(t); t.bytes(l) });
                d
            }
            _ => {
                let mut d = vec![t.below(5) as u8, 0, 0];
                d.extend({ let l = t_len(t); t.bytes(l) });
                d
            }
        },
        b"bpcc" => (0..nc).map(|_| *t.pick(&[7u8, 11, 0x87, 0, 255])).collect(),
        b"ihdr" => {
            let mut d = vec![0, 0, 0, 9, 0, 0, 0, 9, 0, n, 7, 7, 0, 0];
            poke(t, &mut d);
            d
        }
        b"jP  " => vec![13, 10, 0x87, 10],
        b"ftyp" => b"jp2 \0\0\0\0jp2 ".to_vec(),
        b"jp2h" => {
            let mut d = vec![];
            for _ in 0..t.us(0, 2) {
                let k: &[u8; 4] = *t.pick(&[b"ihdr", b"colr", b"bpcc", b"cdef"]);
                let n = t.us(0, 20);
                d.extend(boxes::bx(k, &t.bytes(n)));
            }
            d
        }
        _ => {
            let l = t_len(t);
            t.bytes(l)
        }
    };
    if t.chance(1, 6) {
        poke(t, &mut d);
    }
    if t.chance(1, 8) {
        let l = t.us(0, d.len());
        d.truncate(l);
    }
    let mut b = boxes::bx(k, &d);
    match t.weighted(&[12, 1, 1, 1]) {
        0 => {}
        1 => b[..4].copy_from_slice(&num(t, 4).to_be_bytes()),
        2 => b[..4].copy_from_slice(&[0, 0, 0, 0]),
        _ => {
            let l = b.len() as u64 + 8 + if t.chance(1, 4) { t.below(60) } else { 0 };
            b[..4].copy_from_slice(&[0, 0, 0, 1]);
            b.splice(8..8, l.to_be_bytes());
        }
    }
    b
}
/// a JP2 file whose boxes are shuffled, repeated, dropped or replaced
pub fn spoil_jp2(t: &mut Tape, b: &[u8], cs: &[u8], nc: usize) -> Vec<u8> {
    let Some(top) = boxes::list(b, 0, b.len()) else { return b.to_vec() };
    let mut v: Vec<Vec<u8>> = vec![];
    for (k, s, e) in top {
        v.push(match &k {
            b"jp2h" => {
                let mut h: Vec<Vec<u8>> = boxes::list(b, s, e).unwrap_or_default().iter().map(|x| boxes::bx(&x.0, &b[x.1..x.2])).collect();
                for _ in 0..t.us(0, 3) {
                    match t.weighted(&[5, 1, 1, 3]) {
                        0 => {
                            let x = rand_box(t, nc);
                            let i = if t.chance(1, 6) { t.us(0, h.len()) } else { h.len() };
                            h.insert(i, x);
                        }
                        1 if !h.is_empty() => {
                            let i = t.us(0, h.len() - 1);
                            h.remove(i);
                        }
                        2 if !h.is_empty() => {
                            let i = t.us(0, h.len() - 1);
                            let x = h[i].clone();
                            h.push(x);
                        }
                        _ if !h.is_empty() => {
                            let i = t.us(0, h.len() - 1);
                            poke(t, &mut h[i]);
                        }
                        _ => {}
                    }
                }
                boxes::bx(b"jp2h", &h.concat())
            }
            b"jp2c" => {
                let mut x = boxes::bx(&k, cs);
                if t.chance(1, 4) {
                    x[..4].copy_from_slice(&[0; 4]);
                }
                x
            }
            _ => boxes::bx(&k, &b[s..e]),
        });
    }
    if t.chance(1, 3) {
        for _ in 0..t.us(1, 3) {
            match t.weighted(&[4, 1, 1, 2]) {
                0 => {
                    let x = rand_box(t, nc);
                    let i = t.us(0, v.len());
                    v.insert(i, x);
                }
                1 if !v.is_empty() => {
                    let i = t.us(0, v.len() - 1);
                    v.remove(i);
                }
                2 if v.len() > 1 => {
                    let (i, j) = (t.us(0, v.len() - 1), t.us(0, v.len() - 1));
                    v.swap(i, j);
                }
                _ if !v.is_empty() => {
                    let i = t.us(0, v.len() - 1);
                    let n = v[i].len().min(24);
                    poke(t, &mut v[i][..n]);
                }
                _ => {}
            }
        }
    }
    v.concat()
}
/// (samples, blocks of work) a decoder is asked for at most; the codestream may be anywhere in b
pub fn demand(b: &[u8]) -> (u64, u64) {
    let (mut samples, mut tiles, mut comps, mut layers) = (0u64, 1u64, 1u64, 1u64);
    let at = |p: usize, n: usize| b.get(p..p + n).map(|x| x.iter().fold(0u64, |a, &c| a << 8 | c as u64));
    for p in 0..b.len().saturating_sub(20) {
        if b[p] != 0xff {
            continue;
        }
        if b[p + 1] == 0x51 {
            let f = |i: usize| at(p + 6 + 4 * i, 4).unwrap_or(0);
            let n = at(p + 38, 2).unwrap_or(0);
            let plausible = at(p + 2, 2).map_or(false, |l| l == 38 + 3 * n);
            if !plausible {
                continue;
            }
            let (w, h) = (f(0).saturating_sub(f(2)), f(1).saturating_sub(f(3)));
            samples = samples.max(w.saturating_mul(h).saturating_mul(n.max(1)));
            // tiles may reach far beyond the image
            let (tw, th) = (f(4).max(1), f(5).max(1));
            let g = (f(0).saturating_sub(f(6)).div_ceil(tw)).saturating_mul(f(1).saturating_sub(f(7)).div_ceil(th));
            tiles = tiles.max(g.min(70000));
            comps = comps.max(n);
        } else if b[p + 1] == 0x52 && at(p + 2, 2).map_or(false, |l| (12..60).contains(&l)) {
            layers = layers.max(at(p + 6, 2).unwrap_or(0));
        }
    }
    (samples, tiles.saturating_mul(comps).saturating_mul(layers))
}
unsafe fn usable(p: *mut c_void) -> usize {
    extern "C" {
        fn malloc_usable_size(p: *mut c_void) -> usize;
    }
    malloc_usable_size(p)
}
unsafe fn sound(im: *const opj_image_t, what: &str) -> R {
    ensure!(!im.is_null(), "no-image", "{what} succeeded without an image");
    let im = &*im;
    ensure!(im.numcomps == 0 || !im.comps.is_null(), "no-components", "{what}: {} components, none there", im.numcomps);
    for i in 0..im.numcomps as usize {
        let k = &*im.comps.add(i);
        let n = k.w as usize * k.h as usize;
        ensure!(n == 0 || !k.data.is_null(), "no-samples", "{what}: component {i} is {}x{} without samples", k.w, k.h);
        if n > 0 {
            if alloc::COUNTS {
                let have = usable(k.data as *mut c_void);
                ensure!(have >= 4 * n, "too-few-samples", "{what}: component {i} is {}x{} with {have} bytes", k.w, k.h);
            }
            let mut s = 0i64;
            for v in std::slice::from_raw_parts(k.data, n) {
                s = s.wrapping_add(*v as i64);
            }
            std::hint::black_box(s);
        }
    }
    if !im.icc_profile_buf.is_null() {
        let s: u64 = std::slice::from_raw_parts(im.icc_profile_buf, im.icc_profile_len as usize).iter().map(|&x| x as u64).sum();
        std::hint::black_box(s);
    }
    Ok(())
}
unsafe fn inspect(g: &Guards) {
    let f = libc::fopen(c"/dev/null".as_ptr(), c"w".as_ptr());
    if f.is_null() {
        return; // out of the memory it may take
    }
    opj_dump_codec(g.codec, -1, f);
    libc::fclose(f);
    let mut i = opj_get_cstr_info(g.codec);
    opj_destroy_cstr_info(&mut i);
    let mut x = opj_get_cstr_index(g.codec);
    opj_destroy_cstr_index(&mut x);
}
#[derive(Debug, Clone)]
enum How {
    Whole,
    Areas(Vec<(i32, i32, i32, i32)>),
    Tiles(Vec<u32>),
    Raw,
}
fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 700, max_dim: 60, max_comps: 4, ..Lim::default() };
    let Some(s) = any_stream(c, &lim) else { return Ok(()) };
    let nc = s.im.comps.len();
    let (lo, hi) = match s.f {
        Fmt::J2k => (0, s.bytes.len()),
        Fmt::Jp2 => boxes::codestream(&s.bytes).expect("own JP2 file"),
    };
    let mut cs = s.bytes[lo..hi].to_vec();
    let t = &mut c.t;
    let how = t.weighted(&[8, 3, 1, 1, 1]);
    let kind = ["structure", "bytes", "truncated", "spliced", "as it is"][how];
    match how {
        0 => {
            if let Some(mut x) = Cs::parse(&cs) {
                spoil_cs(t, &mut x);
                cs = x.build();
            }
        }
        1 => {
            for _ in 0..t.us(1, 6) {
                poke(t, &mut cs);
            }
        }
        2 => {
            let n = t.us(0, cs.len());
            cs.truncate(n);
        }
        3 => {
            let (a, b) = (t.us(0, cs.len()), t.us(0, cs.len()));
            let v = cs[a.min(b)..a.max(b)].to_vec();
            let p = t.us(0, cs.len());
            cs.splice(p..p, v);
        }
        _ => {}
    }
    let mut b = if s.f == Fmt::Jp2 { spoil_jp2(t, &s.bytes, &cs, nc) } else { cs };
    if t.chance(1, 12) {
        poke(t, &mut b);
    }
    if t.chance(1, 25) {
        let n = t.us(0, b.len());
        b.truncate(n);
    }
    // the dimensions stay small in most cases, so that time goes into decoding
    if let (Some(i), Some(j)) = (s.bytes.windows(4).position(|w| w == [0xff, 0x4f, 0xff, 0x51]), b.windows(4).position(|w| w == [0xff, 0x4f, 0xff, 0x51])) {
        if b.len() >= j + 40 && b[j..j + 40] != s.bytes[i..i + 40] && t.chance(3, 4) {
            b[j..j + 40].copy_from_slice(&s.bytes[i..i + 40]);
        }
    }
    dump(&b);
    let o = DecOpts {
        reduce: if t.chance(1, 4) { t.u32(0, 6) } else { 0 },
        layers: if t.chance(1, 6) { t.u32(0, 3) } else { 0 },
        res_factor: if t.chance(1, 8) { Some(t.u32(0, 4)) } else { None },
        comps: if t.chance(1, 8) { Some((0..t.us(0, 3)).map(|_| t.below(nc as u64 + 1) as u32).collect()) } else { None },
        lenient: t.bool(),
        flags: t.below(2) as u32,
        threads: if t.chance(1, 10) { Some(t.range(0, 4) as i32) } else { None },
        ..Default::default()
    };
    let use_ = match t.weighted(&[8, 4, 3, 2]) {
        0 => How::Whole,
        1 => How::Areas((0..t.us(1, 3)).map(|_| rect(t, &s.im)).collect()),
        2 => How::Tiles((0..t.us(1, 4)).map(|_| t.below(7) as u32).collect()),
        _ => How::Raw,
    };
    let buf = *t.pick(&[1usize << 20, 1 << 20, 64, 1, 7]);
    let peek = t.chance(1, 3);
    let (samples, work) = demand(&b);
    c.describe(|| format!("{kind}: {} bytes; {o:?} {use_:?} buffer {buf} info {peek}; asks for {samples} samples, {work} tile-component-layers", b.len()));
    if work > 200_000 || samples > if alloc::COUNTS { 1 << 40 } else { 1 << 18 } {
        c.label("too-much-work");
        return Ok(());
    }
    // what decoding this may take: the parameters of every tile-component, the samples, and for every one at
    // worst a precinct and a code-block;
    // with less memory than it asks for, it has to fail
    let small = samples <= 1 << 16 && work <= 1 << 16;
    let fair = (64u64 << 20) + samples.saturating_mul(4000) + b.len() as u64 * 2000 + work * (16 << 10);
    alloc::limit(if small { fair } else { 200 << 20 });
    let mut m = Msgs::default();
    let mut mem = Mem::reader(&b);
    let mut done = 0u64;
    let mut header = false;
    let r = (|| -> R {
        unsafe {
            let mut g = Guards::new();
            g.stream = mem_stream(&mut mem, true, buf);
            let opened = open_decoder(&mut g, s.f, &o, &mut m);
            header = !g.image.is_null();
            if peek {
                inspect(&g);
            }
            if opened.is_err() {
                return Ok(());
            }
            match &use_ {
                How::Whole => {
                    if opj_decode(g.codec, g.stream, g.image) != 0 {
                        done += 1;
                        sound(g.image, "opj_decode")?;
                        opj_end_decompress(g.codec, g.stream);
                    }
                }
                How::Areas(v) => {
                    for r in v {
                        if opj_set_decode_area(g.codec, g.image, r.0, r.1, r.2, r.3) == 0 {
                            continue;
                        }
                        if opj_decode(g.codec, g.stream, g.image) == 0 {
                            break;
                        }
                        done += 1;
                        sound(g.image, "opj_decode of a region")?;
                    }
                }
                How::Tiles(v) => {
                    for n in v {
                        if opj_get_decoded_tile(g.codec, g.stream, g.image, *n) != 0 {
                            done += 1;
                            sound(g.image, "opj_get_decoded_tile")?;
                        }
                    }
                }
                How::Raw => {
                    for _ in 0..50 {
                        let (mut t, mut sz, mut go, mut x, mut y, mut x1, mut y1, mut n) = (0u32, 0u32, 0, 0, 0, 0, 0, 0u32);
                        if opj_read_tile_header(g.codec, g.stream, &mut t, &mut sz, &mut x, &mut y, &mut x1, &mut y1, &mut n, &mut go) == 0 || go == 0 {
                            break;
                        }
                        if sz > 1 << 24 {
                            break;
                        }
                        let mut d = vec![0xa5u8; sz as usize];
                        if opj_decode_tile_data(g.codec, t, d.as_mut_ptr(), sz, g.stream) == 0 {
                            break;
                        }
                        std::hint::black_box(&d);
                        done += 1;
                    }
                }
            }
            if peek {
                inspect(&g);
            }
        }
        Ok(())
    })();
    let (refused, rust) = (alloc::refused(), alloc::rust_max());
    alloc::limit(0);
    r?;
    ensure!(!(small && refused > 0), "memory", "{} bytes asking for {samples} samples wanted more than {} MB", b.len(), fair >> 20);
    ensure!(rust < (64 << 20) + samples * 16, "memory-of-a-collection", "one allocation of {rust} bytes for {} bytes of input", b.len());
    c.label(kind);
    c.label_if(!small, "large-dimensions");
    c.label_if(refused > 0, "out-of-memory");
    c.label_if(header, "header-read");
    c.label_if(done > 0, "decoded");
    if header {
        c.nontrivial();
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "the main header of the damaged stream was read, so that tiles were decoded or attempted", quick: Budget { cases: 400_000, secs: 40 }, ..Prop::new("C19", run) }
}
