//! C18: what JP2 boxes say, applied to what the codestream decodes to alone.
use super::common::*;
use crate::boxes::bx;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

#[derive(Clone, Debug)]
struct Col {
    bits: u32,
    sgnd: bool,
}
#[derive(Clone, Debug)]
struct Pal {
    cols: Vec<Col>,
    n: usize,
    /// n rows of one value for each column
    v: Vec<i64>,
    /// component, palette column or none
    map: Vec<(usize, Option<usize>)>,
}
/// channel, type, association
type Def = (u16, u16, u16);
#[derive(Clone, Debug, Default)]
struct Spec {
    color: i32,
    icc: Vec<u8>,
    pal: Option<Pal>,
    cdef: Vec<Def>,
}
/// a box, with XLBox now and then
fn put(t: &mut Tape, kind: &[u8; 4], data: &[u8], what: &mut Vec<&'static str>) -> Vec<u8> {
    if t.chance(1, 10) {
        what.push("XL");
        let mut v = 1u32.to_be_bytes().to_vec();
        v.extend_from_slice(kind);
        v.extend((data.len() as u64 + 16).to_be_bytes());
        v.extend_from_slice(data);
        return v;
    }
    bx(kind, data)
}
fn other(t: &mut Tape, what: &mut Vec<&'static str>) -> Vec<u8> {
    what.push("unknown box");
    let kind = *t.pick(&[b"xml ", b"uuid", b"uinf", b"jp2i", b"free", b"asoc", b"nlst", b"\xff\xfe\x00\x01", b"res "]);
    let n = t.us(0, 40);
    let mut d = t.bytes(n);
    if t.chance(1, 6) {
        // boxes inside a box mean nothing
        d = bx(*t.pick(&[b"jp2h", b"jp2c", b"colr", b"ihdr", b"ftyp"]), &d);
    }
    put(t, kind, &d, what)
}
/// samples of the components tell how many entries a palette needs
fn palette(t: &mut Tape, alone: &Img) -> Option<Pal> {
    let nc = alone.comps.len();
    let index: Vec<usize> = (0..nc).filter(|i| !alone.comps[*i].sgnd && alone.comps[*i].data.iter().all(|v| *v >= 0 && *v < 1024)).collect();
    if index.is_empty() {
        return None;
    }
    let n_cols = t.us(1, 6);
    let cols: Vec<Col> = (0..n_cols)
        .map(|_| {
            let sgnd = t.chance(1, 4);
            Col { bits: if t.chance(1, 2) { 8 } else { t.u32(1, if sgnd { 32 } else { 31 }) }, sgnd }
        })
        .collect();
    let mut map: Vec<(usize, Option<usize>)> = match t.weighted(&[3, 3]) {
        // every column once, in order
        0 => (0..n_cols).map(|k| (*t.pick(&index), Some(k))).collect(),
        _ => {
            let n = t.us(1, 6);
            (0..n)
                .map(|_| match t.chance(1, 3) {
                    true => (t.us(0, nc - 1), None),
                    _ => (*t.pick(&index), Some(t.us(0, n_cols - 1))),
                })
                .collect()
        }
    };
    if t.chance(1, 3) {
        // the rest used directly
        for c in 0..nc {
            if !map.iter().any(|m| m.0 == c) {
                map.push((c, None));
            }
        }
    }
    if map.iter().all(|m| m.1.is_none()) {
        map[0] = (index[0], Some(0));
    }
    let least = map.iter().filter(|m| m.1.is_some()).flat_map(|m| alone.comps[m.0].data.iter().copied()).max().unwrap_or(0) as usize + 1;
    let n = match t.weighted(&[3, 2, 1]) {
        0 => least,
        1 => (least + t.us(0, 20)).min(1024),
        _ => 1024,
    };
    let mut r = t.fork();
    let v = (0..n * n_cols)
        .map(|i| {
            let c = &cols[i % n_cols];
            let x = (r.next() & ((1u64 << c.bits) - 1)) as i64;
            if c.sgnd && x >> (c.bits - 1) != 0 {
                x - (1i64 << c.bits)
            } else {
                x
            }
        })
        .collect();
    Some(Pal { cols, n, v, map })
}
fn definitions(t: &mut Tape, n: usize, colours: usize) -> Vec<Def> {
    let colours = colours.min(n);
    let mut order: Vec<usize> = (0..n).collect();
    if t.chance(2, 3) {
        t.shuffle(&mut order);
    }
    let mut pairs = vec![];
    let mut v: Vec<Def> = order
        .iter()
        .enumerate()
        .map(|(k, c)| {
            if k < colours {
                return (*c as u16, 0, k as u16 + 1);
            }
            let d = match t.weighted(&[4, 2, 2, 2]) {
                0 => (1, 0),
                1 => (2, 0),
                2 => (t.us(1, 2) as u16, t.us(1, colours.max(1)) as u16),
                _ => (65535, 65535),
            };
            // no two channels may be of the same kind for the same colour
            if d.1 == 65535 || pairs.contains(&d) || colours == 0 {
                (*c as u16, 65535, 65535)
            } else {
                pairs.push(d);
                (*c as u16, d.0, d.1)
            }
        })
        .collect();
    match t.weighted(&[2, 2]) {
        0 => v.sort(),
        _ => t.shuffle(&mut v),
    }
    v
}
fn model(alone: &Img, s: &Spec, ignore: bool) -> (Vec<Comp>, Vec<Vec<bool>>) {
    let mut ch = alone.comps.clone();
    let mut known: Vec<Vec<bool>> = ch.iter().map(|c| vec![true; c.data.len()]).collect();
    if ignore {
        return (ch, known);
    }
    if let Some(p) = &s.pal {
        (ch, known) = p
            .map
            .iter()
            .map(|(c, k)| {
                let mut o = alone.comps[*c].clone();
                let mut ok = vec![true; o.data.len()];
                if let Some(k) = k {
                    o.prec = p.cols[*k].bits;
                    o.sgnd = p.cols[*k].sgnd;
                    for (d, ok) in o.data.iter_mut().zip(&mut ok) {
                        match *d >= 0 && (*d as usize) < p.n {
                            true => *d = p.v[*d as usize * p.cols.len() + k] as i32,
                            false => *ok = false,
                        }
                    }
                }
                (o, ok)
            })
            .unzip();
    }
    for d in &s.cdef {
        ch[d.0 as usize].alpha = d.1;
    }
    (ch, known)
}
fn same(a: &Comp, b: &Comp, known: &[bool]) -> Result<(), String> {
    if (a.dx, a.dy, a.w, a.h, a.x0, a.y0, a.prec, a.sgnd, a.factor, a.alpha) != (b.dx, b.dy, b.w, b.h, b.x0, b.y0, b.prec, b.sgnd, b.factor, b.alpha) {
        return Err(format!("has {:?}, expected {:?}", Comp { data: vec![], ..a.clone() }, Comp { data: vec![], ..b.clone() }));
    }
    if a.data.len() != b.data.len() {
        return Err(format!("has {} samples, expected {}", a.data.len(), b.data.len()));
    }
    match (0..a.data.len()).find(|i| known[*i] && a.data[*i] != b.data[*i]) {
        Some(i) => Err(format!("is {} at {i}, expected {}", a.data[i], b.data[i])),
        None => Ok(()),
    }
}
fn judge(got: &Img, alone: &Img, s: &Spec, ignore: bool, what: &str) -> R {
    ensure!((got.x0, got.y0, got.x1, got.y1) == (alone.x0, alone.y0, alone.x1, alone.y1), "bounds", "{what}: {} but {}", got.brief(), alone.brief());
    ensure!(got.color == s.color, "colour-space", "{what}: colour space {}, expected {}", got.color, s.color);
    ensure!(got.icc == s.icc, "icc", "{what}: ICC profile {:?}, expected {:?}", got.icc, s.icc);
    let (want, known) = model(alone, s, ignore);
    ensure!(got.comps.len() == want.len(), "channels", "{what}: {} components, expected {}", got.comps.len(), want.len());
    if ignore || s.cdef.is_empty() {
        for (i, (a, b)) in got.comps.iter().zip(&want).enumerate() {
            if let Err(e) = same(a, b, &known[i]) {
                return fail("channel", format!("{what}: component {i} {e}"));
            }
        }
        return Ok(());
    }
    let mut left: Vec<usize> = (0..got.comps.len()).collect();
    for d in s.cdef.iter().filter(|d| d.1 == 0) {
        let (at, c) = (d.2 as usize - 1, d.0 as usize);
        if let Err(e) = same(&got.comps[at], &want[c], &known[c]) {
            return fail("colour-channel", format!("{what}: channel {c} is colour {}, component {at} {e}", d.2));
        }
        left.retain(|x| *x != at);
    }
    for d in s.cdef.iter().filter(|d| d.1 != 0) {
        let c = d.0 as usize;
        match left.iter().position(|i| same(&got.comps[*i], &want[c], &known[c]).is_ok()) {
            Some(k) => {
                left.remove(k);
            }
            None => return fail("other-channel", format!("{what}: channel {c} of type {} for {} is none of components {left:?} of {}", d.1, d.2, got.brief())),
        }
    }
    Ok(())
}
/// the file, and what its boxes say
fn wrap(t: &mut Tape, alone: &Img, stream: &[u8], what: &mut Vec<&'static str>) -> (Vec<u8>, Spec) {
    let mut s = Spec::default();
    let bpc = |k: &Comp| (k.prec - 1) as u8 | (k.sgnd as u8) << 7;
    let nc = alone.comps.len();
    let same = alone.comps.iter().all(|k| bpc(k) == bpc(&alone.comps[0]));
    let list = !same || t.chance(1, 8);
    let mut d = vec![];
    d.extend((alone.y1 - alone.y0).to_be_bytes());
    d.extend((alone.x1 - alone.x0).to_be_bytes());
    d.extend((nc as u16).to_be_bytes());
    d.extend([if list { 255 } else { bpc(&alone.comps[0]) }, 7, t.below(2) as u8, t.below(2) as u8]);
    let ihdr = put(t, b"ihdr", &d, what);
    let mut inside: Vec<Vec<u8>> = vec![];
    if list {
        inside.push(put(t, b"bpcc", &alone.comps.iter().map(bpc).collect::<Vec<u8>>(), what));
    }
    // colour: boxes whose method is not known count for nothing, nor do those after the first
    let mut colr: Vec<Vec<u8>> = vec![];
    if t.chance(1, 5) {
        what.push("colr of another method");
        let n = t.us(0, 30);
        let d = [vec![t.u32(3, 255) as u8, t.below(256) as u8, t.below(5) as u8], t.bytes(n)].concat();
        colr.push(put(t, b"colr", &d, what));
    }
    let n = if t.chance(1, 5) { 2 } else { 1 };
    for i in 0..n {
        if i > 0 {
            what.push("colr again");
        }
        let mut d = vec![0, t.below(256) as u8, t.below(5) as u8];
        let (mut color, mut icc) = (-1, vec![]);
        if t.chance(1, 3) {
            d[0] = 2;
            let n = t.us(1, 200);
            icc = t.bytes(n);
            d.extend(&icc);
        } else {
            d[0] = 1;
            let (e, c) = *t.pick(&[(16u32, 1), (17, 2), (18, 3), (24, 4), (12, 5), (1, -1), (3, -1), (15, -1), (25, -1), (100, -1)]);
            d.extend(e.to_be_bytes());
            color = c;
        }
        if i == 0 {
            s.color = color;
            s.icc = icc;
        }
        colr.push(put(t, b"colr", &d, what));
    }
    let at = t.us(0, 1) * inside.len();
    inside.insert(at, colr.concat());
    if t.chance(1, 2) {
        s.pal = palette(t, alone);
    }
    if let Some(p) = &s.pal {
        what.push("palette");
        let mut d = (p.n as u16).to_be_bytes().to_vec();
        d.push(p.cols.len() as u8);
        d.extend(p.cols.iter().map(|c| (c.bits - 1) as u8 | (c.sgnd as u8) << 7));
        for (i, v) in p.v.iter().enumerate() {
            let c = &p.cols[i % p.cols.len()];
            let v = (*v as u64) & ((1u64 << c.bits) - 1);
            let n = ((c.bits + 7) / 8) as usize;
            d.extend(&v.to_be_bytes()[8 - n..]);
        }
        inside.push(put(t, b"pclr", &d, what));
        let d: Vec<u8> = p.map.iter().flat_map(|(c, k)| [(*c >> 8) as u8, *c as u8, k.is_some() as u8, k.unwrap_or(0) as u8]).collect();
        inside.push(put(t, b"cmap", &d, what));
    }
    if t.chance(1, 2) {
        let n = s.pal.as_ref().map_or(nc, |p| p.map.len());
        let colours = match t.chance(1, 6) {
            true => t.us(1, n),
            _ => match s.color {
                2 => 1,
                5 => 4,
                _ => 3,
            },
        };
        s.cdef = definitions(t, n, colours);
        what.push("cdef");
        let mut d = (s.cdef.len() as u16).to_be_bytes().to_vec();
        for k in &s.cdef {
            for v in [k.0, k.1, k.2] {
                d.extend(v.to_be_bytes());
            }
        }
        inside.push(put(t, b"cdef", &d, what));
    }
    if t.chance(1, 4) {
        inside.push(other(t, what));
    }
    if t.chance(1, 2) {
        t.shuffle(&mut inside);
        what.push("boxes shuffled");
    }
    let mut v = put(t, b"jP  ", &[0x0d, 0x0a, 0x87, 0x0a], &mut vec![]);
    if v.len() != 12 {
        // the signature box has a fixed form
        v = bx(b"jP  ", &[0x0d, 0x0a, 0x87, 0x0a]);
    }
    let mut d = match t.chance(1, 4) {
        true => b"jpx \0\0\0\0".to_vec(),
        _ => b"jp2 \0\0\0\0".to_vec(),
    };
    let n = t.us(0, 2);
    for _ in 0..n {
        d.extend(*t.pick(&[b"jpx ", b"jpm ", b"abcd"]));
    }
    d.extend(b"jp2 ");
    v.extend(put(t, b"ftyp", &d, what));
    let n = t.weighted(&[4, 1, 1]);
    for _ in 0..n {
        v.extend(other(t, what));
    }
    v.extend(put(t, b"jp2h", &[vec![ihdr], inside].concat().concat(), what));
    let n = t.weighted(&[4, 1, 1]);
    for _ in 0..n {
        v.extend(other(t, what));
    }
    match t.weighted(&[3, 2, 3, 1]) {
        0 => v.extend(put(t, b"jp2c", stream, what)),
        1 => {
            what.push("jp2c to the end");
            v.extend([0, 0, 0, 0]);
            v.extend(b"jp2c");
            v.extend(stream);
        }
        k => {
            v.extend(put(t, b"jp2c", stream, what));
            for _ in 0..t.us(1, 2) {
                v.extend(other(t, what));
            }
            what.push("boxes after the codestream");
            if k == 3 {
                what.push("last box to the end");
                v.extend([0, 0, 0, 0]);
                v.extend(*t.pick(&[b"xml ", b"uuid", b"free"]));
                let n = t.us(0, 30);
                let d = t.bytes(n);
                v.extend(d);
            }
        }
    }
    (v, s)
}
/// the same operations with a decoder for each kind of file
unsafe fn in_turn(data: &[u8], f: Fmt, o: &DecOpts, ops: &[(Option<u32>, (i32, i32, i32, i32))]) -> Vec<Result<Img, String>> {
    let mut g = Guards::new();
    let mut mem = Mem::reader(data);
    let mut msgs = Msgs::default();
    g.stream = mem_stream(&mut mem, true, 1 << 16);
    let mut v = vec![];
    if let Err(e) = open_decoder(&mut g, f, o, &mut msgs) {
        v.push(Err(format!("{e} {msgs:?}")));
        return v;
    }
    for (tile, r) in ops {
        let ok = match tile {
            Some(n) => opj_get_decoded_tile(g.codec, g.stream, g.image, *n) != 0,
            None => opj_set_decode_area(g.codec, g.image, r.0, r.1, r.2, r.3) != 0 && opj_decode(g.codec, g.stream, g.image) != 0,
        };
        if !ok {
            v.push(Err(format!("{msgs:?}")));
            break;
        }
        v.push(Ok(Img::from_opj(g.image)));
    }
    v
}
fn boxes_case(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 1500, ..Lim::default() };
    let (mut im, mut g) = any_cfg(c, &lim);
    if c.t.chance(1, 2) {
        // samples to look up in a palette
        let top = c.t.us(0, 300) as i32;
        for k in im.comps.iter_mut().filter(|k| !k.sgnd) {
            let hi = k.hi().min(i32::MAX as i64 - 1) as i32;
            k.data.iter_mut().for_each(|v| *v = *v % (top.min(hi) + 1));
        }
        if c.t.chance(3, 4) {
            g.irreversible = false;
            g.disto_alloc = false;
            g.fixed_quality = false;
            g.rates.clear();
            g.distoratio.clear();
            lossless_layers(&mut c.t, &mut g);
        }
    }
    c.describe(|| format!("{} {}", im.brief(), g.brief()));
    let Ok(stream) = encode(&im, &g, Fmt::J2k) else {
        c.label("not-encoded");
        return Ok(());
    };
    let whole = decode(&stream, Fmt::J2k, &DecOpts::default()).map_err(|e| Fail { sig: "codestream-refused".into(), msg: e.text() })?;
    let mut what = vec![];
    let (file, s) = wrap(&mut c.t, &whole, &stream, &mut what);
    dump(&file);
    for w in &what {
        c.label(*w);
    }
    c.describe(|| format!("{what:?} {s:?}").chars().take(900).collect());
    if s.pal.is_some() || !s.cdef.is_empty() {
        c.nontrivial();
    }
    let mut o = DecOpts::default();
    let ignore = c.t.chance(1, 8);
    if ignore {
        o.flags = 1;
        c.label("ignoring pclr, cmap, cdef");
    }
    if c.t.chance(1, 4) {
        o.reduce = c.t.u32(0, g.numres as u32 - 1);
    }
    if c.t.chance(1, 6) {
        o.layers = c.t.u32(1, 4);
    }
    if c.t.chance(1, 2) {
        if c.t.chance(1, 2) {
            let mut r = rect(&mut c.t, &whole);
            r.0 = r.0.min(whole.x1 as i32 - 1);
            o.area = Some(r);
        }
        c.describe(|| format!("reduce {} layers {} area {:?} ignore {ignore}", o.reduce, o.layers, o.area));
        let a = decode(&stream, Fmt::J2k, &o);
        let b = decode(&file, Fmt::Jp2, &o);
        match (a, b) {
            (Ok(a), Ok(b)) => judge(&b, &a, &s, ignore, "decoded"),
            (Err(_), _) => {
                c.label("codestream refused");
                Ok(())
            }
            (Ok(_), Err(e)) => fail("refused", format!("the codestream alone is decoded, the file is not: {}", e.text())),
        }
    } else {
        let tiles = grid(&im, &g);
        let n = c.t.us(1, 4);
        let by_tile = c.t.bool();
        let ops: Vec<(Option<u32>, (i32, i32, i32, i32))> = (0..n).map(|_| if by_tile { (Some(c.t.u32(0, tiles.0 * tiles.1 - 1)), (0, 0, 0, 0)) } else { (None, rect(&mut c.t, &whole)) }).collect();
        c.describe(|| format!("reduce {} layers {} ignore {ignore} in turn {ops:?}", o.reduce, o.layers));
        let (a, b) = unsafe { (in_turn(&stream, Fmt::J2k, &o, &ops), in_turn(&file, Fmt::Jp2, &o, &ops)) };
        c.label_if(a.len() > 1, "in turn");
        for (i, x) in a.iter().enumerate() {
            match (x, b.get(i)) {
                (Err(_), _) => {
                    c.label("codestream refused in turn");
                    break;
                }
                (Ok(x), Some(Ok(y))) => judge(y, x, &s, ignore, &format!("decoded {} of {}", i + 1, ops.len()))?,
                (Ok(_), e) => return fail("refused-in-turn", format!("the codestream alone is decoded {} times, the file is not: {:?}", i + 1, e)),
            }
        }
        Ok(())
    }
}
/// what the encoder puts into a file comes back
fn written(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 1500, ..Lim::default() };
    let (mut im, g) = any_cfg(c, &lim);
    im.color = *c.t.pick(&[1, 2, 3, 4, 5]);
    if c.t.chance(1, 3) {
        let n = c.t.us(1, 300);
        im.icc = c.t.bytes(n);
    }
    let n = im.comps.len();
    let colours = match im.color {
        1 | 3 => 3,
        2 => 1,
        _ => 99,
    };
    let alpha = n > 1 && c.t.bool();
    if alpha {
        let k = c.t.us(0, n - 1);
        im.comps[k].alpha = *c.t.pick(&[1, 1, 2]);
    }
    c.describe(|| format!("{} {} icc {}", im.brief(), g.brief(), im.icc.len()));
    let Ok(file) = encode(&im, &g, Fmt::Jp2) else {
        c.label("not-encoded");
        return Ok(());
    };
    dump(&file);
    c.label("written by the encoder");
    let a = match decode(&file, Fmt::Jp2, &DecOpts::default()) {
        Ok(a) => a,
        Err(e) => return fail("own-file-refused", e.text()),
    };
    let color = if im.icc.is_empty() { im.color } else { -1 };
    ensure!(a.color == color, "own-colour-space", "colour space {}, expected {color}", a.color);
    ensure!(a.icc == im.icc, "own-icc", "ICC profile of {} bytes, expected {}", a.icc.len(), im.icc.len());
    ensure!(a.comps.len() == n, "own-components", "{} of {n}", a.comps.len());
    for (i, (x, y)) in a.comps.iter().zip(&im.comps).enumerate() {
        ensure!((x.prec, x.sgnd) == (y.prec, y.sgnd), "own-depth", "component {i}: {} but {}", a.brief(), im.brief());
    }
    // opacity: of one channel after the colours of a colour space which tells how many there are
    let k = im.comps.iter().position(|k| k.alpha != 0);
    if let Some(k) = k {
        if im.icc.is_empty() && k >= colours {
            c.nontrivial();
            for (i, x) in a.comps.iter().enumerate() {
                let want = if i == k { 1 } else if i < colours { 0 } else { 65535 };
                ensure!(x.alpha == want, "own-alpha", "component {i}: alpha {}, expected {want}", x.alpha);
            }
        }
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    if c.t.chance(5, 6) {
        boxes_case(c)
    } else {
        written(c)
    }
}
pub fn prop() -> Prop {
    Prop { rule: "the file has a palette or channel definitions, or opacity to be written", ..Prop::new("C18", run) }
}
