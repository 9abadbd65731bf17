//! C26: any order of API calls is memory-safe and releases everything exactly once.
use super::common::*;
use crate::alloc;
use crate::gen::*;
use crate::w::*;
use openjp2::image::opj_image_cmptparm_t;
use openjp2::openjpeg::*;
use std::ffi::c_void;
use std::ptr::null_mut;
use vkit::*;

const NULL: usize = 9;
#[derive(Clone, Debug)]
enum Op {
    NewDec(usize, Fmt),
    NewEnc(usize, Fmt),
    DelCodec(usize),
    In(usize, usize, usize, u64),
    Out(usize, usize, u64),
    DelStream(usize),
    NewImage(usize, usize),
    TileImage(usize, usize),
    EmptyImage(usize, u32),
    CloneImage(usize, usize),
    TakeComps(usize, usize),
    Icc(usize, usize),
    DelImage(usize),
    SetupDec(usize, u32, u32, u32),
    Strict(usize, bool),
    Threads(usize, i32),
    Handlers(usize),
    ReadHeader(usize, usize, usize),
    Comps(usize, Vec<u32>, bool),
    Area(usize, usize, (i32, i32, i32, i32)),
    ResFactor(usize, u32),
    Decode(usize, usize, usize),
    GetTile(usize, usize, usize, u32),
    TileHeader(usize, usize, bool),
    /// None: the tile the last header named
    TileData(usize, usize, Option<u32>, i32),
    EndDec(usize, usize),
    SetupEnc(usize, usize, usize),
    Extra(usize, u32),
    Start(usize, usize, usize),
    Encode(usize, usize),
    WriteTile(usize, usize, u32, i32),
    EndEnc(usize, usize),
    Info(usize, usize),
    DelInfo(usize),
    Index(usize, usize),
    DelIndex(usize),
    Dump(usize, i32),
}
struct Src {
    im: Img,
    g: EncCfg,
    f: Fmt,
    tiles: u32,
    bytes: Vec<u8>,
}
struct World<'a> {
    codec: [*mut opj_codec_t; 10],
    stream: [*mut opj_stream_t; 10],
    image: [*mut opj_image_t; 10],
    info: [*mut opj_codestream_info_v2_t; 10],
    index: [*mut opj_codestream_index_t; 10],
    mem: [Option<Box<Mem>>; 10],
    msgs: [Option<Box<Msgs>>; 10],
    last: [(u32, u32); 10],
    data: &'a [(Vec<u8>, Fmt)],
    src: &'a [Src],
    freed: u64,
    streams: u64,
    oks: u64,
    done: u64,
    complete: u64,
}
impl<'a> World<'a> {
    fn new(data: &'a [(Vec<u8>, Fmt)], src: &'a [Src]) -> World<'a> {
        World {
            codec: [null_mut(); 10],
            stream: [null_mut(); 10],
            image: [null_mut(); 10],
            info: [null_mut(); 10],
            index: [null_mut(); 10],
            mem: Default::default(),
            msgs: Default::default(),
            last: [(0, 0); 10],
            data,
            src,
            freed: 0,
            streams: 0,
            oks: 0,
            done: 0,
            complete: 0,
        }
    }
    unsafe fn del_codec(&mut self, c: usize) {
        opj_destroy_codec(self.codec[c]);
        self.codec[c] = null_mut();
        self.msgs[c] = None;
    }
    unsafe fn del_stream(&mut self, s: usize) {
        opj_stream_destroy(self.stream[s]);
        self.stream[s] = null_mut();
        if let Some(m) = self.mem[s].take() {
            self.freed += m.freed;
        }
    }
    unsafe fn del_image(&mut self, i: usize) {
        opj_image_destroy(self.image[i]);
        self.image[i] = null_mut();
    }
    unsafe fn put_image(&mut self, i: usize, p: *mut opj_image_t) {
        if i == NULL {
            opj_image_destroy(p);
        } else {
            self.del_image(i);
            self.image[i] = p;
        }
    }
    unsafe fn params(im: &Img) -> Vec<opj_image_cmptparm_t> {
        im.comps.iter().map(|c| opj_image_cmptparm_t { dx: c.dx, dy: c.dy, w: c.w, h: c.h, x0: c.x0, y0: c.y0, prec: c.prec, bpp: c.prec, sgnd: c.sgnd as u32 }).collect()
    }
    unsafe fn run(&mut self, op: &Op) {
        use Op::*;
        let mut r = 1;
        match op {
            NewDec(c, f) => {
                self.del_codec(*c);
                self.codec[*c] = opj_create_decompress(f.codec());
            }
            NewEnc(c, f) => {
                self.del_codec(*c);
                self.codec[*c] = opj_create_compress(f.codec());
            }
            DelCodec(c) => self.del_codec(*c),
            In(s, d, b, fail) => {
                self.del_stream(*s);
                let mut m = Mem::reader(&self.data[*d].0);
                m.fail_at = *fail;
                self.stream[*s] = mem_stream(&mut m, true, *b);
                self.mem[*s] = Some(m);
                self.streams += 1;
            }
            Out(s, b, fail) => {
                self.del_stream(*s);
                let mut m = Mem::writer();
                m.max_len = 1 << 22;
                m.fail_at = *fail;
                self.stream[*s] = mem_stream(&mut m, false, *b);
                self.mem[*s] = Some(m);
                self.streams += 1;
            }
            DelStream(s) => self.del_stream(*s),
            NewImage(i, k) => {
                let p = self.src[*k].im.to_opj();
                self.put_image(*i, p);
            }
            TileImage(i, k) => {
                let im = &self.src[*k].im;
                let mut v = Self::params(im);
                let p = opj_image_tile_create(v.len() as u32, v.as_mut_ptr(), color_of(im.color));
                if !p.is_null() {
                    ((*p).x0, (*p).y0, (*p).x1, (*p).y1) = (im.x0, im.y0, im.x1, im.y1);
                }
                self.put_image(*i, p);
            }
            EmptyImage(i, n) => {
                let mut v = vec![opj_image_cmptparm_t { dx: 1, dy: 1, w: 0, h: *n, x0: 0, y0: 0, prec: 8, bpp: 8, sgnd: 0 }; *n as usize];
                v.reserve(1);
                let p = opj_image_create(*n, v.as_mut_ptr(), color_of(0));
                self.put_image(*i, p);
            }
            CloneImage(i, j) => {
                if !self.image[*j].is_null() && i != j {
                    let k = Box::new((*self.image[*j]).clone());
                    self.put_image(*i, Box::into_raw(k));
                }
            }
            TakeComps(i, j) => {
                if !self.image[*j].is_null() && i != j {
                    let k = Box::new((*self.image[*j]).take_comps());
                    self.put_image(*i, Box::into_raw(k));
                }
            }
            Icc(i, n) => {
                if !self.image[*i].is_null() {
                    r = (*self.image[*i]).copy_icc_profile(&vec![7u8; *n]) as i32;
                }
            }
            DelImage(i) => self.del_image(*i),
            SetupDec(c, red, lay, fl) => {
                let mut p: Box<opj_dparameters_t> = Box::default();
                p.cp_reduce = *red;
                p.cp_layer = *lay;
                p.flags = *fl;
                r = opj_setup_decoder(self.codec[*c], if *fl == 99 { null_mut() } else { &mut *p });
            }
            Strict(c, v) => r = opj_decoder_set_strict_mode(self.codec[*c], *v as i32),
            Threads(c, n) => r = opj_codec_set_threads(self.codec[*c], *n),
            Handlers(c) => {
                if self.codec[*c].is_null() {
                    opj_set_error_handler(null_mut(), None, null_mut());
                } else {
                    let m = self.msgs[*c].get_or_insert_with(Default::default);
                    set_handlers(self.codec[*c], m);
                }
            }
            ReadHeader(c, s, i) => {
                let mut p: *mut opj_image_t = null_mut();
                r = opj_read_header(self.stream[*s], self.codec[*c], if *i == NULL { null_mut() } else { &mut p });
                if *i != NULL {
                    self.put_image(*i, p);
                }
            }
            Comps(c, v, a) => r = opj_set_decoded_components(self.codec[*c], v.len() as u32, if v.is_empty() { std::ptr::null() } else { v.as_ptr() }, *a as i32),
            Area(c, i, (x0, y0, x1, y1)) => r = opj_set_decode_area(self.codec[*c], self.image[*i], *x0, *y0, *x1, *y1),
            ResFactor(c, n) => r = opj_set_decoded_resolution_factor(self.codec[*c], *n),
            Decode(c, s, i) => {
                r = opj_decode(self.codec[*c], self.stream[*s], self.image[*i]);
                self.touch(*i);
                self.complete += r as u64;
            }
            GetTile(c, s, i, n) => {
                r = opj_get_decoded_tile(self.codec[*c], self.stream[*s], self.image[*i], *n);
                self.touch(*i);
                self.complete += r as u64;
            }
            TileHeader(c, s, nulls) => {
                let (mut t, mut sz, mut go, mut x, mut y, mut x1, mut y1, mut n) = (0u32, 0u32, 0, 0, 0, 0, 0, 0u32);
                r = if *nulls {
                    opj_read_tile_header(self.codec[*c], self.stream[*s], null_mut(), null_mut(), null_mut(), null_mut(), null_mut(), null_mut(), null_mut(), null_mut())
                } else {
                    opj_read_tile_header(self.codec[*c], self.stream[*s], &mut t, &mut sz, &mut x, &mut y, &mut x1, &mut y1, &mut n, &mut go)
                };
                if r != 0 && !*nulls && go != 0 {
                    self.last[*c] = (t, sz);
                }
            }
            TileData(c, s, t, d) => {
                let (lt, lz) = self.last[*c];
                if *d == 99 {
                    r = opj_decode_tile_data(self.codec[*c], t.unwrap_or(lt), null_mut(), lz, self.stream[*s]);
                } else {
                    let n = ((lz as i64 + *d as i64).clamp(0, 1 << 22)) as usize;
                    let mut b = Vec::<u8>::with_capacity(n + 1);
                    b.resize(n, 0xa5);
                    r = opj_decode_tile_data(self.codec[*c], t.unwrap_or(lt), b.as_mut_ptr(), n as u32, self.stream[*s]);
                    std::hint::black_box(&b);
                }
                self.complete += r as u64;
            }
            EndDec(c, s) => r = opj_end_decompress(self.codec[*c], self.stream[*s]),
            SetupEnc(c, i, k) => {
                let g = &self.src[*k].g;
                let mut p = g.to_c();
                // the size of the matrix is that of the image: no way for the library to check it
                let nc = (self.image[*i] as *const opj_image_t).as_ref().map_or(0, |i| i.numcomps);
                if let Some((m, d)) = g.mct_matrix.as_ref().filter(|m| m.1.len() == nc as usize) {
                    p.set_MCT(m, d, nc);
                }
                let cm = g.comment.as_ref().map(|c| std::ffi::CString::new(c.clone()).expect("comment without NUL"));
                if let Some(c) = &cm {
                    p.cp_comment = c.as_ptr() as *mut _;
                }
                r = opj_setup_encoder(self.codec[*c], &mut *p, self.image[*i]);
                p.cp_comment = null_mut();
                if !p.mct_data.is_null() {
                    libc::free(p.mct_data);
                }
            }
            Extra(c, k) => {
                let o: &[&std::ffi::CStr] = match k {
                    0 => &[],
                    1 => &[c"PLT=YES"],
                    2 => &[c"TLM=YES", c"PLT=NO"],
                    3 => &[c"GUARD_BITS=4"],
                    4 => &[c"GUARD_BITS=x"],
                    5 => &[c"NONSENSE"],
                    _ => &[c"PLT=MAYBE"],
                };
                let mut v: Vec<*const std::ffi::c_char> = o.iter().map(|s| s.as_ptr()).collect();
                v.push(std::ptr::null());
                r = opj_encoder_set_extra_options(self.codec[*c], if *k == 9 { std::ptr::null() } else { v.as_ptr() });
            }
            Start(c, i, s) => r = opj_start_compress(self.codec[*c], self.image[*i], self.stream[*s]),
            Encode(c, s) => {
                r = opj_encode(self.codec[*c], self.stream[*s]);
                self.complete += r as u64;
            }
            WriteTile(c, s, k, d) => {
                let src = &self.src[(*k & 1) as usize % self.src.len()];
                let t = *k >> 1;
                let rc = tile_rect(&src.im, &src.g, t % src.tiles.max(1));
                let mut n = 0i64;
                for q in &src.im.comps {
                    let b = if q.prec <= 8 { 1 } else if q.prec <= 16 { 2 } else { 4 };
                    n += b * (ceil_div(rc.2, q.dx).saturating_sub(ceil_div(rc.0, q.dx)) as i64) * (ceil_div(rc.3, q.dy).saturating_sub(ceil_div(rc.1, q.dy)) as i64);
                }
                let mut b = vec![0x5au8; (n + *d as i64).max(0) as usize + 1];
                let l = b.len() - 1;
                b.truncate(l);
                b.shrink_to_fit();
                r = opj_write_tile(self.codec[*c], t, if b.is_empty() { null_mut() } else { b.as_mut_ptr() }, l as u32, self.stream[*s]);
                self.complete += r as u64;
            }
            EndEnc(c, s) => r = opj_end_compress(self.codec[*c], self.stream[*s]),
            Info(k, c) => {
                self.del_info(*k);
                self.info[*k] = opj_get_cstr_info(self.codec[*c]);
                if !self.info[*k].is_null() {
                    std::hint::black_box(std::ptr::read(self.info[*k]));
                }
            }
            DelInfo(k) => {
                if *k == NULL {
                    opj_destroy_cstr_info(null_mut());
                } else {
                    self.del_info(*k);
                }
            }
            Index(k, c) => {
                self.del_index(*k);
                self.index[*k] = opj_get_cstr_index(self.codec[*c]);
                if !self.index[*k].is_null() {
                    std::hint::black_box(std::ptr::read(self.index[*k]));
                }
            }
            DelIndex(k) => {
                if *k == NULL {
                    opj_destroy_cstr_index(null_mut());
                } else {
                    self.del_index(*k);
                }
            }
            Dump(c, fl) => {
                let f = libc::fopen(c"/dev/null".as_ptr(), c"w".as_ptr());
                assert!(!f.is_null(), "/dev/null");
                opj_dump_codec(self.codec[*c], *fl, f);
                libc::fclose(f);
            }
        }
        self.done += 1;
        self.oks += (r != 0) as u64;
    }
    /// reads every sample the image claims to hold
    unsafe fn touch(&self, i: usize) {
        if !self.image[i].is_null() {
            let v = Img::from_opj(self.image[i]);
            std::hint::black_box(&v);
        }
    }
    unsafe fn del_info(&mut self, k: usize) {
        opj_destroy_cstr_info(&mut self.info[k]);
        assert!(self.info[k].is_null());
    }
    unsafe fn del_index(&mut self, k: usize) {
        opj_destroy_cstr_index(&mut self.index[k]);
        assert!(self.index[k].is_null());
    }
    unsafe fn end(&mut self, order: &[usize]) {
        for &o in order {
            for k in 0..10 {
                match o {
                    0 => self.del_codec(k),
                    1 => self.del_stream(k),
                    2 => self.del_image(k),
                    3 => self.del_info(k),
                    _ => self.del_index(k),
                }
            }
        }
    }
}

fn decode_script(c: &mut Ctx, k: usize, data: &[(Vec<u8>, Fmt)], src: &[Src]) -> Vec<Op> {
    use Op::*;
    let t = &mut c.t;
    let d = t.us(0, data.len() - 1);
    let f = if t.chance(1, 20) { fmt(t) } else { data[d].1 };
    let s0 = &src[d % src.len()];
    let mut v = vec![In(k, d, *t.pick(&[1 << 16, 100, 1, 0]), if t.chance(1, 10) { t.range(1, 30) as u64 } else { 0 }), NewDec(k, f)];
    if t.bool() {
        v.push(Handlers(k));
    }
    let red = if t.chance(1, 5) { t.u32(0, 3) } else { 0 };
    if !t.chance(1, 8) {
        v.push(SetupDec(k, red, if t.chance(1, 6) { t.u32(1, 3) } else { 0 }, if t.chance(1, 10) { *t.pick(&[1, 2, 99]) } else { 0 }));
    }
    if t.chance(1, 3) {
        v.push(Strict(k, t.bool()));
    }
    if t.chance(1, 6) {
        v.push(Threads(k, t.range(-1, 4) as i32));
    }
    v.push(ReadHeader(k, k, k));
    let query = |t: &mut Tape, v: &mut Vec<Op>| {
        if t.chance(1, 4) {
            v.push(Info(k, k));
        }
        if t.chance(1, 4) {
            v.push(Index(k, k));
        }
        if t.chance(1, 6) {
            v.push(Dump(k, *t.pick(&[1, 2, 4, 16, 32, 64, 128, 256, 512, 0x3f7, -1])));
        }
    };
    query(t, &mut v);
    if t.chance(1, 6) {
        v.push(ResFactor(k, t.u32(0, 4)));
    }
    let nc = s0.im.comps.len() as u32;
    if t.chance(1, 6) {
        let m = t.us(0, nc as usize);
        v.push(Comps(k, (0..m).map(|_| t.u32(0, nc)).collect(), t.chance(1, 12)));
    }
    match t.weighted(&[4, 3, 3, 3]) {
        0 => {
            v.push(Decode(k, k, k));
        }
        1 => {
            for _ in 0..t.us(1, 3) {
                v.push(Area(k, k, rect(t, &s0.im)));
                v.push(Decode(k, k, k));
            }
        }
        2 => {
            for _ in 0..t.us(1, 4) {
                v.push(GetTile(k, k, k, t.u32(0, s0.tiles)));
            }
        }
        _ => {
            for _ in 0..s0.tiles.min(6) + 1 {
                let nulls = t.chance(1, 10);
                v.push(TileHeader(k, k, nulls));
                v.push(TileData(k, k, if t.chance(1, 10) { Some(t.u32(0, s0.tiles)) } else { None }, *t.pick(&[0, 0, 0, 0, 0, 0, -1, 1, 99])));
            }
        }
    }
    query(t, &mut v);
    if t.chance(2, 3) {
        v.push(EndDec(k, k));
    }
    query(t, &mut v);
    v
}
fn encode_script(c: &mut Ctx, k: usize, src: &[Src]) -> Vec<Op> {
    use Op::*;
    let t = &mut c.t;
    let n = t.us(0, src.len() - 1);
    let tiles = t.chance(2, 5);
    let mut v = vec![if tiles && t.bool() { TileImage(k, n) } else { NewImage(k, n) }, Out(k, *t.pick(&[1 << 16, 100, 1, 0]), if t.chance(1, 10) { t.range(1, 30) as u64 } else { 0 }), NewEnc(k, fmt(t))];
    if t.chance(1, 8) {
        v.push(Icc(k, t.us(0, 40)));
    }
    if t.bool() {
        v.push(Handlers(k));
    }
    v.push(SetupEnc(k, k, n));
    if t.chance(1, 4) {
        v.push(Extra(k, t.u32(0, 9)));
    }
    if t.chance(1, 8) {
        v.push(Info(k, k));
        v.push(Index(k, k));
        v.push(Dump(k, 0x3f7));
    }
    v.push(Start(k, k, k));
    if tiles {
        let mut o: Vec<u32> = (0..src[n].tiles.min(8)).collect();
        if t.chance(1, 4) {
            t.shuffle(&mut o);
        }
        for x in o {
            v.push(WriteTile(k, k, x * 2 + n as u32, *t.pick(&[0, 0, 0, 0, 0, -1, 1])));
        }
    } else {
        v.push(Encode(k, k));
    }
    v.push(EndEnc(k, k));
    if t.chance(1, 8) {
        v.push(Info(k, k));
        v.push(Index(k, k));
    }
    v
}
fn any_op(t: &mut Tape, data: &[(Vec<u8>, Fmt)], src: &[Src]) -> Op {
    use Op::*;
    let sl = |t: &mut Tape| if t.chance(1, 10) { NULL } else { t.us(0, 2) };
    let (a, b, d) = (sl(t), sl(t), sl(t));
    let (a0, b0) = (a % 3, b % 3);
    match t.us(0, 35) {
        0 => NewDec(a0, fmt(t)),
        1 => NewEnc(a0, fmt(t)),
        2 => DelCodec(a),
        3 => In(a0, t.us(0, data.len() - 1), 100, 0),
        4 => Out(a0, 100, 0),
        5 => DelStream(a),
        6 => NewImage(a0, t.us(0, src.len() - 1)),
        7 => TileImage(a0, t.us(0, src.len() - 1)),
        8 => EmptyImage(a0, t.u32(0, 3)),
        9 => CloneImage(a0, b0),
        10 => TakeComps(a0, b0),
        11 => Icc(a0, t.us(0, 20)),
        12 => DelImage(a),
        13 => SetupDec(a, t.u32(0, 4), t.u32(0, 4), 0),
        14 => Strict(a, t.bool()),
        15 => Threads(a, t.range(-1, 8) as i32),
        16 => Handlers(a),
        17 => ReadHeader(a, b, d),
        18 => Comps(a, (0..t.us(0, 4)).map(|_| t.u32(0, 4)).collect(), t.chance(1, 8)),
        19 => Area(a, b, if t.chance(1, 3) { (t.range(-3, 90) as i32, t.range(-3, 90) as i32, t.range(-3, 90) as i32, t.range(-3, 90) as i32) } else { rect(t, &src[0].im) }),
        20 => ResFactor(a, t.u32(0, 7)),
        21 | 22 => Decode(a, b, d),
        23 => GetTile(a, b, d, t.u32(0, 6)),
        24 => TileHeader(a, b, t.bool()),
        25 => TileData(a, b, if t.bool() { Some(t.u32(0, 5)) } else { None }, *t.pick(&[0, 1, -1, 40, 99])),
        26 => EndDec(a, b),
        27 => SetupEnc(a, b, t.us(0, src.len() - 1)),
        28 => Extra(a, t.u32(0, 9)),
        29 => Start(a, b, d),
        30 => Encode(a, b),
        31 => WriteTile(a, b, t.u32(0, 9), *t.pick(&[0, 0, 1, -1])),
        32 => EndEnc(a, b),
        33 => {
            if t.bool() {
                Info(a0, b)
            } else {
                DelInfo(a)
            }
        }
        34 => {
            if t.bool() {
                Index(a0, b)
            } else {
                DelIndex(a)
            }
        }
        _ => Dump(a, *t.pick(&[1, 2, 16, 64, 128, 256, 512, 0x3f7])),
    }
}

fn run(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 900, max_dim: 40, ..Lim::default() };
    let mut src = vec![];
    let mut data: Vec<(Vec<u8>, Fmt)> = vec![];
    let ns = c.t.us(1, 2);
    for _ in 0..ns {
        let (im, mut g) = any_cfg(c, &lim);
        if c.t.chance(1, 8) {
            g.mct_matrix = Some(matrix(&mut c.t, &im));
            g.irreversible = true;
            c.label("component transform of one's own");
        }
        let f = fmt(&mut c.t);
        let tg = grid(&im, &g);
        let bytes = encode(&im, &g, f).unwrap_or_default();
        data.push((bytes.clone(), f));
        src.push(Src { im, g, f, tiles: tg.0 * tg.1, bytes });
    }
    // damaged copies
    for k in 0..ns {
        let s = &src[k];
        let mut b = s.bytes.clone();
        if !b.is_empty() {
            match c.t.weighted(&[3, 2, 2]) {
                0 => b.truncate(c.t.us(0, b.len())),
                1 => {
                    for _ in 0..c.t.us(1, 4) {
                        let i = c.t.us(0, b.len() - 1);
                        b[i] = c.t.below(256) as u8;
                    }
                }
                _ => {
                    let n = b.len().min(200);
                    let i = c.t.us(0, n - 1);
                    b[i] = b[i].wrapping_add(*c.t.pick(&[1, 255, 128]));
                }
            }
        }
        // the work depends on the dimensions which are stated: they stay small
        if let Some(i) = s.bytes.windows(4).position(|w| w == [0xff, 0x4f, 0xff, 0x51]) {
            if b.len() >= i + 40 {
                b[i..i + 40].copy_from_slice(&s.bytes[i..i + 40]);
            }
        }
        let f = s.f;
        data.push((b, f));
    }
    let mut parts: Vec<std::collections::VecDeque<Op>> = vec![];
    for k in 0..c.t.us(1, 3) {
        parts.push(if c.t.chance(2, 5) { encode_script(c, k, &src) } else { decode_script(c, k, &data, &src) }.into());
    }
    let p = *c.t.pick(&[0u64, 3, 12, 30]);
    let mut ops: Vec<Op> = vec![];
    while parts.iter().any(|x| !x.is_empty()) {
        let k = c.t.us(0, parts.len() - 1);
        // a stretch of one script
        for _ in 0..c.t.us(1, 6) {
            let Some(o) = parts[k].pop_front() else { break };
            if c.t.chance(p, 100) {
                match c.t.weighted(&[3, 2, 3]) {
                    0 => ops.push(any_op(&mut c.t, &data, &src)),
                    1 => continue,
                    _ => ops.push(o.clone()),
                }
            }
            ops.push(o);
        }
        if ops.len() > 200 {
            break;
        }
    }
    let mut order = [0, 1, 2, 3, 4];
    c.t.shuffle(&mut order);
    c.describe(|| {
        let s: Vec<String> = src.iter().map(|s| format!("{} {} {:?} {} tiles {} bytes", s.im.brief(), s.g.brief(), s.f, s.tiles, s.bytes.len())).collect();
        format!("{}; {ops:?}; end {order:?}", s.join("; "))
    });
    let go = |c: Option<&mut Ctx>| -> R {
        let mut w = World::new(&data, &src);
        unsafe {
            for (i, o) in ops.iter().enumerate() {
                if std::env::var_os("VKIT_TRACE").is_some() {
                    eprintln!("OP {i} {o:?}");
                }
                let before = w.oks;
                w.run(o);
                if std::env::var_os("VKIT_TRACE").is_some() {
                    eprintln!("OP {i} gives {}", w.oks - before);
                }
            }
            w.end(&order);
        }
        ensure!(w.freed == w.streams, "user-data-freed", "{} streams, their user data was freed {} times", w.streams, w.freed);
        if let Some(c) = c {
            if w.complete > 0 {
                c.nontrivial();
            }
            c.count("calls", w.done);
            c.count("calls which succeeded", w.oks);
        }
        Ok(())
    };
    go(Some(c))?;
    if alloc::COUNTS {
        let mut grow = vec![];
        for _ in 0..3 {
            let a = alloc::live();
            go(None)?;
            let b = alloc::live();
            grow.push((b.0 - a.0, b.1 - a.1));
            if b.0 == a.0 {
                break;
            }
        }
        ensure!(grow.len() < 3, "leak", "after everything was destroyed, (blocks, bytes) more than before: {grow:?}");
    }
    let _: *mut c_void = null_mut();
    Ok(())
}
pub fn prop() -> Prop {
    Prop { rule: "at least one decode, encode or tile call of the sequence succeeded", ..Prop::new("C26", run) }
}
