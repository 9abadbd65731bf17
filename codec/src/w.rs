//! Thin wrapper over the public openjp2 API: owned images in, owned images / bytes out.

use openjp2::image::opj_image_cmptparm_t;
use openjp2::openjpeg::*;
use std::ffi::c_void;


#[derive(Clone, Debug, PartialEq, Default)]
pub struct Comp {
    pub dx: u32,
    pub dy: u32,
    pub w: u32,
    pub h: u32,
    pub x0: u32,
    pub y0: u32,
    pub prec: u32,
    pub sgnd: bool,
    pub alpha: u16,
    pub factor: u32,
    pub data: Vec<i32>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Img {
    pub x0: u32,
    pub y0: u32,
    pub x1: u32,
    pub y1: u32,
    pub color: i32,
    pub icc: Vec<u8>,
    pub comps: Vec<Comp>,
}
pub fn ceil_div(a: u32, b: u32) -> u32 {
    ((a as u64 + b as u64 - 1) / b as u64) as u32
}
pub fn ceil_pow2(a: u32, n: u32) -> u32 {
    ((a as u64 + (1u64 << n) - 1) >> n) as u32
}
pub fn color_of(c: i32) -> OPJ_COLOR_SPACE {
    match c {
        1 => OPJ_CLRSPC_SRGB,
        2 => OPJ_CLRSPC_GRAY,
        3 => OPJ_CLRSPC_SYCC,
        4 => OPJ_CLRSPC_EYCC,
        5 => OPJ_CLRSPC_CMYK,
        0 => OPJ_CLRSPC_UNSPECIFIED,
        _ => OPJ_CLRSPC_UNKNOWN,
    }
}
impl Comp {
    pub fn lo(&self) -> i64 {
        if self.sgnd {
            -(1i64 << (self.prec - 1))
        } else {
            0
        }
    }
    pub fn hi(&self) -> i64 {
        if self.sgnd {
            (1i64 << (self.prec - 1)) - 1
        } else {
            (1i64 << self.prec) - 1
        }
    }
}
impl Img {
    pub fn brief(&self) -> String {
        let c: Vec<String> = self
            .comps
            .iter()
            .map(|c| format!("{}x{}/{}x{}@{}{}{}", c.w, c.h, c.dx, c.dy, if c.sgnd { "s" } else { "u" }, c.prec, if c.alpha != 0 { format!("a{}", c.alpha) } else { String::new() }))
            .collect();
        format!("img[{},{} {},{}] cs{} comps {}", self.x0, self.y0, self.x1, self.y1, self.color, c.join(" "))
    }
    /// allocate a library image carrying these samples
    pub unsafe fn to_opj(&self) -> *mut opj_image_t {
        let mut p: Vec<opj_image_cmptparm_t> = self
            .comps
            .iter()
            .map(|c| opj_image_cmptparm_t { dx: c.dx, dy: c.dy, w: c.w, h: c.h, x0: c.x0, y0: c.y0, prec: c.prec, bpp: c.prec, sgnd: c.sgnd as u32 })
            .collect();
        let im = opj_image_create(p.len() as u32, p.as_mut_ptr(), color_of(self.color));
        if im.is_null() {
            return im;
        }
        (*im).x0 = self.x0;
        (*im).y0 = self.y0;
        (*im).x1 = self.x1;
        (*im).y1 = self.y1;
        for (i, c) in self.comps.iter().enumerate() {
            let d = &mut *(*im).comps.add(i);
            d.alpha = c.alpha;
            if !c.data.is_empty() {
                assert_eq!(c.data.len(), c.w as usize * c.h as usize, "harness image size");
                std::ptr::copy_nonoverlapping(c.data.as_ptr(), d.data, c.data.len());
            }
        }
        if !self.icc.is_empty() {
            assert!((*im).copy_icc_profile(&self.icc));
        }
        im
    }
    pub unsafe fn from_opj(im: *const opj_image_t) -> Img {
        let m = &*im;
        let mut comps = vec![];
        for i in 0..m.numcomps as usize {
            let c = &*m.comps.add(i);
            let n = c.w as usize * c.h as usize;
            comps.push(Comp {
                dx: c.dx,
                dy: c.dy,
                w: c.w,
                h: c.h,
                x0: c.x0,
                y0: c.y0,
                prec: c.prec,
                sgnd: c.sgnd != 0,
                alpha: c.alpha,
                factor: c.factor,
                data: if c.data.is_null() { vec![] } else { std::slice::from_raw_parts(c.data, n).to_vec() },
            });
        }
        let icc = if m.icc_profile_buf.is_null() || m.icc_profile_len == 0 {
            vec![]
        } else {
            std::slice::from_raw_parts(m.icc_profile_buf, m.icc_profile_len as usize).to_vec()
        };
        Img { x0: m.x0, y0: m.y0, x1: m.x1, y1: m.y1, color: m.color_space as i32, icc, comps }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Poc {
    pub tile: u32, // 1-based as in the library interface
    pub resno0: u32,
    pub compno0: u32,
    pub layno1: u32,
    pub resno1: u32,
    pub compno1: u32,
    pub prg: i32,
}

/// Encoder parameters (the public struct, minus dead fields).
#[derive(Clone, Debug, PartialEq)]
pub struct EncCfg {
    pub tile: Option<(i32, i32)>,
    pub tile_off: (i32, i32),
    pub numres: i32,
    pub cblk: (i32, i32),
    pub mode: i32,
    pub csty: i32,
    pub prec_sizes: Vec<(i32, i32)>,
    pub prog: i32,
    pub pocs: Vec<Poc>,
    pub layers: i32,
    pub disto_alloc: bool,
    pub fixed_quality: bool,
    pub fixed_alloc: bool,
    pub rates: Vec<f32>,
    pub distoratio: Vec<f32>,
    pub irreversible: bool,
    pub roi: Option<(i32, i32)>,
    pub mct: i8,
    pub tp: Option<u8>,
    pub comment: Option<Vec<u8>>,
    pub rsiz: u16,
    pub max_cs: i32,
    pub max_comp: i32,
    pub mct_matrix: Option<(Vec<f32>, Vec<i32>)>,
    pub plt: bool,
    pub tlm: bool,
    pub guard_bits: Option<i32>,
    /// raw encoder options after the ones above
    pub opts: Vec<String>,
    /// passed bits of each layer, resolution and sub-band for fixed_alloc
    pub matrice: Option<Vec<i32>>,
    /// deprecated ways to ask for a profile
    pub cinema: i32,
    pub old_rsiz: i32,
    /// start from opj_set_default_encoder_parameters and set only what differs
    pub defaults: bool,
}
impl Default for EncCfg {
    fn default() -> Self {
        EncCfg {
            tile: None,
            tile_off: (0, 0),
            numres: 6,
            cblk: (64, 64),
            mode: 0,
            csty: 0,
            prec_sizes: vec![],
            prog: 0,
            pocs: vec![],
            layers: 0,
            disto_alloc: false,
            fixed_quality: false,
            fixed_alloc: false,
            rates: vec![],
            distoratio: vec![],
            irreversible: false,
            roi: None,
            mct: 0,
            tp: None,
            comment: None,
            rsiz: 0,
            max_cs: 0,
            max_comp: 0,
            mct_matrix: None,
            plt: false,
            tlm: false,
            guard_bits: None,
            opts: vec![],
            matrice: None,
            cinema: 0,
            old_rsiz: 0,
            defaults: false,
        }
    }
}
impl EncCfg {
    pub fn brief(&self) -> String {
        let d = format!("{:?}", self);
        let dd = format!("{:?}", EncCfg::default());
        let a: Vec<&str> = split_fields(&d);
        let b: Vec<&str> = split_fields(&dd);
        let v: Vec<&str> = a.iter().zip(b.iter()).filter(|(x, y)| x != y).map(|(x, _)| *x).collect();
        format!("cfg{{{}}}", v.join(", "))
    }
    pub fn to_c(&self) -> Box<opj_cparameters_t> {
        let mut p: Box<opj_cparameters_t> = Box::default();
        if self.defaults {
            unsafe {
                std::ptr::write_bytes(&mut *p as *mut opj_cparameters_t as *mut u8, 0xa5, std::mem::size_of::<opj_cparameters_t>());
                opj_set_default_encoder_parameters(&mut *p);
            }
        }
        let d = EncCfg::default();
        macro_rules! set {
            ($($f:ident $p:ident $e:expr;)*) => { $( if !self.defaults || self.$f != d.$f { p.$p = $e; } )* };
        }
        set! {
            numres numresolution self.numres;
            mode mode self.mode;
            csty csty self.csty;
            prog prog_order self.prog;
            layers tcp_numlayers self.layers;
            disto_alloc cp_disto_alloc self.disto_alloc as i32;
            fixed_quality cp_fixed_quality self.fixed_quality as i32;
            fixed_alloc cp_fixed_alloc self.fixed_alloc as i32;
            irreversible irreversible self.irreversible as i32;
            mct tcp_mct self.mct as std::ffi::c_char;
            rsiz rsiz self.rsiz;
            max_cs max_cs_size self.max_cs;
            max_comp max_comp_size self.max_comp;
            pocs numpocs self.pocs.len() as u32;
            cinema cp_cinema self.cinema as _;
            old_rsiz cp_rsiz self.old_rsiz as _;
            tile_off cp_tx0 self.tile_off.0;
            tile_off cp_ty0 self.tile_off.1;
            cblk cblockw_init self.cblk.0;
            cblk cblockh_init self.cblk.1;
        }
        if let Some((w, h)) = self.tile {
            p.tile_size_on = 1;
            p.cp_tdx = w;
            p.cp_tdy = h;
        }
        if !self.prec_sizes.is_empty() {
            p.csty |= 1;
            p.res_spec = self.prec_sizes.len() as i32;
            for (i, s) in self.prec_sizes.iter().enumerate().take(33) {
                p.prcw_init[i] = s.0;
                p.prch_init[i] = s.1;
            }
        }
        for (i, s) in self.pocs.iter().enumerate().take(32) {
            let q = &mut p.POC[i];
            q.tile = s.tile;
            q.resno0 = s.resno0;
            q.compno0 = s.compno0;
            q.layno1 = s.layno1;
            q.resno1 = s.resno1;
            q.compno1 = s.compno1;
            q.prg1 = s.prg;
        }
        for (i, r) in self.rates.iter().enumerate().take(100) {
            p.tcp_rates[i] = *r;
        }
        for (i, r) in self.distoratio.iter().enumerate().take(100) {
            p.tcp_distoratio[i] = *r;
        }
        if let Some((c, s)) = self.roi {
            p.roi_compno = c;
            p.roi_shift = s;
        }
        if let Some(f) = self.tp {
            p.tp_on = 1;
            p.tp_flag = f as std::ffi::c_char;
        }
        p
    }
}
fn split_fields(s: &str) -> Vec<&str> {
    // top-level "name: value" pieces of a Debug struct
    let mut out = vec![];
    let inner = s.split_once('{').map(|x| x.1).unwrap_or(s).trim_end_matches('}');
    let (mut depth, mut start) = (0, 0);
    for (i, c) in inner.char_indices() {
        match c {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(inner[start..i].trim());
                start = i + 1;
            }
            _ => {}
        }
    }
    out.push(inner[start..].trim());
    out
}

// ------------------------------------------------------------------ streams

/// One in-memory file behind the custom-stream callbacks, with optional misbehaviour.
#[derive(Default)]
pub struct Mem {
    pub buf: Vec<u8>,
    pub pos: usize,
    /// lengths of successive transfers are capped by these (cycled); empty = no cap
    pub caps: Vec<usize>,
    pub cap_i: usize,
    /// fail the n-th callback (counting all kinds), 0 = never
    pub fail_at: u64,
    pub fail_forever: bool,
    pub ops: u64,
    pub failed: bool,
    pub freed: u64,
    pub neg_skips: u64,
    pub strict_skip: bool,
    /// lengths of successive skips are capped by these (cycled)
    pub skip_caps: Vec<usize>,
    pub skip_i: usize,
    /// at the end of the data read returns 0 instead of -1
    pub eof_zero: bool,
    pub log: Vec<(u8, i64, i64)>,
    pub keep_log: bool,
    pub max_len: usize,
}
impl Mem {
    pub fn reader(b: &[u8]) -> Box<Mem> {
        Box::new(Mem { buf: b.to_vec(), max_len: usize::MAX, ..Default::default() })
    }
    pub fn writer() -> Box<Mem> {
        Box::new(Mem { max_len: 1 << 28, ..Default::default() })
    }
    fn bad(&mut self) -> bool {
        self.ops += 1;
        if self.fail_at != 0 && (self.ops == self.fail_at || (self.fail_forever && self.ops > self.fail_at)) {
            self.failed = true;
            return true;
        }
        false
    }
    fn cap(&mut self, n: usize) -> usize {
        if self.caps.is_empty() || n == 0 {
            return n;
        }
        let c = self.caps[self.cap_i % self.caps.len()].max(1);
        self.cap_i += 1;
        n.min(c)
    }
    fn note(&mut self, k: u8, a: i64, r: i64) {
        if self.keep_log {
            self.log.push((k, a, r));
        }
    }
}
pub unsafe extern "C" fn mem_read(b: *mut c_void, n: usize, u: *mut c_void) -> usize {
    let m = &mut *(u as *mut Mem);
    if m.bad() {
        m.note(b'r', n as i64, -1);
        return usize::MAX;
    }
    let left = m.buf.len().saturating_sub(m.pos);
    if left == 0 {
        m.note(b'r', n as i64, -1);
        if m.eof_zero {
            return 0;
        }
        return usize::MAX; // end of file, as in OpenJPEG's own callbacks
    }
    let want = left.min(n);
    let k = m.cap(want);
    std::ptr::copy_nonoverlapping(m.buf.as_ptr().add(m.pos), b as *mut u8, k);
    m.pos += k;
    m.note(b'r', n as i64, k as i64);
    k
}
pub unsafe extern "C" fn mem_write(b: *mut c_void, n: usize, u: *mut c_void) -> usize {
    let m = &mut *(u as *mut Mem);
    if m.bad() || m.pos.saturating_add(n) > m.max_len {
        m.failed = true;
        return usize::MAX;
    }
    let k = m.cap(n);
    if m.pos + k > m.buf.len() {
        m.buf.resize(m.pos + k, 0);
    }
    std::ptr::copy_nonoverlapping(b as *const u8, m.buf.as_mut_ptr().add(m.pos), k);
    m.pos += k;
    m.note(b'w', n as i64, k as i64);
    k
}
pub unsafe extern "C" fn mem_skip(n: i64, u: *mut c_void) -> i64 {
    let m = &mut *(u as *mut Mem);
    m.note(b's', n, 0);
    if m.bad() {
        return -1;
    }
    if n < 0 {
        m.neg_skips += 1;
        if m.strict_skip {
            return -1;
        }
    }
    let mut n = n;
    if n > 0 && !m.skip_caps.is_empty() {
        n = n.min(m.skip_caps[m.skip_i % m.skip_caps.len()].max(1) as i64);
        m.skip_i += 1;
    }
    let t = m.pos as i64 + n;
    if t < 0 {
        return -1;
    }
    m.pos = t as usize;
    n
}
pub unsafe extern "C" fn mem_seek(n: i64, u: *mut c_void) -> i32 {
    let m = &mut *(u as *mut Mem);
    m.note(b'k', n, 0);
    if m.bad() || n < 0 {
        return 0;
    }
    m.pos = n as usize;
    1
}
pub unsafe extern "C" fn mem_free(u: *mut c_void) {
    (*(u as *mut Mem)).freed += 1;
}

/// A stream over `m`; `m` must outlive it.
pub unsafe fn mem_stream(m: &mut Mem, input: bool, bufsize: usize) -> *mut opj_stream_t {
    let s = opj_stream_create(bufsize, input as i32);
    let len = m.buf.len() as u64;
    if input {
        opj_stream_set_read_function(s, Some(mem_read));
    } else {
        opj_stream_set_write_function(s, Some(mem_write));
    }
    opj_stream_set_skip_function(s, Some(mem_skip));
    opj_stream_set_seek_function(s, Some(mem_seek));
    opj_stream_set_user_data(s, m as *mut Mem as *mut c_void, Some(mem_free));
    if input {
        opj_stream_set_user_data_length(s, len);
    }
    s
}

// ------------------------------------------------------------------ messages

#[derive(Default, Debug, Clone)]
pub struct Msgs {
    pub err: Vec<String>,
    pub warn: Vec<String>,
    pub info: Vec<String>,
}
unsafe extern "C" fn on_err(m: *const std::ffi::c_char, u: *mut c_void) {
    push(&mut (*(u as *mut Msgs)).err, m)
}
unsafe extern "C" fn on_warn(m: *const std::ffi::c_char, u: *mut c_void) {
    push(&mut (*(u as *mut Msgs)).warn, m)
}
unsafe extern "C" fn on_info(m: *const std::ffi::c_char, u: *mut c_void) {
    push(&mut (*(u as *mut Msgs)).info, m)
}
unsafe fn push(v: &mut Vec<String>, m: *const std::ffi::c_char) {
    if let Some(p) = std::env::var_os("VKIT_MSGS") {
        use std::io::Write;
        let f = std::fs::OpenOptions::new().append(true).create(true).open(p);
        let _ = f.map(|mut f| writeln!(f, "{}", std::ffi::CStr::from_ptr(m).to_string_lossy().trim()));
    }
    if v.len() < 20 {
        v.push(std::ffi::CStr::from_ptr(m).to_string_lossy().trim().to_string());
    }
}
pub unsafe fn set_handlers(c: *mut opj_codec_t, m: &mut Msgs) {
    let u = m as *mut Msgs as *mut c_void;
    opj_set_error_handler(c, Some(on_err), u);
    opj_set_warning_handler(c, Some(on_warn), u);
    opj_set_info_handler(c, Some(on_info), u);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    J2k,
    Jp2,
}
impl Fmt {
    pub fn codec(self) -> OPJ_CODEC_FORMAT {
        match self {
            Fmt::J2k => OPJ_CODEC_J2K,
            Fmt::Jp2 => OPJ_CODEC_JP2,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failed {
    pub stage: &'static str,
    pub msgs: Msgs,
}
impl Failed {
    pub fn text(&self) -> String {
        format!("{} failed: {:?} {:?}", self.stage, self.msgs.err, self.msgs.warn)
    }
}

/// Owns what a library call sequence creates, so a panic in the library does not leak it into later cases.
pub struct Guards {
    pub codec: *mut opj_codec_t,
    pub stream: *mut opj_stream_t,
    pub image: *mut opj_image_t,
    pub cparams: Option<Box<opj_cparameters_t>>,
}
impl Guards {
    pub fn new() -> Guards {
        Guards { codec: std::ptr::null_mut(), stream: std::ptr::null_mut(), image: std::ptr::null_mut(), cparams: None }
    }
}
impl Drop for Guards {
    fn drop(&mut self) {
        if std::thread::panicking() {
            return; // object state unknown: leak rather than touch it
        }
        unsafe {
            opj_destroy_codec(self.codec);
            opj_stream_destroy(self.stream);
            opj_image_destroy(self.image);
        }
        if let Some(p) = &self.cparams {
            if !p.mct_data.is_null() {
                unsafe { libc::free(p.mct_data) }
            }
        }
    }
}

pub struct EncTransport {
    pub bufsize: usize,
    pub caps: Vec<usize>,
    pub skip_caps: Vec<usize>,
    pub strict_skip: bool,
    pub fail_at: u64,
    pub fail_forever: bool,
}
impl Default for EncTransport {
    fn default() -> Self {
        EncTransport { bufsize: 1 << 20, caps: vec![], skip_caps: vec![], strict_skip: false, fail_at: 0, fail_forever: false }
    }
}

pub fn encode(img: &Img, cfg: &EncCfg, fmt: Fmt) -> Result<Vec<u8>, Failed> {
    encode_with(img, cfg, fmt, &EncTransport::default(), &mut Msgs::default()).map(|m| std::mem::take(&mut { m }.buf))
}
/// The whole compression sequence; on failure says which call refused.
pub fn encode_with(img: &Img, cfg: &EncCfg, fmt: Fmt, tr: &EncTransport, msgs: &mut Msgs) -> Result<Box<Mem>, Failed> {
    let (m, r) = encode_mem(img, cfg, fmt, tr, msgs);
    match r {
        Ok(()) => Ok(m),
        Err(f) => Err(f),
    }
}
pub fn encode_mem(img: &Img, cfg: &EncCfg, fmt: Fmt, tr: &EncTransport, msgs: &mut Msgs) -> (Box<Mem>, Result<(), Failed>) {
    let mut mem = Mem::writer();
    mem.caps = tr.caps.clone();
    mem.skip_caps = tr.skip_caps.clone();
    mem.strict_skip = tr.strict_skip;
    mem.fail_at = tr.fail_at;
    mem.fail_forever = tr.fail_forever;
    let r = unsafe {
        let mut g = Guards::new();
        g.stream = mem_stream(&mut mem, false, tr.bufsize);
        let r = encode_stream(&mut g, img, cfg, fmt, msgs);
        drop(g); // destroying the stream flushes it
        r
    };
    let r = r.map_err(|stage| Failed { stage, msgs: msgs.clone() });
    (mem, r)
}
/// the compression sequence onto g.stream
pub unsafe fn encode_stream(g: &mut Guards, img: &Img, cfg: &EncCfg, fmt: Fmt, msgs: &mut Msgs) -> Result<(), &'static str> {
    g.image = img.to_opj();
    if g.image.is_null() {
        return Err("image_create");
    }
    g.codec = opj_create_compress(fmt.codec());
    set_handlers(g.codec, msgs);
    setup(g, cfg)?;
    if opj_start_compress(g.codec, g.image, g.stream) == 0 {
        return Err("start_compress");
    }
    if opj_encode(g.codec, g.stream) == 0 {
        return Err("encode");
    }
    if opj_end_compress(g.codec, g.stream) == 0 {
        return Err("end_compress");
    }
    Ok(())
}
/// opj_setup_encoder + extra options on g.codec / g.image
pub unsafe fn setup(g: &mut Guards, cfg: &EncCfg) -> Result<(), &'static str> {
    let mut p = cfg.to_c();
    let comment = cfg.comment.as_ref().map(|c| std::ffi::CString::new(c.clone()).expect("comment without NUL"));
    if let Some(c) = &comment {
        p.cp_comment = c.as_ptr() as *mut _;
    }
    if let Some((m, s)) = &cfg.mct_matrix {
        if !p.set_MCT(m, s, s.len() as u32) {
            return Err("set_MCT");
        }
    }
    let mut matrice = cfg.matrice.clone();
    if let Some(m) = &mut matrice {
        p.cp_matrice = m.as_mut_ptr();
    }
    g.cparams = Some(p);
    let p = g.cparams.as_mut().unwrap();
    let ok = opj_setup_encoder(g.codec, &mut **p, g.image);
    p.cp_comment = std::ptr::null_mut();
    p.cp_matrice = std::ptr::null_mut();
    if ok == 0 {
        return Err("setup_encoder");
    }
    let mut opts: Vec<std::ffi::CString> = vec![];
    if cfg.plt {
        opts.push(std::ffi::CString::new("PLT=YES").unwrap());
    }
    if cfg.tlm {
        opts.push(std::ffi::CString::new("TLM=YES").unwrap());
    }
    if let Some(gb) = cfg.guard_bits {
        opts.push(std::ffi::CString::new(format!("GUARD_BITS={gb}")).unwrap());
    }
    opts.extend(cfg.opts.iter().map(|o| std::ffi::CString::new(o.as_bytes()).expect("option without NUL")));
    if !opts.is_empty() {
        let mut ptrs: Vec<*const std::ffi::c_char> = opts.iter().map(|s| s.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        if opj_encoder_set_extra_options(g.codec, ptrs.as_ptr()) == 0 {
            return Err("extra_options");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Default)]
pub struct DecOpts {
    pub reduce: u32,
    pub layers: u32,
    pub res_factor: Option<u32>,
    pub area: Option<(i32, i32, i32, i32)>,
    pub comps: Option<Vec<u32>>,
    pub lenient: bool,
    pub strict_call: bool,
    pub tile: Option<u32>,
    pub flags: u32,
    pub threads: Option<i32>,
    pub no_end: bool,
}

pub fn decode(data: &[u8], fmt: Fmt, o: &DecOpts) -> Result<Img, Failed> {
    let mut mem = Mem::reader(data);
    decode_mem(&mut mem, fmt, o, 1 << 20, &mut Msgs::default())
}
pub fn decode_mem(mem: &mut Mem, fmt: Fmt, o: &DecOpts, bufsize: usize, msgs: &mut Msgs) -> Result<Img, Failed> {
    unsafe {
        let mut g = Guards::new();
        let r = (|| -> Result<Img, &'static str> {
            g.stream = mem_stream(mem, true, bufsize);
            decode_stream(&mut g, fmt, o, msgs)
        })();
        drop(g);
        r.map_err(|stage| Failed { stage, msgs: msgs.clone() })
    }
}
/// everything up to and including the options which follow the header
pub unsafe fn open_decoder(g: &mut Guards, fmt: Fmt, o: &DecOpts, msgs: &mut Msgs) -> Result<(), &'static str> {
    g.codec = opj_create_decompress(fmt.codec());
    set_handlers(g.codec, msgs);
    let mut p: Box<opj_dparameters_t> = Box::default();
    p.cp_reduce = o.reduce;
    p.cp_layer = o.layers;
    p.flags = o.flags;
    if opj_setup_decoder(g.codec, &mut *p) == 0 {
        return Err("setup_decoder");
    }
    if o.lenient {
        opj_decoder_set_strict_mode(g.codec, 0);
    } else if o.strict_call {
        opj_decoder_set_strict_mode(g.codec, 1);
    }
    if let Some(n) = o.threads {
        opj_codec_set_threads(g.codec, n);
    }
    if opj_read_header(g.stream, g.codec, &mut g.image) == 0 {
        return Err("read_header");
    }
    if let Some(f) = o.res_factor {
        if opj_set_decoded_resolution_factor(g.codec, f) == 0 {
            return Err("set_decoded_resolution_factor");
        }
    }
    if let Some(c) = &o.comps {
        if opj_set_decoded_components(g.codec, c.len() as u32, c.as_ptr(), 0) == 0 {
            return Err("set_decoded_components");
        }
    }
    Ok(())
}
pub unsafe fn decode_stream(g: &mut Guards, fmt: Fmt, o: &DecOpts, msgs: &mut Msgs) -> Result<Img, &'static str> {
    open_decoder(g, fmt, o, msgs)?;
    if let Some((x0, y0, x1, y1)) = o.area {
        if opj_set_decode_area(g.codec, g.image, x0, y0, x1, y1) == 0 {
            return Err("set_decode_area");
        }
    }
    if let Some(t) = o.tile {
        if opj_get_decoded_tile(g.codec, g.stream, g.image, t) == 0 {
            return Err("get_decoded_tile");
        }
    } else if opj_decode(g.codec, g.stream, g.image) == 0 {
        return Err("decode");
    }
    if !o.no_end && opj_end_decompress(g.codec, g.stream) == 0 {
        return Err("end_decompress");
    }
    Ok(Img::from_opj(g.image))
}

/// debugging aid: VKIT_DUMP=path writes the codestream of the last case
pub fn dump(b: &[u8]) {
    if let Some(p) = std::env::var_os("VKIT_DUMP") {
        let _ = std::fs::write(p, b);
    }
}
