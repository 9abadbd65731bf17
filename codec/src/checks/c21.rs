use super::common::*;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use std::os::unix::ffi::OsStrExt;
use vkit::*;

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = std::path::PathBuf::from(format!("{base}/verif-codec-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> std::path::PathBuf {
        self.0.join("f")
    }
    pub fn cpath(&self) -> std::ffi::CString {
        std::ffi::CString::new(self.path().as_os_str().as_bytes()).unwrap()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.path());
        let _ = std::fs::remove_dir(&self.0);
    }
}
#[derive(Clone, Debug)]
enum Way {
    File(Option<usize>),
    Mem { bufsize: usize, caps: Vec<usize>, skip_caps: Vec<usize>, strict_skip: bool, eof_zero: bool },
}
fn bufsize(t: &mut Tape) -> usize {
    match t.weighted(&[3, 3, 2, 1]) {
        0 => *t.pick(&[1usize << 20, 4096, 64]),
        1 => t.us(1, 40),
        2 => t.us(1, 3000),
        _ => 0,
    }
}
fn way(t: &mut Tape) -> Way {
    if t.chance(1, 3) {
        let b = bufsize(t);
        return Way::File(if t.chance(1, 4) { None } else { Some(b) });
    }
    let bufsize = bufsize(t);
    let caps = if t.chance(2, 3) { (0..t.us(1, 4)).map(|_| if t.bool() { t.us(1, 9) } else { t.us(1, 500) }).collect() } else { vec![] };
    let skip_caps = if t.chance(1, 3) { (0..t.us(1, 3)).map(|_| t.us(1, 50)).collect() } else { vec![] };
    Way::Mem { bufsize, caps, skip_caps, strict_skip: t.chance(2, 3), eof_zero: t.chance(1, 4) }
}
/// what a decoding session ends with: where it stopped and the image, if any
type Out = (Option<&'static str>, Vec<Img>);
unsafe fn session(g: &mut Guards, f: Fmt, o: &DecOpts, tiles: &[u32], m: &mut Msgs) -> Out {
    if tiles.is_empty() {
        return match decode_stream(g, f, o, m) {
            Ok(i) => (None, vec![i]),
            Err(e) => (Some(e), vec![]),
        };
    }
    if let Err(e) = open_decoder(g, f, o, m) {
        return (Some(e), vec![]);
    }
    let mut v = vec![];
    for &t in tiles {
        if opj_get_decoded_tile(g.codec, g.stream, g.image, t) == 0 {
            return (Some("get_decoded_tile"), v);
        }
        v.push(Img::from_opj(g.image));
    }
    (None, v)
}
fn via(bytes: &[u8], w: &Way, f: Fmt, o: &DecOpts, tiles: &[u32], m: &mut Msgs) -> Result<(Out, u64), Fail> {
    unsafe {
        match w {
            Way::File(b) => {
                let s = Scratch::new();
                std::fs::write(s.path(), bytes).expect("scratch file");
                let mut g = Guards::new();
                let p = s.cpath();
                g.stream = match b {
                    None => opj_stream_create_default_file_stream(p.as_ptr(), 1),
                    Some(n) => opj_stream_create_file_stream(p.as_ptr(), *n, 1),
                };
                if g.stream.is_null() {
                    return fail("file-not-opened", format!("{:?}", s.path()));
                }
                Ok((session(&mut g, f, o, tiles, m), 1))
            }
            Way::Mem { bufsize, caps, skip_caps, strict_skip, eof_zero } => {
                let mut mem = Mem::reader(bytes);
                mem.caps = caps.clone();
                mem.skip_caps = skip_caps.clone();
                mem.strict_skip = *strict_skip;
                mem.eof_zero = *eof_zero;
                let r = {
                    let mut g = Guards::new();
                    g.stream = mem_stream(&mut mem, true, *bufsize);
                    session(&mut g, f, o, tiles, m)
                };
                Ok((r, mem.freed))
            }
        }
    }
}
fn reading(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 4000, max_dim: 80, ..Lim::default() };
    let Some(s) = any_stream(c, &lim) else { return Ok(()) };
    let tiles = grid(&s.im, &s.g);
    let n = tiles.0 * tiles.1;
    let mut bytes = s.bytes.clone();
    if c.t.chance(1, 3) {
        let k = c.t.us(1, bytes.len());
        bytes.truncate(k);
        c.label("truncated");
    }
    if s.f == Fmt::Jp2 && c.t.chance(1, 4) {
        // a box to skip before the codestream
        if let Some((at, _)) = crate::boxes::codestream(&bytes) {
            let k = c.t.us(0, 5000);
            let b = crate::boxes::bx(b"free", &vec![0x5a; k]);
            bytes.splice(at - 8..at - 8, b);
            c.label("box-to-skip");
        }
    }
    let mut o = DecOpts { reduce: if c.t.chance(1, 4) { c.t.u32(0, s.g.numres as u32 - 1) } else { 0 }, lenient: c.t.bool(), no_end: c.t.chance(1, 4), ..Default::default() };
    let mut order = vec![];
    match c.t.weighted(&[4, 2, 2, 1]) {
        1 => o.area = Some(rect(&mut c.t, &s.im)),
        2 => order = (0..c.t.us(1, 4)).map(|_| c.t.u32(0, n - 1)).collect(),
        3 => o.comps = Some(vec![c.t.u32(0, s.im.comps.len() as u32 - 1)]),
        _ => {}
    }
    c.describe(|| format!("{} bytes of {}, {:?} tiles {order:?}", bytes.len(), s.bytes.len(), o));
    let base = Way::Mem { bufsize: 1 << 20, caps: vec![], skip_caps: vec![], strict_skip: false, eof_zero: false };
    let mut m0 = Msgs::default();
    let (want, _) = via(&bytes, &base, s.f, &o, &order, &mut m0)?;
    if want.0.is_none() {
        c.nontrivial();
    } else {
        c.label("not-decoded");
    }
    for _ in 0..c.t.us(1, 3) {
        let w = way(&mut c.t);
        c.label(match &w {
            Way::File(_) => "file",
            Way::Mem { caps, skip_caps, .. } if caps.is_empty() && skip_caps.is_empty() => "callbacks",
            _ => "short-transfers",
        });
        c.describe(|| format!("{w:?}"));
        let mut m = Msgs::default();
        let (got, freed) = via(&bytes, &w, s.f, &o, &order, &mut m)?;
        ensure!(freed == 1, "free-function", "user data freed {freed} times");
        ensure!(got.0 == want.0, "outcome-differs", "{w:?}: {:?} {:?}, otherwise {:?} {:?}", got.0, m.err, want.0, m0.err);
        for (a, b) in want.1.iter().zip(&got.1) {
            ensure!(a == b, "decoded-differs", "{w:?}: {}", super::c10::diff(a, b).unwrap_or_default());
        }
        ensure!(got.1.len() == want.1.len(), "outcome-differs", "{w:?}: {} images", got.1.len());
    }
    Ok(())
}
fn writing(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 4000, max_dim: 80, ..Lim::default() };
    let (im, g) = any_cfg(c, &lim);
    let f = fmt(&mut c.t);
    label_cfg(c, &im, &g);
    c.label("writing");
    c.describe(|| format!("writing {} {} {:?}", im.brief(), g.brief(), f));
    let Ok(want) = encode(&im, &g, f) else {
        c.label("not-encoded");
        return Ok(());
    };
    c.nontrivial();
    for _ in 0..c.t.us(1, 3) {
        let w = way(&mut c.t);
        c.describe(|| format!("{w:?}"));
        let mut m = Msgs::default();
        let (got, r, freed) = match &w {
            Way::File(b) => unsafe {
                c.label("file");
                let s = Scratch::new();
                let p = s.cpath();
                let r = {
                    let mut gd = Guards::new();
                    gd.stream = match b {
                        None => opj_stream_create_default_file_stream(p.as_ptr(), 0),
                        Some(n) => opj_stream_create_file_stream(p.as_ptr(), *n, 0),
                    };
                    ensure!(!gd.stream.is_null(), "file-not-opened", "{:?}", s.path());
                    encode_stream(&mut gd, &im, &g, f, &mut m)
                };
                (std::fs::read(s.path()).unwrap_or_default(), r, 1)
            },
            Way::Mem { bufsize, caps, skip_caps, strict_skip, .. } => {
                c.label("short-transfers");
                let tr = EncTransport { bufsize: *bufsize, caps: caps.clone(), skip_caps: skip_caps.clone(), strict_skip: *strict_skip, ..Default::default() };
                let (mem, r) = encode_mem(&im, &g, f, &tr, &mut m);
                (mem.buf.clone(), r.map_err(|e| e.stage), mem.freed)
            }
        };
        ensure!(freed == 1, "free-function", "user data freed {freed} times");
        if let Err(e) = r {
            return fail("encoding-refused", format!("{w:?}: {e} {:?}", m.err));
        }
        if got != want {
            let p = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail("written-differs", format!("{w:?}: {} bytes instead of {}, first difference at {p}", got.len(), want.len()));
        }
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 4) {
        writing(c)
    } else {
        reading(c)
    }
}
pub fn prop() -> Prop {
    Prop { rule: "something was decoded or encoded through more than one transport", ..Prop::new("C21", run) }
}
