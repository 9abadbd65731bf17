use super::c21::Scratch;
use super::common::*;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

#[derive(Clone, Debug)]
struct Fault {
    at: u64,
    forever: bool,
    no_seek: bool,
    no_skip: bool,
    no_rw: bool,
    bufsize: usize,
    caps: Vec<usize>,
    /// a write which would pass this length fails
    full: usize,
}
unsafe fn stream(m: &mut Mem, input: bool, f: &Fault) -> *mut opj_stream_t {
    m.fail_at = f.at;
    m.fail_forever = f.forever;
    m.caps = f.caps.clone();
    m.max_len = f.full;
    let s = mem_stream(m, input, f.bufsize);
    if f.no_seek {
        opj_stream_set_seek_function(s, None);
    }
    if f.no_skip {
        opj_stream_set_skip_function(s, None);
    }
    if f.no_rw {
        opj_stream_set_read_function(s, None);
        opj_stream_set_write_function(s, None);
    }
    s
}
fn fault(c: &mut Ctx, ops: u64, len: usize) -> Fault {
    let t = &mut c.t;
    let mut f = Fault { at: 0, forever: t.bool(), no_seek: false, no_skip: false, no_rw: false, bufsize: *t.pick(&[1 << 20, 1000, 100, 16, 1, 0]), caps: vec![], full: usize::MAX };
    if t.chance(1, 3) {
        f.caps = vec![t.us(1, 200)];
    }
    match t.weighted(&[12, 1, 1, 1, 3]) {
        0 => f.at = 1,
        1 => f.no_seek = true,
        2 => f.no_skip = true,
        3 => f.no_rw = true,
        _ => f.full = t.us(0, len),
    }
    let _ = ops;
    f
}
fn reading(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 3000, max_dim: 70, ..Lim::default() };
    let Some(s) = any_stream(c, &lim) else { return Ok(()) };
    let tiles = grid(&s.im, &s.g);
    let mut o = DecOpts { lenient: c.t.bool(), no_end: c.t.chance(1, 3), ..Default::default() };
    match c.t.weighted(&[4, 2, 2]) {
        1 => o.area = Some(rect(&mut c.t, &s.im)),
        2 => o.tile = Some(c.t.u32(0, tiles.0 * tiles.1 - 1)),
        _ => {}
    }
    let mut f = fault(c, 0, s.bytes.len());
    f.full = usize::MAX;
    let go = |f: &Fault| -> (Box<Mem>, Result<Img, &'static str>, Msgs) {
        let mut m = Msgs::default();
        let mut mem = Mem::reader(&s.bytes);
        let r = unsafe {
            let mut g = Guards::new();
            g.stream = stream(&mut mem, true, f);
            decode_stream(&mut g, s.f, &o, &mut m)
        };
        (mem, r, m)
    };
    let (m0, want, _) = go(&Fault { at: 0, no_seek: false, no_skip: false, no_rw: false, ..f.clone() });
    if f.at > 0 {
        f.at = c.t.range(1, m0.ops.max(1) as i64) as u64;
    }
    c.describe(|| format!("{o:?} {f:?} of {} callbacks", m0.ops));
    let Ok(want) = want else {
        c.label("not-decoded");
        return Ok(());
    };
    let (mem, got, m) = go(&f);
    if mem.failed || f.no_rw {
        c.nontrivial();
    }
    c.label_if(mem.failed, "fault-hit");
    c.label(if got.is_ok() { "succeeded" } else { "failed" });
    ensure!(mem.freed == 1, "free-function", "user data freed {} times", mem.freed);
    match got {
        Ok(i) => {
            ensure!(!f.no_rw, "decoded-nothing", "success without a read function");
            if !o.lenient {
                ensure!(i == want, "wrong-success", "{f:?}: success, but {} ({:?})", super::c10::diff(&want, &i).unwrap_or_default(), m.warn);
            } else {
                ensure!((i.x0, i.y0, i.x1, i.y1) == (want.x0, want.y0, want.x1, want.y1) && i.comps.len() == want.comps.len(), "wrong-geometry", "{}", i.brief());
                for (a, b) in i.comps.iter().zip(&want.comps) {
                    ensure!((a.w, a.h, a.prec, a.sgnd) == (b.w, b.h, b.prec, b.sgnd), "wrong-geometry", "{}", i.brief());
                    ensure!(a.data.len() == b.data.len(), "no-samples", "{} of {}", a.data.len(), b.data.len());
                }
            }
        }
        Err(e) => ensure!(mem.failed || f.no_rw || f.no_seek || f.no_skip, "refused-without-fault", "{f:?}: {e} {:?}", m.err),
    }
    Ok(())
}
fn writing(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 3000, max_dim: 70, ..Lim::default() };
    let (im, g) = any_cfg(c, &lim);
    let f = fmt(&mut c.t);
    label_cfg(c, &im, &g);
    c.label("writing");
    c.describe(|| format!("writing {} {} {:?}", im.brief(), g.brief(), f));
    let Ok(want) = encode(&im, &g, f) else {
        c.label("not-encoded");
        return Ok(());
    };
    let mut ft = fault(c, 0, want.len());
    // (memory, what was there before the stream was destroyed, outcome)
    let go = |ft: &Fault| -> (Box<Mem>, Vec<u8>, Result<(), &'static str>, Msgs) {
        let mut m = Msgs::default();
        let mut mem = Mem::writer();
        let (r, b) = unsafe {
            let mut gd = Guards::new();
            gd.stream = stream(&mut mem, false, ft);
            let r = encode_stream(&mut gd, &im, &g, f, &mut m);
            (r, mem.buf.clone())
        };
        (mem, b, r, m)
    };
    let (m0, ..) = go(&Fault { at: 0, no_seek: false, no_skip: false, no_rw: false, full: usize::MAX, ..ft.clone() });
    if ft.at > 0 {
        ft.at = c.t.range(1, m0.ops.max(1) as i64) as u64;
    }
    c.describe(|| format!("{ft:?} of {} callbacks, {} bytes", m0.ops, want.len()));
    let (mem, before, r, m) = go(&ft);
    let failed = mem.failed;
    c.label_if(failed, "fault-hit");
    c.label(if r.is_ok() { "succeeded" } else { "failed" });
    if failed || ft.no_rw {
        c.nontrivial();
    }
    ensure!(mem.freed == 1, "free-function", "user data freed {} times", mem.freed);
    match r {
        Ok(()) => ensure!(before == want, "wrong-success", "{ft:?}: success with {} of {} bytes delivered{}", before.len(), want.len(), if before.len() == want.len() { ", which differ" } else { "" }),
        Err(e) => ensure!(failed || ft.no_rw || ft.no_seek || ft.no_skip, "refused-without-fault", "{ft:?}: {e} {:?}", m.err),
    }
    Ok(())
}
fn files(c: &mut Ctx) -> R {
    c.label("files");
    c.nontrivial();
    let lim = Lim { max_area: 600, max_dim: 40, ..Lim::default() };
    let Some(s) = any_stream(c, &lim) else { return Ok(()) };
    let sc = Scratch::new();
    let bufsize = *c.t.pick(&[1 << 20, 100, 1]);
    let name = |p: &std::path::Path| std::ffi::CString::new(std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str())).unwrap();
    let kind = c.t.us(0, 6);
    c.describe(|| format!("file case {kind}"));
    let mut m = Msgs::default();
    unsafe {
        let mut g = Guards::new();
        match kind {
            0 => {
                // no such file
                g.stream = opj_stream_create_file_stream(name(&sc.0.join("none")).as_ptr(), bufsize, 1);
                ensure!(g.stream.is_null(), "opened-missing-file", "a stream for a file which does not exist");
            }
            1 => {
                g.stream = opj_stream_create_file_stream(name(&sc.0.join("none/f")).as_ptr(), bufsize, 0);
                ensure!(g.stream.is_null(), "opened-missing-folder", "a stream for a file in a folder which does not exist");
            }
            2 => {
                g.stream = opj_stream_create_file_stream(std::ptr::null(), bufsize, c.t.us(0, 1) as i32);
                ensure!(g.stream.is_null(), "opened-null", "a stream for no name");
            }
            3 => {
                // a folder
                let w = c.t.us(0, 1) as i32;
                g.stream = opj_stream_create_default_file_stream(name(&sc.0).as_ptr(), 1 - w);
                if !g.stream.is_null() {
                    ensure!(w == 0, "opened-folder", "a folder for writing");
                    ensure!(decode_stream(&mut g, s.f, &DecOpts { lenient: c.t.bool(), ..Default::default() }, &mut m).is_err(), "decoded-folder", "an image from a folder");
                }
            }
            4 => {
                // a device without room
                g.stream = opj_stream_create_file_stream(c"/dev/full".as_ptr(), bufsize, 0);
                if !g.stream.is_null() {
                    c.label("dev-full");
                    let r = encode_stream(&mut g, &s.im, &s.g, s.f, &mut m);
                    ensure!(r.is_err(), "wrong-success", "success in writing to a full device");
                }
            }
            5 => {
                // a stream of the wrong direction
                std::fs::write(sc.path(), &s.bytes).expect("scratch file");
                g.stream = opj_stream_create_file_stream(sc.cpath().as_ptr(), bufsize, 1);
                ensure!(!g.stream.is_null(), "file-not-opened", "");
                let r = encode_stream(&mut g, &s.im, &s.g, s.f, &mut m);
                ensure!(r.is_err(), "wrong-success", "success in writing to an input stream");
                ensure!(std::fs::read(sc.path()).expect("scratch file") == s.bytes, "input-changed", "the input file was changed");
            }
            _ => {
                g.stream = opj_stream_create_file_stream(sc.cpath().as_ptr(), bufsize, 0);
                ensure!(!g.stream.is_null(), "file-not-opened", "");
                let r = decode_stream(&mut g, s.f, &DecOpts { lenient: c.t.bool(), ..Default::default() }, &mut m);
                ensure!(r.is_err(), "decoded-nothing", "success in reading from an output stream");
            }
        }
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    match c.t.weighted(&[10, 6, 1]) {
        0 => reading(c),
        1 => writing(c),
        _ => files(c),
    }
}
pub fn prop() -> Prop {
    Prop { rule: "an injected fault was met", ..Prop::new("C22", run) }
}
