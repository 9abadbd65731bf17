use super::c10::diff;
use super::common::*;
use crate::gen::*;
use crate::w::*;
use openjp2::openjpeg::*;
use vkit::*;

/// something to encode or decode
#[derive(Clone)]
pub enum Job {
    Enc(Box<(Img, EncCfg, Fmt, i32)>),
    Dec(Vec<u8>, Fmt, DecOpts),
}
#[derive(PartialEq, Clone, Debug)]
pub enum Res {
    Bytes(Vec<u8>),
    Image(Img),
    Stop(&'static str),
}
impl Job {
    fn brief(&self) -> String {
        match self {
            Job::Enc(b) => format!("encode {} {} {:?} threads {}", b.0.brief(), b.1.brief(), b.2, b.3),
            Job::Dec(b, f, o) => format!("decode {} bytes {f:?} {o:?}", b.len()),
        }
    }
    pub fn run(&self) -> Res {
        match self {
            Job::Enc(b) => unsafe {
                let mut m = Msgs::default();
                let mut mem = Mem::writer();
                let r = {
                    let mut g = Guards::new();
                    g.stream = mem_stream(&mut mem, false, 1 << 20);
                    encode_stream(&mut g, &b.0, &b.1, b.2, &mut m)
                };
                match r {
                    Ok(()) => Res::Bytes(std::mem::take(&mut mem.buf)),
                    Err(e) => Res::Stop(e),
                }
            },
            Job::Dec(b, f, o) => match decode(b, *f, o) {
                Ok(i) => Res::Image(i),
                Err(e) => Res::Stop(e.stage),
            },
        }
    }
    fn threads(&self, n: i32) -> Job {
        match self {
            Job::Dec(b, f, o) => Job::Dec(b.clone(), *f, DecOpts { threads: Some(n), ..o.clone() }),
            j => j.clone(),
        }
    }
}
fn different(a: &Res, b: &Res) -> Option<String> {
    match (a, b) {
        _ if a == b => None,
        (Res::Bytes(x), Res::Bytes(y)) => {
            let p = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
            Some(format!("{} and {} bytes, first difference at {p}", x.len(), y.len()))
        }
        (Res::Image(x), Res::Image(y)) => Some(diff(x, y).unwrap_or("attributes".into())),
        (Res::Stop(x), Res::Stop(y)) => Some(format!("{x} failed, otherwise {y} failed")),
        (Res::Stop(x), _) => Some(format!("{x} failed, otherwise success")),
        (_, Res::Stop(y)) => Some(format!("success, otherwise {y} failed")),
        _ => Some("different kinds".into()),
    }
}
pub fn job(c: &mut Ctx, lim: &Lim) -> Job {
    let (im, g) = any_cfg(c, lim);
    let f = fmt(&mut c.t);
    if c.t.chance(1, 3) {
        return Job::Enc(Box::new((im, g, f, 0)));
    }
    let Ok(mut bytes) = encode(&im, &g, f) else { return Job::Enc(Box::new((im, g, f, 0))) };
    let mut o = DecOpts { reduce: if c.t.chance(1, 4) { c.t.u32(0, g.numres as u32 - 1) } else { 0 }, lenient: c.t.bool(), layers: if c.t.chance(1, 6) { c.t.u32(1, 3) } else { 0 }, ..Default::default() };
    let tiles = grid(&im, &g);
    match c.t.weighted(&[4, 2, 1, 1]) {
        1 => o.area = Some(rect(&mut c.t, &im)),
        2 => o.tile = Some(c.t.u32(0, tiles.0 * tiles.1 - 1)),
        3 => o.comps = Some(vec![c.t.u32(0, im.comps.len() as u32 - 1)]),
        _ => {}
    }
    if c.t.chance(1, 3) {
        let k = c.t.us(bytes.len() / 4, bytes.len());
        bytes.truncate(k);
    }
    Job::Dec(bytes, f, o)
}
/// use up and leave behind other codec objects
fn history(c: &mut Ctx, lim: &Lim) {
    let j = job(c, lim);
    c.describe(|| format!("then {}", j.brief()));
    match c.t.us(0, 3) {
        0 => {
            j.run();
        }
        1 => {
            // fails at some callback
            let n = c.t.range(1, 12) as u64;
            let mut m = Msgs::default();
            match &j {
                Job::Enc(b) => {
                    let _ = encode_mem(&b.0, &b.1, b.2, &EncTransport { fail_at: n, fail_forever: true, bufsize: 50, ..Default::default() }, &mut m);
                }
                Job::Dec(b, f, o) => {
                    let mut mem = Mem::reader(b);
                    mem.fail_at = n;
                    mem.fail_forever = true;
                    let _ = decode_mem(&mut mem, *f, o, 50, &mut m);
                }
            }
        }
        2 => unsafe {
            // abandoned after the header or between tiles
            if let Job::Dec(b, f, o) = &j {
                let mut m = Msgs::default();
                let mut mem = Mem::reader(b);
                let mut g = Guards::new();
                g.stream = mem_stream(&mut mem, true, 1 << 20);
                if open_decoder(&mut g, *f, o, &mut m).is_ok() && c.t.bool() {
                    opj_get_decoded_tile(g.codec, g.stream, g.image, 0);
                }
            }
        },
        _ => {
            j.threads(c.t.range(-1, 8) as i32).run();
        }
    }
}
fn perturb(n: i32) {
    // fresh and freed memory is filled with bytes depending on n
    unsafe {
        libc::mallopt(libc::M_PERTURB, n);
    }
}
fn again(c: &mut Ctx) -> R {
    let lim = Lim { max_area: 3000, max_dim: 70, ..Lim::default() };
    let small = Lim { max_area: 800, max_dim: 40, ..Lim::default() };
    let j = job(c, &lim);
    c.describe(|| j.brief());
    c.label(match &j {
        Job::Enc(_) => "encode",
        Job::Dec(..) => "decode",
    });
    let first = j.run();
    if !matches!(first, Res::Stop(_)) {
        c.nontrivial();
    }
    for _ in 0..c.t.us(1, 2) {
        for _ in 0..c.t.us(0, 2) {
            history(c, &small);
        }
        let p = *c.t.pick(&[0, 0x55, 0xaa, 1, 0xff, 0x80]);
        let th = if c.t.bool() { Some(c.t.range(0, 8) as i32) } else { None };
        c.describe(|| format!("again with memory fill {p:#x} threads {th:?}"));
        perturb(p);
        let r = match th {
            Some(n) => j.threads(n).run(),
            None => j.run(),
        };
        perturb(0);
        if let Some(d) = different(&r, &first) {
            return fail("history-matters", format!("fill {p:#x} threads {th:?}: {d}"));
        }
    }
    Ok(())
}
fn together(c: &mut Ctx) -> R {
    c.label("threads");
    let lim = Lim { max_area: 2000, max_dim: 60, ..Lim::default() };
    let n = c.t.us(2, 4);
    let mut sets = vec![];
    for _ in 0..n {
        let k = c.t.us(1, 2);
        let v: Vec<Job> = (0..k).map(|_| job(c, &lim)).collect();
        c.describe(|| v.iter().map(|j| j.brief()).collect::<Vec<_>>().join("; "));
        sets.push(v);
    }
    let want: Vec<Vec<Res>> = sets.iter().map(|v| v.iter().map(|j| j.run()).collect()).collect();
    c.nontrivial();
    let rounds = 3;
    let barrier = std::sync::Barrier::new(n);
    let out: Vec<Result<Option<String>, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = sets
            .iter()
            .zip(&want)
            .map(|(jobs, want)| {
                let b = &barrier;
                s.spawn(move || {
                    b.wait();
                    guard(|| {
                        for _ in 0..rounds {
                            for (j, w) in jobs.iter().zip(want) {
                                if let Some(d) = different(&j.run(), w) {
                                    return Some(format!("{}: {d}", j.brief()));
                                }
                            }
                        }
                        None
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Ok(Some("thread died".into())))).collect()
    });
    for o in out {
        if let Some(d) = o? {
            return fail("threads-matter", d);
        }
    }
    Ok(())
}
fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 6) {
        together(c)
    } else {
        again(c)
    }
}
pub fn prop() -> Prop {
    Prop { rule: "a successful operation was repeated, or several ran at once", ..Prop::new("C23", run) }
}
