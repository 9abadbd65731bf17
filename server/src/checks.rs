use crate::gen;
use crate::model::{self, *};
use crate::observe::{decode, Seen};
use crate::serve::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::time::Duration;
use vkit::*;

// ------------------------------------------------------------------ C01-C05 through the decoder

fn judge<T: PartialEq + std::fmt::Debug>(c: &mut Ctx, what: &str, path: &str, v: &Verdict<T>, get: fn(&Req) -> T) -> R {
    let seen = match guard(|| decode(path)) {
        Ok(s) => s,
        Err(f) => return Err(f),
    };
    match seen {
        Seen::Unsent => Ok(()),
        Seen::Accepted => {
            c.label("accepted");
            ensure!(v.value.is_some(), "accepted-wrongly", "{what}: {path:?} was accepted but must be rejected ({:?})", v.wrong);
            Ok(())
        }
        Seen::Decoded(r) => {
            c.label("accepted");
            let got = get(&r);
            match &v.value {
                None => fail("accepted-wrongly", format!("{what}: {path:?} was accepted as {got:?} but must be rejected ({:?})", v.wrong)),
                Some(x) => {
                    ensure!(*x == got, "wrong-value", "{what}: {path:?} gave {got:?}, means {x:?}");
                    Ok(())
                }
            }
        }
        Seen::Rejected(e) => {
            c.label("rejected");
            ensure!(!v.must_accept(), "rejected-wrongly", "{what}: {path:?} means {:?} but was rejected: {e}", v.value);
            ensure!(explains(&e, &v.wrong), "wrong-complaint", "{what}: {path:?} rejected with {e:?}, expected a complaint about {:?}", v.wrong);
            Ok(())
        }
    }
}
fn c01(c: &mut Ctx) -> R {
    let s = gen::region(&mut c.t);
    c.describe(|| format!("region {s:?}"));
    if s.len() > 6 {
        c.nontrivial();
    }
    judge(c, "region", &format!("/i/{s}/max/0/default.jpg"), &model::region(&s), |r| r.region.clone())
}
fn c02(c: &mut Ctx) -> R {
    let s = gen::size(&mut c.t);
    c.describe(|| format!("size {s:?}"));
    if s.len() > 2 && s != "max" {
        c.nontrivial();
    }
    judge(c, "size", &format!("/i/full/{s}/0/default.jpg"), &model::size(&s), |r| r.size.clone())
}
fn c03(c: &mut Ctx) -> R {
    let (rot, last) = if c.t.bool() { (gen::rotation(&mut c.t), "default.jpg".to_string()) } else { ("0".to_string(), gen::last(&mut c.t)) };
    let p = format!("/i/full/max/{rot}/{last}");
    c.describe(|| p.clone());
    c.nontrivial();
    let part = |r: &Req| (r.rotation.clone(), r.quality, r.format, r.mime.clone());
    judge(c, "rotation/quality/format", &p, &model::path(&p).map(|r| part(&r)), part)
}
fn c04(c: &mut Ctx) -> R {
    let kind = c.t.weighted(&[5, 5]);
    let p = if kind == 0 {
        // canonical encodings of random requests
        let id = gen::ident(&mut c.t);
        let e = gen::escape(&mut c.t, id.as_bytes());
        let p = format!("/{e}/{}", gen::good_tail(&mut c.t));
        let v = model::path(&p);
        assert!(v.must_accept(), "harness: {p:?} is not canonical: {v:?}");
        assert_eq!(v.value.as_ref().unwrap().id, id);
        c.label("canonical");
        p
    } else {
        // any mixture of good, spoiled and missing segments
        let mut segs = vec![gen::raw_ident(&mut c.t)];
        segs.push(if c.t.chance(1, 3) { gen::region(&mut c.t) } else { gen::good_region(&mut c.t) });
        segs.push(if c.t.chance(1, 3) { gen::size(&mut c.t) } else { gen::good_size(&mut c.t) });
        segs.push(if c.t.chance(1, 3) { gen::rotation(&mut c.t) } else { gen::good_rotation(&mut c.t) });
        segs.push(if c.t.chance(1, 3) { gen::last(&mut c.t) } else { gen::good_last(&mut c.t) });
        let n = match c.t.weighted(&[6, 2, 1]) {
            0 => 5,
            1 => c.t.us(1, 4),
            _ => 6,
        };
        if n == 6 {
            segs.push(gen::noise(&mut c.t).replace('/', ""));
        }
        segs.truncate(n);
        if c.t.chance(1, 12) {
            let at = c.t.us(0, segs.len() - 1);
            segs.insert(at, String::new());
        }
        format!("/{}", segs.join("/"))
    };
    c.describe(|| p.clone());
    c.nontrivial();
    judge(c, "path", &p, &model::path(&p), |r| r.clone())
}

// ------------------------------------------------------------------ a server per worker

pub struct Fix {
    pub kind: String,
    pub scratch: Scratch,
    pub root: PathBuf,
    pub srv: Server,
    pub memo: BTreeMap<String, Reply>,
    watch: Option<Watch>,
}
thread_local! { static FIX: RefCell<Option<Fix>> = const { RefCell::new(None) }; }

/// run f against the server of this kind, starting it if the worker's current one is another or has died
fn with<T>(kind: &str, alt: bool, f: impl FnOnce(&mut Fix) -> T) -> T {
    FIX.with(|x| {
        let mut x = x.borrow_mut();
        let stale = match x.as_mut() {
            Some(k) => k.kind != kind || k.srv.dead(),
            None => true,
        };
        if stale {
            drop_kept();
            *x = None;
            *x = Some(start(kind, alt));
        }
        f(x.as_mut().unwrap())
    })
}
fn forget() {
    drop_kept();
    FIX.with(|x| *x.borrow_mut() = None);
}
fn start(kind: &str, alt: bool) -> Fix {
    let scratch = Scratch::new("srv");
    let w = scratch.0.join("w");
    let root = w.join("images");
    std::fs::create_dir_all(&root).unwrap();
    let log = scratch.0.join("log");
    let mut nofile = 4096;
    let mut arg = root.clone();
    match kind {
        "c06" => {
            nofile = 300;
            for n in ["a", "b c", "é.tif", "info.json", "100%"] {
                std::fs::write(root.join(n), b"data").unwrap();
            }
            std::fs::create_dir(root.join("sub")).unwrap();
            std::fs::write(root.join("sub/x"), b"data").unwrap();
        }
        k if k.starts_with("c07") => {
            std::fs::write(root.join("a"), b"inside").unwrap();
            std::fs::create_dir_all(root.join("sub/deep")).unwrap();
            std::fs::write(root.join("sub/b"), b"inside").unwrap();
            std::fs::create_dir_all(w.join("outside")).unwrap();
            std::fs::create_dir_all(w.join("images-secret")).unwrap();
            arg = match k {
                "c07-rel" => "images".into(),
                "c07-slash" => format!("{}/", root.display()).into(),
                "c07-dots" => "../w/./images".into(),
                _ => arg,
            };
        }
        _ => {
            std::fs::write(root.join("a"), b"data").unwrap();
        }
    }
    let srv = Server::start(&arg, &w, &log, nofile, alt);
    Fix { kind: kind.into(), scratch, root, srv, memo: BTreeMap::new(), watch: None }
}
#[cfg(not(verif_hooks))]
pub fn with_plain_server<T>(f: impl FnOnce() -> T) -> T {
    with("plain", std::env::var("VKIT_ALT").is_ok(), |_| f())
}
/// a failed case must not leave its server behind for the next one
fn fresh_on_fail(r: R) -> R {
    if r.is_err() {
        forget();
    }
    r
}

// ------------------------------------------------------------------ C05

fn c05(c: &mut Ctx) -> R {
    // a path whose first offending segment is known, and a variation after it
    let mut segs = [gen::raw_ident(&mut c.t), gen::good_region(&mut c.t), gen::good_size(&mut c.t), gen::good_rotation(&mut c.t), gen::good_last(&mut c.t)];
    if c.t.chance(2, 3) {
        segs[0] = "a".into();
    }
    let k = c.t.us(0, 4);
    match k {
        1 => segs[1] = gen::region(&mut c.t),
        2 => segs[2] = gen::size(&mut c.t),
        3 => segs[3] = gen::rotation(&mut c.t),
        4 => segs[4] = gen::last(&mut c.t),
        _ => {}
    }
    let cut = if c.t.chance(1, 5) { c.t.us(1, 4) } else { 5 };
    let p = format!("/{}", segs[..cut].join("/"));
    let v = model::path(&p);
    c.describe(|| p.clone());
    if v.value.is_some() {
        return Ok(()); // not offending
    }
    c.nontrivial();
    c.label(format!("element {}", v.wrong.first().map_or("?", |w| w.element)));
    // the first segment that must be rejected
    let bad = [
        model::identifier(&segs[0]).value.is_none(),
        cut < 2 || model::region(&segs[1]).value.is_none(),
        cut < 3 || model::size(&segs[2]).value.is_none(),
        cut < 4 || model::rotation(&segs[3]).value.is_none(),
    ];
    let first = bad.iter().position(|b| *b).unwrap_or(4);
    let mut other = segs.clone();
    let variation = first < 4 && cut == 5;
    if variation {
        for (i, s) in other.iter_mut().enumerate().skip(first + 1) {
            if c.t.chance(2, 3) {
                *s = match i {
                    1 => gen::region(&mut c.t),
                    2 => gen::size(&mut c.t),
                    3 => gen::rotation(&mut c.t),
                    _ => gen::last(&mut c.t),
                };
            }
        }
    }
    let q = format!("/{}", other.join("/"));
    // the decoder's own message
    if let Seen::Rejected(e) = guard(|| decode(&p))? {
        ensure!(explains(&e, &v.wrong), "wrong-complaint", "{p:?} rejected with {e:?}, expected a complaint about {:?}", v.wrong);
        if variation {
            match guard(|| decode(&q))? {
                Seen::Rejected(e2) => ensure!(e == e2, "later-segments-matter", "{p:?}: {e:?} but {q:?}: {e2:?}"),
                Seen::Unsent => {}
                _ => return fail("later-segments-matter", format!("{p:?} is rejected but {q:?} is not")),
            }
        }
    }
    // and the reply of the server
    if !sendable(&p) || p.ends_with("info.json") {
        return Ok(());
    }
    c.label("over-http");
    let alt = c.alt;
    fresh_on_fail(with("plain", alt, |_| {
        let r = match get_kept(&p) {
            Ok(r) => r,
            Err(e) => return fail("no-reply", format!("GET {p}: {e}")),
        };
        ensure!(r.status == 400, "wrong-status", "GET {p} must be refused with 400, got {}", r.text());
        let text = String::from_utf8_lossy(&r.body).to_string();
        ensure!(explains(&text, &v.wrong), "wrong-complaint", "GET {p} answered {text:?}, expected a complaint about {:?}", v.wrong);
        if variation && sendable(&q) && !q.ends_with("info.json") {
            let r2 = match get_kept(&q) {
                Ok(r) => r,
                Err(e) => return fail("no-reply", format!("GET {q}: {e}")),
            };
            ensure!(r == r2, "later-segments-matter", "GET {p}: {} but GET {q}: {}", r.text(), r2.text());
        }
        Ok(())
    }))
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug)]
struct Rq {
    method: &'static str,
    target: String,
    headers: String,
    body: Vec<u8>,
    version: &'static str,
    want: Option<u16>,
}
fn path06(c: &mut Ctx) -> (String, Option<u16>) {
    let ok = ["a", "b%20c", "%C3%A9.tif", "info.json", "100%25", "sub%2Fx"];
    match c.t.weighted(&[6, 3, 4, 2, 1, 1, 1]) {
        0 => (format!("/{}/{}", c.t.pick(&ok), gen::good_tail(&mut c.t)), Some(200)),
        1 => (format!("/{}/{}", c.t.pick(&["nope", "A", "b", "sub%2Fy", "a%2Fb", "%00", "aa"]), gen::good_tail(&mut c.t)), Some(400)),
        2 => loop {
            let p = format!("/a/{}/{}/{}/{}", gen::region(&mut c.t), gen::size(&mut c.t), gen::rotation(&mut c.t), gen::last(&mut c.t));
            if !sendable(&p) {
                let p = "/a/full/max/0/default".to_string();
                break (p, Some(400));
            }
            let v = model::path(&p);
            break (p, if v.value.is_none() { Some(400) } else if v.must_accept() { Some(200) } else { None });
        },
        3 => (c.t.pick(&["/a/info.json", "/info.json", "/nope/info.json", "/a/full/max/0/default.jpginfo.json", "//info.json"]).to_string(), None),
        4 => (c.t.pick(&["/", "//", "/a", "/a/", "/a/full", "/a/full/max/0", "/%ff/full/max/0/default.jpg"]).to_string(), Some(400)),
        5 => {
            let n = c.t.us(300, 6000);
            (format!("/{}/full/max/0/default.jpg", "x".repeat(n)), Some(400))
        }
        _ => (format!("/a/full/max/0/default.jpg?{}", gen::ident(&mut c.t).chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>()), Some(200)),
    }
}
fn rq(c: &mut Ctx, h2: bool) -> Rq {
    let (p, want) = path06(c);
    let method = *c.t.pick(&["GET", "GET", "GET", "GET", "HEAD", "OPTIONS", "DELETE", "POST", "PUT", "PATCH", "FOO", "TRACE"]);
    let mut r = Rq { method, target: p, headers: String::new(), body: vec![], version: "HTTP/1.1", want: if method == "GET" { want } else { None } };
    if h2 {
        return r;
    }
    match c.t.weighted(&[12, 1, 1]) {
        1 => r.target = format!("http://example.org{}", r.target),
        2 if method == "OPTIONS" => r.target = "*".into(),
        _ => {}
    }
    let n = c.t.us(0, 3);
    for _ in 0..n {
        r.headers += *c.t.pick(&["Accept: */*\r\n", "X-Long: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n", "Cookie: a=b\r\n", "Accept-Encoding: gzip\r\n", "Range: bytes=0-1\r\n", "If-None-Match: *\r\n", "X-Empty:\r\n", "Upgrade: h2c\r\n"]);
    }
    if ["POST", "PUT", "PATCH", "FOO"].contains(&method) && c.t.bool() {
        let n = c.t.us(0, 300);
        if c.t.bool() {
            r.headers += &format!("Content-Length: {n}\r\n");
            r.body = vec![b'z'; n];
        } else {
            r.headers += "Transfer-Encoding: chunked\r\n";
            r.body = if n > 0 { format!("{n:x}\r\n{}\r\n0\r\n\r\n", "z".repeat(n)).into_bytes() } else { b"0\r\n\r\n".to_vec() };
        }
    }
    r
}
impl Rq {
    fn bytes(&self, last: bool, close: bool) -> Vec<u8> {
        let conn = match (self.version, last && close) {
            ("HTTP/1.0", false) => "Connection: keep-alive\r\n",
            ("HTTP/1.0", true) => "",
            (_, true) => "Connection: close\r\n",
            _ => "",
        };
        let mut v = format!("{} {} {}\r\nHost: example.org\r\n{}{}\r\n", self.method, self.target, self.version, self.headers, conn).into_bytes();
        v.extend(&self.body);
        v
    }
    fn key(&self) -> String {
        let t = self.target.strip_prefix("http://example.org").unwrap_or(&self.target);
        format!("{} {t}", self.method)
    }
}
/// what this request gets when it is alone on a fresh connection
fn alone(f: &mut Fix, r: &Rq) -> Result<Reply, Fail> {
    let k = r.key();
    if let Some(x) = f.memo.get(&k) {
        return Ok(x.clone());
    }
    let t = r.target.strip_prefix("http://example.org").unwrap_or(&r.target).to_string();
    let one = (|| -> Result<Reply, String> {
        let mut c = H1::open().map_err(|e| e.to_string())?;
        c.send(format!("{} {t} HTTP/1.1\r\nHost: example.org\r\nConnection: close\r\n\r\n", r.method).as_bytes()).map_err(|e| e.to_string())?;
        c.reply(r.method == "HEAD")
    })();
    match one {
        Ok(x) => {
            if f.memo.len() < 20_000 {
                f.memo.insert(k, x.clone());
            }
            Ok(x)
        }
        Err(e) => fail("no-reply", format!("{} {t} alone on a connection: {e}; server: {}", r.method, f.srv.panics())),
    }
}
enum Conn {
    H1 { c: H1, rq: Vec<Rq>, abort: u8, close: bool },
    H2 { c: H2, ids: Vec<(u32, Rq)>, abort: u8, dead: Vec<u32> },
    Junk { c: H1 },
}
fn c06(c: &mut Ctx) -> R {
    let alt = c.alt;
    fresh_on_fail(with("c06", alt, |f| c06_in(c, f)))
}
fn c06_in(c: &mut Ctx, f: &mut Fix) -> R {
    let n = c.t.us(1, 6);
    let mut conns = vec![];
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    let mut desc = vec![];
    for _ in 0..n {
        let kind = c.t.weighted(&[6, 3, 1]);
        let abort = match c.t.weighted(&[6, 1, 1, 1, 1]) {
            0 => 0u8,
            k => k as u8,
        };
        let m = c.t.us(1, 6);
        let mut bytes;
        match kind {
            0 => {
                let mut v: Vec<Rq> = (0..m).map(|_| rq(c, false)).collect();
                if c.t.chance(1, 8) {
                    for r in &mut v {
                        r.version = "HTTP/1.0";
                        // a body of HTTP/1.0 needs a length
                        if r.headers.contains("chunked") {
                            r.headers = String::new();
                            r.body = vec![];
                        }
                    }
                }
                if !c.t.chance(1, 3) {
                    for r in v.iter_mut().filter(|r| !r.body.is_empty()) {
                        r.headers = String::new();
                        r.body = vec![];
                    }
                }
                let close = c.t.bool();
                bytes = vec![];
                for (i, r) in v.iter().enumerate() {
                    bytes.extend(r.bytes(i + 1 == v.len(), close));
                }
                desc.push(format!("h1 {}{}", v.iter().map(|r| format!("{} {}", r.method, &r.target[..r.target.len().min(60)])).collect::<Vec<_>>().join(", "), if abort > 0 { format!(" abort{abort}") } else { String::new() }));
                let Ok(h) = H1::open() else { return fail("worker-not-serving", "connect failed".to_string()) };
                conns.push(Conn::H1 { c: h, rq: v, abort, close });
            }
            1 => {
                let Ok(mut h) = H2::open() else { return fail("worker-not-serving", "connect failed".to_string()) };
                bytes = h.hello();
                let mut ids = vec![];
                let mut dead = vec![];
                for _ in 0..m {
                    let r = rq(c, true);
                    let (id, b) = h.request(r.method, &r.target);
                    bytes.extend(b);
                    if c.t.chance(1, 10) {
                        bytes.extend(frame(3, 0, id, &8u32.to_be_bytes()));
                        dead.push(id);
                    }
                    if c.t.chance(1, 10) {
                        bytes.extend(frame(6, 0, 0, &[1, 2, 3, 4, 5, 6, 7, 8]));
                    }
                    ids.push((id, r));
                }
                desc.push(format!("h2 {}{}", ids.iter().map(|(_, r)| format!("{} {}", r.method, &r.target[..r.target.len().min(60)])).collect::<Vec<_>>().join(", "), if abort > 0 { format!(" abort{abort}") } else { String::new() }));
                conns.push(Conn::H2 { c: h, ids, abort, dead });
            }
            _ => {
                bytes = match c.t.below(5) {
                    0 => b"\x16\x03\x01\x02\x00\x01\x00\x01".to_vec(),
                    1 => b"GET\r\n\r\n".to_vec(),
                    2 => {
                        let n = c.t.us(0, 60);
                        c.t.bytes(n)
                    }
                    3 => {
                        let mut b = PREFACE.to_vec();
                        let n = c.t.us(0, 60);
                        b.extend(c.t.bytes(n));
                        b
                    }
                    _ => b"GET /a/full/max/0/default.jpg HTTP/9.9\r\nContent-Length: -1\r\n\r\n".to_vec(),
                };
                desc.push(format!("junk {} bytes", bytes.len()));
                let Ok(h) = H1::open() else { return fail("worker-not-serving", "connect failed".to_string()) };
                conns.push(Conn::Junk { c: h });
            }
        }
        // how the bytes are split into writes
        let pieces = match c.t.weighted(&[3, 3, 1]) {
            0 => 1,
            1 => c.t.us(2, 8),
            _ => c.t.us(9, 40),
        };
        let mut cuts: BTreeSet<usize> = (1..pieces).map(|_| c.t.below(bytes.len() as u64 + 1) as usize).collect();
        cuts.insert(bytes.len());
        let mut at = 0;
        let mut v = vec![];
        for k in cuts {
            if k > at {
                v.push(bytes[at..k].to_vec());
                at = k;
            }
        }
        // an abort happens after some of the writes
        if abort >= 2 {
            let keep = c.t.us(0, v.len());
            v.truncate(keep);
        }
        out.push(v);
    }
    c.describe(|| desc.join(" || "));
    c.count("connections", n as u64);
    let mut left: Vec<usize> = (0..n).collect();
    let mut pos = vec![0usize; n];
    if n > 1 || out[0].len() > 1 {
        c.nontrivial();
    }
    while !left.is_empty() {
        let k = c.t.below(left.len() as u64) as usize;
        let i = left[k];
        if pos[i] >= out[i].len() {
            left.remove(k);
            continue;
        }
        let b = &out[i][pos[i]];
        pos[i] += 1;
        // the server may already have closed this connection; what it owes is judged from its replies
        let _ = match &mut conns[i] {
            Conn::H1 { c, .. } | Conn::Junk { c } => c.send(b),
            Conn::H2 { c, .. } => c.send(b),
        };
        if c.t.chance(1, 8) {
            std::thread::sleep(Duration::from_micros(c.t.below(800)));
        }
    }
    for (i, k) in conns.into_iter().enumerate() {
        match k {
            Conn::Junk { c } => drop(c),
            Conn::H1 { mut c, rq, abort, close } => {
                match abort {
                    2 => {
                        c.reset();
                        continue;
                    }
                    3 | 4 => continue, // closed without reading
                    1 => c.half_close(),
                    _ => {}
                }
                let total = rq.len();
                for (j, r) in rq.iter().enumerate() {
                    let want = alone(f, r)?;
                    let got = match c.reply(r.method == "HEAD") {
                        Ok(g) => g,
                        // a connection may end (and replies on their way be lost) when a body was not read, as after a half-close
                        Err(_) if abort == 1 => break,
                        Err(_) if rq.iter().any(|r| !r.body.is_empty()) => break,
                        Err(e) => return fail("no-reply", format!("{} (request {} of {total}; {}): {e}; server: {}", r.key(), j + 1, desc[i], f.srv.panics())),
                    };
                    ensure!(got == want, "reply-depends-on-history", "{} got {} but alone {} ({})", r.key(), got.text(), want.text(), desc[i]);
                    if let Some(w) = r.want {
                        ensure!(got.status == w, "wrong-status", "{} got {}, expected {w}", r.key(), got.text());
                    }
                    if c.closing {
                        if !r.body.is_empty() {
                            break;
                        }
                        ensure!(j + 1 == total && (close || r.version == "HTTP/1.0") || r.version == "HTTP/1.0" || abort == 1, "closed-early", "connection closed after request {} of {total}: {}", j + 1, desc[i]);
                        if j + 1 < total {
                            break;
                        }
                    }
                    if j + 1 == total {
                        if let Some(s) = c.surplus() {
                            return fail("surplus-reply", format!("after the last reply: {s:?}; {}", desc[i]));
                        }
                    }
                }
            }
            Conn::H2 { mut c, ids, abort, dead } => {
                if abort >= 2 {
                    continue;
                }
                let want: Vec<u32> = ids.iter().map(|x| x.0).filter(|i| !dead.contains(i)).collect();
                if let Err(e) = c.pump(&want) {
                    return fail("no-reply", format!("HTTP/2: {e}; {}; server: {}", desc[i], f.srv.panics()));
                }
                for (id, r) in &ids {
                    if dead.contains(id) {
                        continue;
                    }
                    let w = alone(f, r)?;
                    match c.done.get(id) {
                        Some(g) => {
                            ensure!(*g == w, "reply-depends-on-history", "HTTP/2 {} got {} but alone {}", r.key(), g.text(), w.text());
                        }
                        None => return fail("no-reply", format!("HTTP/2 stream {id} {} was reset", r.key())),
                    }
                }
            }
        }
    }
    ensure!(!f.srv.dead(), "server-died", "{}", f.srv.panics());
    let probes = if c.t.chance(1, 10) { 48 } else { 3 };
    alive(probes, "/a/full/max/0/default.jpg", 200)?;
    c.count("probes", probes as u64);
    Ok(())
}
/// more connections than the server may have descriptors
fn c06_flood(c: &mut Ctx) -> R {
    c.nontrivial();
    c.describe(|| "more connections at once than the server has file descriptors, then none".into());
    let alt = c.alt;
    fresh_on_fail(with("c06", alt, |f| {
        for _ in 0..2 {
            let v: Vec<_> = (0..420).filter_map(|_| std::net::TcpStream::connect_timeout(&addr(), Duration::from_millis(500)).ok()).collect();
            std::thread::sleep(Duration::from_millis(300));
            drop(v);
            std::thread::sleep(Duration::from_millis(300));
        }
        ensure!(!f.srv.dead(), "server-died", "after a flood of connections: {}", f.srv.panics());
        match alive(64, "/a/full/max/0/default.jpg", 200) {
            Ok(()) => Ok(()),
            Err(e) => fail("worker-not-serving-after-flood", format!("{} server: {}", e.msg, f.srv.panics())),
        }
    }))
}
/// many requests of one kind: nothing may run out
fn c06_many(c: &mut Ctx) -> R {
    c.nontrivial();
    c.describe(|| "3000 requests for existing, missing and malformed images on reused and fresh connections".into());
    let alt = c.alt;
    fresh_on_fail(with("c06", alt, |f| {
        for i in 0..3000 {
            let (p, w) = [("/a/full/max/0/default.jpg", 200), ("/nope/full/max/0/default.jpg", 400), ("/a/full/maxx/0/default.jpg", 400)][i % 3];
            let r = if i % 5 == 0 { get(p) } else { get_kept(p) };
            match r {
                Ok(r) if r.status == w => {}
                Ok(r) => return fail("wrong-status", format!("request {i} GET {p} got {}", r.text())),
                Err(e) => return fail("no-reply", format!("request {i} GET {p}: {e}; server: {}", f.srv.panics())),
            }
        }
        drop_kept();
        alive(64, "/a/full/max/0/default.jpg", 200)?;
        let n = f.srv.fds();
        ensure!(n < 200, "descriptor-leak", "the server still has {n} descriptors open");
        Ok(())
    }))
}
fn c06_aborts(c: &mut Ctx) -> R {
    c.nontrivial();
    c.describe(|| "600 connections reset before, during and after a request".into());
    let alt = c.alt;
    fresh_on_fail(with("c06", alt, |f| {
        let req = b"GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: a\r\n\r\nGET /a/info.json HTTP/1.1\r\nHost: a\r\n\r\n";
        for i in 0..600usize {
            if let Ok(mut h) = H1::open() {
                let _ = h.send(&req[..(i * 7) % req.len()]);
                if i % 3 == 0 {
                    h.reset();
                }
            }
        }
        ensure!(!f.srv.dead(), "server-died", "{}", f.srv.panics());
        alive(64, "/a/full/max/0/default.jpg", 200)
    }))
}

/// nothing that a connection takes may be kept when it ends: more endings of every kind than there are permits
fn c06_soak(c: &mut Ctx) -> R {
    c.nontrivial();
    c.describe(|| "12000 connections ended by each of: a protocol error, a reset inside a request, an HTTP/2 error, a normal close".into());
    let alt = c.alt;
    fresh_on_fail(with("c06", alt, |f| {
        for kind in 0..4u8 {
            let stuck = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            let hands: Vec<_> = (0..4)
                .map(|k| {
                    let stuck = stuck.clone();
                    std::thread::spawn(move || {
                        for i in 0..3000usize {
                            if stuck.load(std::sync::atomic::Ordering::Relaxed) {
                                return;
                            }
                            let t0 = std::time::Instant::now();
                            let Ok(mut h) = H1::open() else { continue };
                            let _ = match kind {
                                0 => h.send(b"\x16\x03\x01 nonsense\r\n\r\n"),
                                1 => h.send(b"GET /a/full/max/0/default.jpg HT"),
                                2 => h.send(&[PREFACE, &[0, 0, 1, 0, 0, 0, 0, 0, 0, 9]].concat()),
                                _ => h.send(b"GET /a/full/max/0/default.jpg HTTP/1.1\r\nHost: a\r\n\r\n"),
                            };
                            // wait for the server now and then, so that connections do not pile up
                            if kind == 3 || ((i + k) % 16 == 0 && kind != 1) {
                                let _ = h.reply(false);
                            } else if i % 64 == 0 {
                                std::thread::sleep(Duration::from_millis(5));
                            }
                            if kind != 3 {
                                h.reset();
                            }
                            if t0.elapsed() > Duration::from_secs(5) {
                                stuck.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                    })
                })
                .collect();
            for h in hands {
                let _ = h.join();
            }
            std::thread::sleep(Duration::from_millis(200));
            ensure!(!f.srv.dead(), "server-died", "{}", f.srv.panics());
            if let Err(e) = alive(64, "/a/full/max/0/default.jpg", 200) {
                return fail(&e.sig, format!("after 12000 connections of kind {kind}: {}", e.msg));
            }
        }
        let n = f.srv.fds();
        ensure!(n < 200, "descriptor-leak", "the server still has {n} descriptors open");
        Ok(())
    }))
}

// ------------------------------------------------------------------ C07

struct Watch(i32);
impl Watch {
    fn new(dirs: &[PathBuf]) -> Watch {
        let fd = unsafe { libc::inotify_init1(libc::IN_NONBLOCK | libc::IN_CLOEXEC) };
        assert!(fd >= 0, "inotify");
        for d in dirs {
            let p = std::ffi::CString::new(d.to_str().unwrap()).unwrap();
            let r = unsafe { libc::inotify_add_watch(fd, p.as_ptr(), libc::IN_OPEN | libc::IN_ACCESS) };
            assert!(r >= 0, "inotify_add_watch");
        }
        Watch(fd)
    }
    fn names(&self) -> Vec<String> {
        let mut out = vec![];
        let mut b = vec![0u8; 65536];
        loop {
            let n = unsafe { libc::read(self.0, b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 {
                return out;
            }
            let mut at = 0;
            while at + 16 <= n as usize {
                let len = u32::from_ne_bytes(b[at + 12..at + 16].try_into().unwrap()) as usize;
                let name = &b[at + 16..at + 16 + len];
                let name = String::from_utf8_lossy(&name[..name.iter().position(|x| *x == 0).unwrap_or(len)]).to_string();
                out.push(name);
                at += 16 + len;
            }
        }
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        unsafe { libc::close(self.0) };
    }
}
/// where does a decoded identifier lead, read as a path relative to root (symbolic links aside)?
fn lexical(root: &str, id: &str) -> Vec<String> {
    let mut v: Vec<String> = if id.starts_with('/') { vec![] } else { root.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
    for p in id.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            _ => v.push(p.to_string()),
        }
    }
    v
}
/// spellings which some layer might take for separators or parent directories
fn disguise(c: &mut Ctx, id: String) -> String {
    let mut id = id;
    let n = c.t.us(1, 2);
    for _ in 0..n {
        id = match c.t.below(14) {
            0 => id.replace('/', "\\"),
            1 => id.replacen('/', "\\", 1),
            2 => id.replace("../", "..\\"),
            3 => id.replace("..", "%2e%2e"),
            4 => id.replace('/', "%2f"),
            5 => id.replace("..", "\u{ff0e}\u{ff0e}"),
            6 => id.replace('/', "\u{2215}"),
            7 => id.replace("..", ".\u{0}."),
            8 => id.replace("../", "....//"),
            9 => id.replace("../", "..;/"),
            10 => format!(" {id}"),
            11 => format!("{id}\u{0}.jpg"),
            12 => id.replace("..", ". ."),
            _ => gen::escape(&mut c.t, id.as_bytes()),
        };
    }
    id
}
fn c07(c: &mut Ctx) -> R {
    let kind = if c.t.chance(1, 100) { *c.t.pick(&["c07-rel", "c07-slash", "c07-dots"]) } else { "c07" };
    let alt = c.alt;
    fresh_on_fail(with(kind, alt, |f| c07_in(c, f)))
}
fn c07_in(c: &mut Ctx, f: &mut Fix) -> R {
    let w = f.scratch.0.join("w");
    let ws = w.to_str().unwrap().to_string();
    let targets = ["outside/secret", "images-secret/f", "secret.txt", "images/a", "images/sub/b", "outside", "images-secret", ".", "images"];
    let id = match c.t.weighted(&[5, 4, 4, 2, 2]) {
        0 => {
            // relative with parent components
            let n = c.t.us(0, 3);
            let mut s = String::new();
            for _ in 0..n {
                s += c.t.pick(&["sub/", "./", "sub/deep/", "nope/", "/", "a/", ".../", "sub/../"]).to_owned();
            }
            let ups = c.t.us(0, 5);
            for _ in 0..ups {
                s += c.t.pick(&["../", "..//", ".././"]).to_owned();
            }
            let base = w.file_name().unwrap().to_str().unwrap();
            let t = *c.t.pick(&targets);
            match c.t.below(3) {
                0 => s + t,
                1 => format!("{s}{base}/{t}"),
                _ => {
                    let sb = f.scratch.0.file_name().unwrap().to_str().unwrap().to_string();
                    format!("{s}{sb}/{base}/{t}")
                }
            }
        }
        1 => {
            let lead = *c.t.pick(&["/", "//", "/./", "/../", "/../../../../../../"]);
            format!("{lead}{}/{}", &ws[1..], c.t.pick(&targets))
        }
        2 => {
            // enough parents to reach the top, then down again
            let n = c.t.us(6, 40);
            format!("{}{}/{}", "../".repeat(n), &ws[1..], c.t.pick(&targets))
        }
        3 => c.t.pick(&["", ".", "..", "/", "../", "./", "a", "sub/b", "sub", "..\\..\\secret.txt", "%2e%2e/secret.txt", "..%2fsecret.txt", "....//secret.txt", "a/../../secret.txt", "\u{0}", "a\u{0}", "../secret.txt\u{0}", "/etc/hostname", "~", "file:///etc/hostname", "\u{ff0e}\u{ff0e}/secret.txt"]).to_string(),
        _ => {
            let n = c.t.us(1, 5);
            let mut s: Vec<String> = (0..n).map(|_| gen::ident(&mut c.t)).collect();
            if c.t.chance(1, 4) {
                let k = c.t.us(1, 3000);
                s.push("x".repeat(k));
            }
            s.join("/")
        }
    };
    let id = if c.t.chance(1, 3) { disguise(c, id) } else { id };
    let seg = gen::escape(&mut c.t, id.as_bytes());
    let p = format!("/{seg}/{}", gen::good_tail(&mut c.t));
    if p.len() > 20_000 {
        return Ok(());
    }
    let there = lexical(f.root.to_str().unwrap(), &id);
    let rootc = lexical("", f.root.to_str().unwrap());
    let outside = !there.starts_with(&rootc);
    c.describe(|| format!("{id:?} ({})", if outside { "leaves the image directory" } else { "stays inside" }));
    c.label(if outside { "outside" } else { "inside" });
    if outside {
        c.nontrivial();
    }
    let files = [w.join("outside/secret"), w.join("images-secret/f"), w.join("secret.txt")];
    for x in &files {
        std::fs::write(x, b"secret").unwrap();
    }
    if f.watch.is_none() {
        f.watch = Some(Watch::new(&[f.scratch.0.clone(), w.clone(), w.join("outside"), w.join("images-secret")]));
    }
    let watch = f.watch.as_ref().unwrap();
    let mut replies = vec![];
    for round in 0..2 {
        if round == 1 {
            for x in &files {
                std::fs::remove_file(x).unwrap();
            }
        }
        watch.names();
        let r = match get_kept(&p) {
            Ok(r) => r,
            Err(e) => return fail("no-reply", format!("identifier {id:?}: {e}; server: {}", f.srv.panics())),
        };
        let seen: BTreeSet<String> = watch.names().into_iter().filter(|n| n != "images" && n != "log").collect();
        ensure!(seen.is_empty(), "opened-outside", "identifier {id:?}: the server opened {seen:?} outside its image directory");
        if outside {
            ensure!(r.status != 200, "served-outside", "identifier {id:?} leads to /{} but was answered {}", there.join("/"), r.text());
        }
        replies.push(r);
    }
    ensure!(replies[0] == replies[1], "depends-on-outside", "identifier {id:?}: {} with files outside the directory, {} without", replies[0].text(), replies[1].text());
    Ok(())
}

// ------------------------------------------------------------------ C08

fn file_name(c: &mut Ctx) -> String {
    let s: String = match c.t.weighted(&[4, 4, 3, 1]) {
        0 => {
            let n = c.t.us(1, 8);
            (0..n).map(|_| *c.t.pick(&['a', 'b', 'A', '0', '.', '-', '_'])).collect()
        }
        1 => {
            let n = c.t.us(1, 8);
            (0..n).map(|_| *c.t.pick(&['a', ' ', '%', '?', '#', '[', ']', '@', 'é', '\u{1F600}', '+', '&', '\\', '"', '\n', '\t', ';', ':', '\u{7f}', '漢', '\u{1}', '*', '~', '2', 'F', 'e', '\u{301}', '\r'])).collect()
        }
        2 => c.t.pick(&["info.json", "%41", "A", "%2F", "%", "a%2Fb", "a+b", "a b", "-rf", "~", "*", "...", "..a", ".a", "a.", "%2e%2e", "+", "default.jpg", "full", "é", "e\u{301}", "日本語.tif", "\u{feff}bom", "a\\b", "nul", "..\\"]).to_string(),
        _ => {
            let n = *c.t.pick(&[254usize, 255, 128, 100]);
            let ch = *c.t.pick(&["x", "é", "漢"]);
            let mut s = ch.repeat(n / ch.len());
            while s.len() < n {
                s.push('y');
            }
            s
        }
    };
    if s == "." || s == ".." || s.is_empty() {
        "dot".into()
    } else {
        s
    }
}
/// identifiers which are almost the name of a file
fn near(c: &mut Ctx, id: String) -> String {
    match c.t.below(22) {
        0 => id.to_uppercase(),
        1 => format!("{id} "),
        2 => format!("{id}\u{0}"),
        3 => String::from_utf8_lossy(&unescape(&id).0).to_string(),
        4 => id.chars().skip(1).collect(),
        5 => id.replace(' ', "+"),
        6 => format!("{id}/"),
        7 => format!("/{id}"),
        8 => format!("{id}/."),
        9 => id.to_lowercase(),
        10 => format!(" {id}"),
        11 => id.rsplit_once('.').map_or(format!("{id}.jpg"), |x| x.0.to_string()),
        12 => format!("{id}.{}", c.t.pick(&["jpg", "jp2", "tif", ""])),
        13 => id.replace('\\', "/"),
        14 => id.replace('/', "\\"),
        15 => id.replace('é', "e\u{301}"),
        16 => id.replace("e\u{301}", "é"),
        17 => gen::escape(&mut c.t, id.as_bytes()),
        18 => id.chars().take(id.chars().count().saturating_sub(1)).collect(),
        19 => id.replace('+', " "),
        20 => format!("{id}{}", c.t.pick(&["?x", "#", ";v=1", "\u{feff}", "\r", "~", ",v"])),
        _ => format!("./{id}"),
    }
}
fn c08(c: &mut Ctx) -> R {
    let alt = c.alt;
    fresh_on_fail(with("c08", alt, |f| c08_in(c, f)))
}
fn c08_in(c: &mut Ctx, f: &mut Fix) -> R {
    // start from an empty directory
    for e in std::fs::read_dir(&f.root).unwrap().flatten() {
        if e.file_type().unwrap().is_dir() {
            std::fs::remove_dir_all(e.path()).unwrap();
        } else {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
    let mut model: BTreeMap<String, bool> = BTreeMap::new(); // path -> is a file (else a directory)
    let mut log = vec![];
    let mut asked = 0;
    let steps = c.t.us(2, 14);
    for _ in 0..steps {
        match c.t.weighted(&[4, 1, 2, 1, 8]) {
            0 | 1 if model.len() < 12 => {
                let dirs: Vec<String> = model.iter().filter(|x| !*x.1).map(|x| x.0.clone()).collect();
                let mut n = file_name(c);
                if !dirs.is_empty() && c.t.bool() {
                    n = format!("{}/{n}", c.t.pick(&dirs));
                }
                if model.contains_key(&n) || n.len() > 700 {
                    continue;
                }
                let isdir = c.t.chance(1, 5);
                if isdir {
                    std::fs::create_dir(f.root.join(&n)).unwrap();
                } else {
                    let len = *c.t.pick(&[4usize, 0, 1, 511, 512, 4096, 5000, 100_000]);
                    std::fs::write(f.root.join(&n), vec![7u8; len]).unwrap();
                }
                log.push(format!("{} {n:?}", if isdir { "mkdir" } else { "create" }));
                model.insert(n, !isdir);
            }
            2 => {
                let fs: Vec<String> = model.iter().filter(|x| *x.1).map(|x| x.0.clone()).collect();
                if !fs.is_empty() {
                    let n = c.t.pick(&fs).clone();
                    std::fs::remove_file(f.root.join(&n)).unwrap();
                    model.remove(&n);
                    log.push(format!("remove {n:?}"));
                }
            }
            3 => {
                let fs: Vec<String> = model.iter().filter(|x| *x.1).map(|x| x.0.clone()).collect();
                if !fs.is_empty() {
                    let n = c.t.pick(&fs).clone();
                    let m = file_name(c);
                    if !model.contains_key(&m) {
                        std::fs::rename(f.root.join(&n), f.root.join(&m)).unwrap();
                        model.remove(&n);
                        log.push(format!("rename {n:?} to {m:?}"));
                        model.insert(m, true);
                    }
                }
            }
            _ => {
                let all: Vec<String> = model.keys().cloned().collect();
                let mut id = if !all.is_empty() && c.t.chance(3, 4) { c.t.pick(&all).clone() } else { file_name(c) };
                if c.t.chance(1, 4) {
                    id = near(c, id);
                }
                let seg = gen::escape(&mut c.t, id.as_bytes());
                let p = format!("/{seg}/{}", gen::good_tail(&mut c.t));
                // what the identifier leads to; unusual spellings of an existing file's name may be refused
                let odd = id.is_empty() || id.starts_with('/') || id.split('/').any(|p| p.is_empty() || p == "." || p == "..");
                let name = lexical("", &id).join("/");
                let nofile = id.ends_with('/') || id.ends_with("/.") || id.contains('\0');
                let exists = !nofile && model.get(&name) == Some(&true);
                log.push(format!("get {id:?}"));
                let r = match get_kept(&p) {
                    Ok(r) => r,
                    Err(e) => return fail("no-reply", format!("identifier {id:?}: {e}; server: {}", f.srv.panics())),
                };
                asked += 1;
                c.label(if exists { "hit" } else { "miss" });
                let want = if exists { 200 } else { 400 };
                if !odd || !exists {
                    ensure!(r.status == want, if exists { "existing-file-refused" } else if model.contains_key(&id) { "directory-served" } else { "missing-file-served" }, "identifier {id:?} should be answered {want}, got {}; history {log:?}", r.text());
                } else {
                    ensure!(r.status == 200 || r.status == 400, "wrong-status", "identifier {id:?} got {}", r.text());
                }
            }
        }
    }
    c.count("requests", asked);
    if asked > 0 {
        c.nontrivial();
    }
    c.describe(|| log.join("; "));
    Ok(())
}

fn base(id: &'static str, run: fn(&mut Ctx) -> R, rule: &'static str) -> Prop {
    Prop { rule, ..Prop::new(id, run) }
}
pub fn props() -> Vec<Prop> {
    let q = |n, s| Budget { cases: n, secs: s };
    let http = |mut p: Prop, cases| {
        p.workers = 2;
        p.timeout_s = 200;
        p.quick = q(cases, 20);
        p
    };
    let many = |mut p: Prop| {
        p.quick = q(6_000_000, 15);
        p
    };
    let mut c06 = http(base("C06", c06, "histories of 1-6 concurrent connections; non-trivial: more than one connection or more than one write"), 1_000_000);
    c06.directed = vec![("flood", c06_flood), ("many", c06_many), ("aborts", c06_aborts), ("soak", c06_soak)];
    vec![
        many(base("C01", c01, "region texts from a grammar with mutations and boundary numerals; non-trivial: longer than the keywords")),
        many(base("C02", c02, "size texts from a grammar with mutations and boundary numerals; non-trivial: not just max or a single character")),
        many(base("C03", c03, "rotation and quality.format texts from a grammar with mutations; all count")),
        many(base("C04", c04, "canonical paths of random requests, and paths with spoiled, missing and surplus segments; all count")),
        http(base("C05", c05, "paths with an offending segment; non-trivial: the path must be rejected"), 1_000_000),
        c06,
        http(base("C07", c07, "identifiers aimed at files outside the image directory; non-trivial: the identifier leads outside"), 1_000_000),
        http(base("C08", c08, "histories of create/mkdir/remove/rename/get; non-trivial: at least one request"), 1_000_000),
    ]
}
