//! The real laya-server binary in its own network namespace, and HTTP clients written from the RFCs.

use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vkit::{fail, Fail};

pub const PATIENCE: Duration = Duration::from_secs(10);

/// a directory of this process, removed when it ends
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("verif-{tag}-{}-{}", std::process::id(), rnd()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn rnd() -> u64 {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

pub struct Server {
    pub child: Child,
    pub dir: PathBuf,
    pub log: PathBuf,
    pub started: bool,
}
impl Server {
    pub fn start(path_arg: &Path, cwd: &Path, log: &Path, nofile: u64, alt: bool) -> Server {
        let var = if alt { "VERIF_SERVER_BIN_ALT" } else { "VERIF_SERVER_BIN" };
        let exe = std::env::var(var).or_else(|_| std::env::var("VERIF_SERVER_BIN")).expect("VERIF_SERVER_BIN is set by run.sh");
        for _try in 0..4 {
            let out = std::fs::File::create(log).expect("log");
            let mut c = Command::new(&exe);
            c.arg("--path").arg(path_arg).current_dir(cwd).stdin(Stdio::null()).stdout(out.try_clone().unwrap()).stderr(out);
            unsafe {
                c.pre_exec(move || {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let l = libc::rlimit { rlim_cur: nofile, rlim_max: nofile };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    Ok(())
                });
            }
            let child = c.spawn().expect("start laya-server");
            let mut s = Server { child, dir: path_arg.to_path_buf(), log: log.to_path_buf(), started: true };
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_secs(15) {
                if s.child.try_wait().ok().flatten().is_some() {
                    break;
                }
                // a worker that starts listening can disturb connections to the others: wait for all of them
                if get("/x/full/max/0/default.jpg").is_ok() {
                    std::thread::sleep(Duration::from_millis(60));
                    if (0..32).all(|_| get("/x/full/max/0/default.jpg").is_ok()) {
                        return s;
                    }
                }
                std::thread::sleep(Duration::from_millis(30));
            }
            drop(s);
            std::thread::sleep(Duration::from_millis(300));
        }
        let l = std::fs::read_to_string(log).unwrap_or_default();
        panic!("laya-server does not start: {}", l.chars().take(400).collect::<String>());
    }
    pub fn dead(&mut self) -> bool {
        self.child.try_wait().ok().flatten().is_some()
    }
    pub fn fds(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).map(|d| d.count()).unwrap_or(0)
    }
    pub fn panics(&self) -> String {
        let l = std::fs::read_to_string(&self.log).unwrap_or_default();
        l.lines().filter(|x| x.contains("panicked") || x.contains("not implemented")).take(3).collect::<Vec<_>>().join(" | ")
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
    pub status: u16,
    pub body: Vec<u8>,
}
impl Reply {
    pub fn text(&self) -> String {
        format!("{} {:?}", self.status, String::from_utf8_lossy(&self.body))
    }
}
pub fn addr() -> SocketAddr {
    ([127, 0, 0, 1], 43594).into()
}

/// no delayed acknowledgements (the server leaves Nagle's algorithm on)
fn quick(s: &TcpStream) {
    let v: i32 = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &v as *const _ as *const _, 4);
    }
}
pub struct H1 {
    pub s: TcpStream,
    buf: Vec<u8>,
    eof: bool,
    pub closing: bool,
}
impl H1 {
    pub fn open() -> std::io::Result<H1> {
        let s = TcpStream::connect_timeout(&addr(), PATIENCE)?;
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(PATIENCE))?;
        s.set_write_timeout(Some(PATIENCE))?;
        Ok(H1 { s, buf: vec![], eof: false, closing: false })
    }
    pub fn send(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.s.write_all(b)
    }
    fn more(&mut self) -> Result<(), String> {
        if self.eof {
            return Err("connection closed".into());
        }
        let mut b = [0u8; 16384];
        quick(&self.s);
        match self.s.read(&mut b) {
            Ok(0) => {
                self.eof = true;
                Ok(())
            }
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(())
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
            Err(e) => Err(format!("read: {e}")),
        }
    }
    fn line(&mut self) -> Result<String, String> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l = String::from_utf8_lossy(&self.buf[..i]).to_string();
                self.buf.drain(..i + 2);
                return Ok(l);
            }
            if self.eof {
                return Err(format!("connection closed inside a reply ({} bytes)", self.buf.len()));
            }
            self.more()?;
        }
    }
    fn take(&mut self, n: usize) -> Result<Vec<u8>, String> {
        while self.buf.len() < n {
            if self.eof {
                return Err("body cut short".into());
            }
            self.more()?;
        }
        Ok(self.buf.drain(..n).collect())
    }
    /// read one final reply
    pub fn reply(&mut self, head: bool) -> Result<Reply, String> {
        loop {
            let st = self.line()?;
            let mut it = st.splitn(3, ' ');
            let v = it.next().unwrap_or("");
            let code: u16 = it.next().and_then(|c| c.parse().ok()).ok_or(format!("bad status line {st:?}"))?;
            if !v.starts_with("HTTP/1.") {
                return Err(format!("bad status line {st:?}"));
            }
            let (mut len, mut chunked) = (None, false);
            let mut close = v == "HTTP/1.0";
            loop {
                let l = self.line()?;
                if l.is_empty() {
                    break;
                }
                let (k, v) = l.split_once(':').ok_or(format!("bad header {l:?}"))?;
                let v = v.trim();
                match k.to_ascii_lowercase().as_str() {
                    "content-length" => len = Some(v.parse::<usize>().map_err(|_| "bad length")?),
                    "transfer-encoding" => chunked = v.eq_ignore_ascii_case("chunked"),
                    "connection" => close = v.eq_ignore_ascii_case("close") || (close && !v.eq_ignore_ascii_case("keep-alive")),
                    _ => {}
                }
            }
            if (100..200).contains(&code) {
                continue;
            }
            let mut body = vec![];
            if head || code == 204 || code == 304 {
            } else if chunked {
                loop {
                    let l = self.line()?;
                    let n = usize::from_str_radix(l.split(';').next().unwrap().trim(), 16).map_err(|_| format!("bad chunk size {l:?}"))?;
                    if n == 0 {
                        while !self.line()?.is_empty() {}
                        break;
                    }
                    body.extend(self.take(n)?);
                    if self.take(2)? != b"\r\n" {
                        return Err("bad chunk end".into());
                    }
                }
            } else if let Some(n) = len {
                body = self.take(n)?;
            } else {
                while !self.eof {
                    self.more()?;
                }
                body = std::mem::take(&mut self.buf);
                close = true;
            }
            self.closing = close;
            return Ok(Reply { status: code, body });
        }
    }
    /// anything left that was not asked for? (does not wait)
    pub fn surplus(&mut self) -> Option<String> {
        let _ = self.s.set_nonblocking(true);
        let _ = self.more();
        let _ = self.s.set_nonblocking(false);
        if self.buf.is_empty() {
            None
        } else {
            Some(String::from_utf8_lossy(&self.buf).chars().take(80).collect())
        }
    }
    pub fn reset(self) {
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
        }
    }
    pub fn half_close(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
}
pub fn get(path: &str) -> Result<Reply, String> {
    let mut c = H1::open().map_err(|e| format!("connect: {e}"))?;
    c.send(format!("GET {path} HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n").as_bytes()).map_err(|e| format!("send: {e}"))?;
    c.reply(false)
}

thread_local! { static KEEP: RefCell<Option<H1>> = const { RefCell::new(None) }; }
/// over a kept connection (fresh when there is none)
pub fn get_kept(path: &str) -> Result<Reply, String> {
    KEEP.with(|k| {
        let mut k = k.borrow_mut();
        for last in [false, true] {
            let fresh = k.is_none();
            if fresh {
                *k = Some(H1::open().map_err(|e| format!("connect: {e}"))?);
            }
            let c = k.as_mut().unwrap();
            let r = match c.send(format!("GET {path} HTTP/1.1\r\nHost: a\r\n\r\n").as_bytes()) {
                Ok(()) => c.reply(false),
                Err(e) => Err(format!("send: {e}")),
            };
            match r {
                Ok(r) => {
                    if c.closing {
                        *k = None;
                    }
                    return Ok(r);
                }
                Err(e) => {
                    *k = None;
                    if fresh || last {
                        return Err(e);
                    }
                }
            }
        }
        unreachable!()
    })
}
pub fn drop_kept() {
    KEEP.with(|k| *k.borrow_mut() = None);
}

/// characters that may stand in a request path (RFC 3986 pchar and '/')
pub fn sendable(path: &str) -> bool {
    path.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/%".contains(&b))
}

#[cfg(not(verif_hooks))]
pub fn decode_over_http(path: &str) -> crate::observe::Seen {
    use crate::observe::Seen;
    if !sendable(path) || path.ends_with("info.json") || path.is_empty() {
        return Seen::Unsent;
    }
    crate::checks::with_plain_server(|| match get_kept(path) {
        Ok(r) if r.status == 200 => Seen::Accepted,
        Ok(r) if r.status == 400 && r.body != b"io error" => Seen::Rejected(String::from_utf8_lossy(&r.body).to_string()),
        Ok(r) if r.status == 400 => Seen::Accepted,
        Ok(_) => Seen::Unsent,
        Err(e) => Seen::Rejected(format!("no reply: {e}")),
    })
}

// ------------------------------------------------------------------ HTTP/2 (RFC 9113), enough for this server

pub struct H2 {
    s: TcpStream,
    buf: Vec<u8>,
    next: u32,
    pub done: std::collections::BTreeMap<u32, Reply>,
    open: std::collections::BTreeMap<u32, Reply>,
    pub reset: std::collections::BTreeSet<u32>,
    pub goaway: bool,
}
pub fn frame(ty: u8, flags: u8, id: u32, p: &[u8]) -> Vec<u8> {
    let mut f = vec![(p.len() >> 16) as u8, (p.len() >> 8) as u8, p.len() as u8, ty, flags];
    f.extend_from_slice(&id.to_be_bytes());
    f.extend_from_slice(p);
    f
}
fn hint(out: &mut Vec<u8>, first: u8, bits: u8, mut v: usize) {
    let max = (1usize << bits) - 1;
    if v < max {
        out.push(first | v as u8);
        return;
    }
    out.push(first | max as u8);
    v -= max;
    while v >= 128 {
        out.push((v % 128) as u8 | 128);
        v /= 128;
    }
    out.push(v as u8);
}
fn hstr(out: &mut Vec<u8>, s: &[u8]) {
    hint(out, 0, 7, s.len());
    out.extend_from_slice(s);
}
pub fn headers_block(method: &str, path: &str) -> Vec<u8> {
    let mut h = vec![];
    if method == "GET" {
        h.push(0x82);
    } else {
        h.push(0x02);
        hstr(&mut h, method.as_bytes());
    }
    h.push(0x86);
    h.push(0x04);
    hstr(&mut h, path.as_bytes());
    h.push(0x01);
    hstr(&mut h, b"a");
    h
}
pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
impl H2 {
    pub fn open() -> std::io::Result<H2> {
        let s = TcpStream::connect_timeout(&addr(), PATIENCE)?;
        s.set_nodelay(true)?;
        s.set_read_timeout(Some(PATIENCE))?;
        s.set_write_timeout(Some(PATIENCE))?;
        Ok(H2 { s, buf: vec![], next: 1, done: Default::default(), open: Default::default(), reset: Default::default(), goaway: false })
    }
    pub fn hello(&self) -> Vec<u8> {
        let mut v = PREFACE.to_vec();
        v.extend(frame(4, 0, 0, &[0, 1, 0, 0, 0, 0])); // header table size 0
        v
    }
    pub fn request(&mut self, method: &str, path: &str) -> (u32, Vec<u8>) {
        let id = self.next;
        self.next += 2;
        (id, frame(1, 0x5, id, &headers_block(method, path)))
    }
    pub fn send(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.s.write_all(b)
    }
    /// process frames until `want` streams are complete
    pub fn pump(&mut self, want: &[u32]) -> Result<(), String> {
        loop {
            if want.iter().all(|i| self.done.contains_key(i) || self.reset.contains(i)) {
                return Ok(());
            }
            while self.buf.len() >= 9 {
                let n = (self.buf[0] as usize) << 16 | (self.buf[1] as usize) << 8 | self.buf[2] as usize;
                if self.buf.len() < 9 + n {
                    break;
                }
                let f: Vec<u8> = self.buf.drain(..9 + n).collect();
                self.on_frame(f[3], f[4], u32::from_be_bytes(f[5..9].try_into().unwrap()) & 0x7fff_ffff, &f[9..])?;
            }
            if want.iter().all(|i| self.done.contains_key(i) || self.reset.contains(i)) {
                return Ok(());
            }
            let mut b = [0u8; 16384];
            quick(&self.s);
            match self.s.read(&mut b) {
                Ok(0) => return Err("connection closed".into()),
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) => return Err(format!("read: {e}")),
            }
        }
    }
    fn on_frame(&mut self, ty: u8, flags: u8, id: u32, p: &[u8]) -> Result<(), String> {
        match ty {
            4 if flags & 1 == 0 => self.s.write_all(&frame(4, 1, 0, &[])).map_err(|e| e.to_string())?,
            6 if flags & 1 == 0 => self.s.write_all(&frame(6, 1, 0, p)).map_err(|e| e.to_string())?,
            7 => self.goaway = true,
            3 => {
                self.reset.insert(id);
            }
            1 => {
                if flags & 4 == 0 {
                    return Err("continuation not expected".into());
                }
                let p = if flags & 0x20 != 0 { &p[5..] } else { p };
                let st = status_of(p)?;
                if st < 200 {
                    return Ok(());
                }
                if self.open.contains_key(&id) || self.done.contains_key(&id) {
                    return Err(format!("second reply on stream {id}"));
                }
                self.open.insert(id, Reply { status: st, body: vec![] });
                self.end(flags, id);
            }
            0 => {
                let r = self.open.get_mut(&id).ok_or(format!("data without headers on stream {id}"))?;
                r.body.extend_from_slice(p);
                self.end(flags, id);
            }
            _ => {}
        }
        Ok(())
    }
    fn end(&mut self, flags: u8, id: u32) {
        if flags & 1 != 0 {
            if let Some(r) = self.open.remove(&id) {
                self.done.insert(id, r);
            }
        }
    }
}
fn status_of(mut p: &[u8]) -> Result<u16, String> {
    loop {
        let b = *p.first().ok_or("empty header block")?;
        if b & 0xe0 == 0x20 {
            p = &p[1..]; // table size update (0)
            continue;
        }
        if b & 0x80 != 0 {
            return match b & 0x7f {
                8 => Ok(200),
                9 => Ok(204),
                10 => Ok(206),
                11 => Ok(304),
                12 => Ok(400),
                13 => Ok(404),
                14 => Ok(500),
                n => Err(format!("first header field has index {n}")),
            };
        }
        let idx = if b & 0x40 != 0 { b & 0x3f } else { b & 0x0f };
        if !(8..=14).contains(&idx) {
            return Err(format!("first header field name index {idx}"));
        }
        let l = p[1];
        let n = (l & 0x7f) as usize;
        let v = &p[2..2 + n];
        if l & 0x80 == 0 {
            return String::from_utf8_lossy(v).parse().map_err(|_| "status".into());
        }
        // Huffman digits: 0,1,2 are 00000..00010; 3..9 are 011001..011111
        let mut bits: Vec<u8> = v.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
        let mut out = 0u16;
        for _ in 0..3 {
            if bits.len() < 5 {
                return Err("short status".into());
            }
            let five = bits[..5].iter().fold(0u8, |a, b| a << 1 | b);
            if five < 3 {
                out = out * 10 + five as u16;
                bits.drain(..5);
            } else {
                let six = bits[..6].iter().fold(0u8, |a, b| a << 1 | b);
                if !(0b011001..=0b011111).contains(&six) {
                    return Err("status coding".into());
                }
                out = out * 10 + (six - 0b011001 + 3) as u16;
                bits.drain(..6);
            }
        }
        return Ok(out);
    }
}

/// fresh connections so that every worker is asked
pub fn alive(n: usize, path: &str, want: u16) -> Result<(), Fail> {
    // connections of earlier cases may still hold the server's descriptors for a moment
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 20 && matches!(get(path), Ok(r) if r.status == 400 && r.text().contains("io error")) {
        std::thread::sleep(Duration::from_millis(200));
    }
    for i in 0..n {
        match get(path) {
            Ok(r) if r.status == want => {}
            Ok(r) => return fail("probe-wrong-reply", format!("probe {i} of {n}: {path} got {}", r.text())),
            Err(e) => return fail("worker-not-serving", format!("probe {i} of {n}: no reply to GET {path}: {e}")),
        }
    }
    Ok(())
}
