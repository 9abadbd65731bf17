//! Case runner: parent process + worker processes, shrinking, replay files, evidence.

use crate::tape::{hash_bytes, splitmix, Tape};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { return Err($crate::Fail { sig: $sig.to_string(), msg: format!($($a)*) }); }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub t: Tape,
    pub tier: Tier,
    pub alt: bool,
    labels: Vec<String>,
    counts: Vec<(String, u64)>,
    nt: bool,
    pub want_desc: bool,
    desc: String,
}
impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }
    /// add n to a named counter reported in the evidence
    pub fn count(&mut self, l: &str, n: u64) {
        self.counts.push((l.to_string(), n));
    }
    /// this case satisfies the property's stated non-triviality rule
    pub fn nontrivial(&mut self) {
        self.nt = true;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if std::env::var_os("VKIT_TRACE").is_some() {
                eprintln!("DESC {s}");
            }
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Budget {
    pub cases: u64,
    pub secs: u64,
}
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx) -> R,
    pub directed: Vec<(&'static str, fn(&mut Ctx) -> R)>,
    pub quick: Budget,
    pub thorough: Budget,
    pub timeout_s: u64,
    pub workers: usize,
    pub mem_mb: u64,
    /// called once in every worker process before its first case
    pub init: Option<fn()>,
}
impl Prop {
    pub fn new(id: &'static str, run: fn(&mut Ctx) -> R) -> Prop {
        Prop {
            id,
            level: "exploration",
            rule: "",
            assumptions: &[],
            run,
            directed: vec![],
            quick: Budget { cases: 100_000, secs: 20 },
            thorough: Budget { cases: u64::MAX / 2, secs: 600 },
            timeout_s: 60,
            workers: 8,
            mem_mb: 0,
            init: None,
        }
    }
}

thread_local! { static LAST_PANIC: RefCell<Option<(String, String, u32)>> = const { RefCell::new(None) }; }
static QUIET: AtomicBool = AtomicBool::new(true);

/// Install the recording panic hook (worker processes and replays).
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let (file, line) =
            info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        eprintln!("PANIC {file}:{line}: {msg}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, file, line)));
    }));
}
pub fn take_panic() -> Option<(String, String, u32)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}
pub fn normalise(msg: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for c in msg.chars().take(160) {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(c);
        }
    }
    out
}
/// A panic as a failure; None if the panic came from the harness itself.
pub fn panic_fail(p: (String, String, u32)) -> Fail {
    let (msg, file, line) = p;
    let base = Path::new(&file).file_name().map(|s| s.to_string_lossy().to_string()).unwrap_or_default();
    if file.starts_with("src/") || file.contains("/vkit/") {
        return Fail { sig: "HARNESS".into(), msg: format!("harness panic at {file}:{line}: {msg}") };
    }
    Fail { sig: format!("panic:{base}:{}", normalise(&msg)), msg: format!("panic at {file}:{line}: {msg}") }
}
/// Run library code, turning a panic into a Fail.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(panic_fail(take_panic().unwrap_or(("?".into(), "?".into(), 0)))),
    }
}

#[derive(Clone, Debug)]
pub struct CaseOut {
    pub fail: Option<Fail>,
    pub labels: Vec<String>,
    pub counts: Vec<(String, u64)>,
    pub nt: bool,
    pub hash: u64,
    pub desc: String,
    pub tape: Vec<u64>,
}

const DIRECTED: u64 = 1 << 60;

fn case_seed(prop: &Prop, seed: u64, idx: u64) -> u64 {
    splitmix(hash_bytes(seed, prop.id.as_bytes()) ^ splitmix(idx))
}
fn run_one(f: fn(&mut Ctx) -> R, t: Tape, tier: Tier, want_desc: bool) -> CaseOut {
    let alt = std::env::var("VKIT_ALT").is_ok();
    let mut c = Ctx { t, tier, alt, labels: vec![], counts: vec![], nt: false, want_desc, desc: String::new() };
    let r = guard(|| f(&mut c));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(e) => Some(e),
    };
    let mut h = 0u64;
    for v in &c.t.rec {
        h = splitmix(h ^ v.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    }
    CaseOut { fail, labels: c.labels, counts: c.counts, nt: c.nt, hash: h, desc: c.desc, tape: c.t.rec }
}
fn run_index(prop: &Prop, seed: u64, idx: u64, tier: Tier, want: bool) -> CaseOut {
    if idx >= DIRECTED {
        let f = prop.directed[(idx - DIRECTED) as usize].1;
        return run_one(f, Tape::random(case_seed(prop, 7, idx)), tier, want);
    }
    run_one(prop.run, Tape::random(case_seed(prop, seed, idx)), tier, want)
}

// ---------------------------------------------------------------- worker

fn set_mem(mb: u64) {
    if mb > 0 && std::env::var("VKIT_NOLIMIT").is_err() {
        let l = libc::rlimit { rlim_cur: mb << 20, rlim_max: mb << 20 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
}
fn worker(prop: &Prop, seed: u64, tier: Tier, progress: &str) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    install_panic_hook();
    if let Some(f) = prop.init {
        f();
    }
    set_mem(prop.mem_mb);
    let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(progress).expect("progress file");
    let mut counter = 0u64;
    let mut mark = |idx: u64| {
        counter += 1;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&idx.to_le_bytes());
        b[8..].copy_from_slice(&counter.to_le_bytes());
        let _ = prog.write_at(&b, 0);
    };
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut said = 0usize;
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).expect("command");
        match v["cmd"].as_str().unwrap() {
            "batch" => {
                let start = v["start"].as_u64().unwrap();
                let n = v["n"].as_u64().unwrap();
                let mut labels: BTreeMap<String, u64> = BTreeMap::new();
                let mut counts: BTreeMap<String, u64> = BTreeMap::new();
                let mut hashes = vec![];
                let mut samples = vec![];
                let mut ran = 0u64;
                let mut fails = vec![];
                for idx in start..start + n {
                    mark(idx);
                    let want = said < 3 || idx >= DIRECTED;
                    let o = run_index(prop, seed, idx, tier, want);
                    ran += 1;
                    for l in o.labels {
                        *labels.entry(l).or_default() += 1;
                    }
                    for (l, n) in o.counts {
                        *counts.entry(l).or_default() += n;
                    }
                    if o.nt {
                        hashes.push(o.hash);
                        if want && !o.desc.is_empty() {
                            said += 1;
                            samples.push(o.desc.chars().take(600).collect::<String>());
                        }
                    }
                    if let Some(f) = o.fail {
                        fails.push(json!({"idx": idx, "sig": f.sig, "msg": f.msg, "tape": o.tape}));
                        if fails.len() >= 20 {
                            break;
                        }
                    }
                }
                mark(u64::MAX);
                let s = json!({"done": ran, "labels": labels, "counts": counts, "hashes": hashes, "samples": samples, "fails": fails});
                let _ = writeln!(out, "{}", s);
                let _ = out.flush();
            }
            "tape" => {
                let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                mark(0);
                let f = match v["directed"].as_str() {
                    Some(n) => prop.directed.iter().find(|d| d.0 == n).map(|d| d.1).unwrap_or(prop.run),
                    None => prop.run,
                };
                let o = run_one(f, Tape::replay(tape), tier, v["want"].as_bool().unwrap_or(false));
                mark(u64::MAX);
                let s = match &o.fail {
                    Some(f) => json!({"sig": f.sig, "msg": f.msg, "tape": o.tape, "desc": o.desc}),
                    None => json!({"ok": true, "tape": o.tape, "desc": o.desc}),
                };
                let _ = writeln!(out, "{}", s);
                let _ = out.flush();
            }
            _ => break,
        }
    }
}

// ---------------------------------------------------------------- parent side of a worker

struct Proc {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
    progress: PathBuf,
    stderr: PathBuf,
    hung: Arc<AtomicBool>,
    alive: Arc<AtomicBool>,
}
enum Reply {
    Msg(Value),
    Died { idx: u64, fail: Fail },
}
impl Proc {
    fn spawn(prop: &Prop, exe: &Path, alt: usize, seed: u64, tier: Tier, dir: &Path, name: &str) -> Proc {
        let progress = dir.join(format!("{name}.prog"));
        let stderr = dir.join(format!("{name}.err"));
        let _ = std::fs::remove_file(&progress);
        let mut c = Command::new(exe);
        c.arg("worker").arg(prop.id).arg(&progress);
        c.env("VERIF_SEED", seed.to_string());
        c.env("VERIF_TIER", if tier == Tier::Quick { "quick" } else { "thorough" });
        if alt > 0 {
            c.env("VKIT_ALT", alt.to_string());
        }
        c.stdin(Stdio::piped()).stdout(Stdio::piped());
        c.stderr(std::fs::File::create(&stderr).unwrap());
        let mut child = c.spawn().expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let hung = Arc::new(AtomicBool::new(false));
        let alive = Arc::new(AtomicBool::new(true));
        let (h, a, p, pid, limit) =
            (hung.clone(), alive.clone(), progress.clone(), child.id() as i32, prop.timeout_s);
        std::thread::spawn(move || {
            let mut last = (0u64, 0u64);
            let mut since = Instant::now();
            while a.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let cur = read_progress(&p);
                if cur != last {
                    last = cur;
                    since = Instant::now();
                }
                if cur.0 != u64::MAX && cur.1 > 0 && since.elapsed().as_secs() >= limit {
                    if a.load(Ordering::Relaxed) {
                        h.store(true, Ordering::Relaxed);
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                    }
                    break;
                }
            }
        });
        Proc { child, stdin, out, progress, stderr, hung, alive }
    }
    fn ask(&mut self, v: &Value) -> Reply {
        let _ = writeln!(self.stdin, "{v}");
        let _ = self.stdin.flush();
        let mut line = String::new();
        loop {
            line.clear();
            match self.out.read_line(&mut line) {
                Ok(n) if n > 0 => {
                    if line.starts_with('{') {
                        if let Ok(v) = serde_json::from_str(&line) {
                            return Reply::Msg(v);
                        }
                    }
                }
                _ => break,
            }
        }
        self.alive.store(false, Ordering::Relaxed);
        let st = self.child.wait().ok();
        let idx = read_progress(&self.progress).0;
        let err = tail(&self.stderr, 200_000);
        if self.hung.load(Ordering::Relaxed) {
            return Reply::Died { idx, fail: Fail { sig: "hang".into(), msg: "case did not finish in time".into() } };
        }
        let fail = crash_fail(&err, st.and_then(|s| s.signal()), st.and_then(|s| s.code()));
        Reply::Died { idx, fail }
    }
    fn stop(mut self) {
        self.alive.store(false, Ordering::Relaxed);
        drop(self.stdin);
        // give it a moment (sanitizers report leaks at exit), then end it
        for _ in 0..50 {
            if let Ok(Some(_)) = self.child.try_wait() {
                return;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn read_progress(p: &Path) -> (u64, u64) {
    match std::fs::read(p) {
        Ok(b) if b.len() >= 16 => (
            u64::from_le_bytes(b[..8].try_into().unwrap()),
            u64::from_le_bytes(b[8..16].try_into().unwrap()),
        ),
        _ => (0, 0),
    }
}
fn tail(p: &Path, n: u64) -> String {
    let Ok(mut f) = std::fs::File::open(p) else { return String::new() };
    let len = f.metadata().map(|m| m.len()).unwrap_or(0);
    if len > n {
        use std::io::Seek;
        let _ = f.seek(std::io::SeekFrom::Start(len - n));
    }
    let mut b = vec![];
    let _ = f.read_to_end(&mut b);
    String::from_utf8_lossy(&b).to_string()
}
fn crash_fail(err: &str, sig: Option<i32>, code: Option<i32>) -> Fail {
    // AddressSanitizer reports
    if let Some(p) = err.rfind("ERROR: AddressSanitizer: ") {
        let rest = &err[p + 25..];
        let kind = rest.split_whitespace().next().unwrap_or("?").to_string();
        let mut func = String::new();
        for l in rest.lines().take(40) {
            let l = l.trim();
            if l.starts_with('#') && (l.contains("openjp2") || l.contains("opj_")) {
                let f = l.split(" in ").nth(1).unwrap_or("").split_whitespace().next().unwrap_or("");
                let f = f.split("::h").next().unwrap_or(f);
                func = f.rsplit("::").next().unwrap_or(f).to_string();
                break;
            }
        }
        let head: String = rest.lines().take(14).collect::<Vec<_>>().join(" / ");
        return Fail { sig: format!("asan:{kind}:{func}"), msg: head.chars().take(1500).collect() };
    }
    let last_panic = err.lines().rev().find(|l| l.starts_with("PANIC ")).unwrap_or("").to_string();
    let last: String = {
        let v: Vec<&str> = err.lines().collect();
        let k = v.len().saturating_sub(6);
        v[k..].join(" / ").chars().take(800).collect()
    };
    let signame = match sig {
        Some(libc::SIGSEGV) => "SIGSEGV".to_string(),
        Some(libc::SIGABRT) => "SIGABRT".to_string(),
        Some(libc::SIGBUS) => "SIGBUS".to_string(),
        Some(libc::SIGILL) => "SIGILL".to_string(),
        Some(libc::SIGFPE) => "SIGFPE".to_string(),
        Some(libc::SIGTRAP) => "SIGTRAP".to_string(),
        Some(s) => format!("SIG{s}"),
        None => format!("exit{}", code.unwrap_or(-1)),
    };
    if sig == Some(libc::SIGKILL) {
        return Fail { sig: "HARNESS".into(), msg: format!("worker was killed (memory?): {last}") };
    }
    if sig.is_none() {
        return Fail { sig: "HARNESS".into(), msg: format!("worker ended early with {signame}: {last}") };
    }
    if sig == Some(libc::SIGABRT) && !last_panic.is_empty() && err.trim_end().contains("panic in a function that cannot unwind") {
        return Fail { sig: format!("abort:{}", normalise(last_panic.rsplit('/').next().unwrap_or(""))), msg: format!("abort on panic: {last_panic}") };
    }
    let oom = if err.contains("memory allocation of") { ":alloc" } else { "" };
    Fail { sig: format!("crash:{signame}{oom}"), msg: format!("{signame}: {last}") }
}

// ---------------------------------------------------------------- check

#[derive(Clone)]
struct Found {
    idx: u64,
    fail: Fail,
    tape: Option<Vec<u64>>,
    alt: usize,
    history: Vec<(u64, u64)>,
}
#[derive(Default)]
struct Agg {
    cases: u64,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    nts: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    found: Vec<Found>,
    harness: Vec<String>,
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
struct Known {
    sig: String,
    what: String,
    directed: Option<String>,
}
fn known_findings(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|f| f["property"] == id)
        .map(|f| Known {
            sig: f["sig"].as_str().unwrap_or("").to_string(),
            what: f["what"].as_str().unwrap_or("").to_string(),
            directed: f["directed"].as_str().map(|s| s.to_string()),
        })
        .collect()
}
fn tape_json(t: &[u64]) -> Value {
    Value::Array(t.iter().map(|&x| json!(x)).collect())
}

pub fn main(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let get = |id: &str| -> &Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no such property {id}");
            std::process::exit(2)
        })
    };
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            std::process::exit(0)
        }
        "worker" => {
            worker(get(&args[2]), seed, tier, &args[3]);
            std::process::exit(0)
        }
        "case" => {
            // debugging: run one generated case in-process
            QUIET.store(false, Ordering::Relaxed);
            install_panic_hook();
            let p = get(&args[2]);
            if let Some(f) = p.init {
                f();
            }
            let o = match args[3].parse::<u64>() {
                Ok(i) => run_index(p, seed, i, tier, true),
                Err(_) => {
                    let k = p.directed.iter().position(|d| d.0 == args[3]).expect("directed case");
                    run_index(p, seed, DIRECTED + k as u64, tier, true)
                }
            };
            println!("labels {:?}\nnontrivial {}\ndesc {}\nfail {:?}", o.labels, o.nt, o.desc, o.fail);
            std::process::exit(if o.fail.is_some() { 1 } else { 0 })
        }
        "shrink" => {
            // debugging: minimise one generated case
            let p = get(&args[2]);
            let idx = args[3].parse().unwrap();
            let dir = scratch();
            let mut f = Found { idx, fail: Fail { sig: String::new(), msg: String::new() }, tape: None, alt: 0, history: vec![] };
            f.tape = record_tape(p, seed, tier, &dir, &f);
            match confirm(p, seed, tier, &dir, &f, &[]) {
                Some((path, fl)) => {
                    let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
                    println!("{}: {}\n{}\n{}", fl.sig, fl.msg, v["desc"].as_str().unwrap_or(""), path.display());
                }
                None => println!("not reproduced"),
            }
            let _ = std::fs::remove_dir_all(&dir);
            std::process::exit(0)
        }
        "here" => {
            // debugging: run the minimised case of a replay file in this process
            QUIET.store(false, Ordering::Relaxed);
            install_panic_hook();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let p = get(v["property"].as_str().unwrap());
            if let Some(f) = p.init {
                f();
            }
            let f = match v["directed"].as_str() {
                Some(n) => p.directed.iter().find(|d| d.0 == n).map(|d| d.1).unwrap_or(p.run),
                None => p.run,
            };
            let tape = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let o = run_one(f, Tape::replay(tape), tier, true);
            println!("labels {:?}\nnontrivial {}\ndesc {}\nfail {:?}", o.labels, o.nt, o.desc, o.fail);
            std::process::exit(if o.fail.is_some() { 1 } else { 0 })
        }
        "replay" => std::process::exit(replay(&get, &args[2], tier)),
        "check" => std::process::exit(check(get(&args[2]), seed, tier)),
        _ => {
            eprintln!("usage: check ID | replay FILE | case ID N | list");
            std::process::exit(2)
        }
    }
}

/// the other builds which run the check in turn with the first: VKIT_ALT_EXE, separated by ':'
fn alts() -> Vec<PathBuf> {
    std::env::var("VKIT_ALT_EXE").map(|s| s.split(':').filter(|p| !p.is_empty()).map(PathBuf::from).collect()).unwrap_or_default()
}
fn exe_for(alt: usize) -> PathBuf {
    if alt > 0 {
        if let Some(p) = alts().get(alt - 1) {
            return p.clone();
        }
    }
    if let Ok(p) = std::env::var("VKIT_EXE") {
        return PathBuf::from(p);
    }
    std::env::current_exe().unwrap()
}
fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("vkit-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn replay<'a>(get: &dyn Fn(&str) -> &'a Prop, file: &str, tier: Tier) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let p = get(v["property"].as_str().unwrap());
    let dir = scratch();
    let alt = v["alt"].as_u64().unwrap_or(0) as usize;
    let seed = v["seed"].as_u64().unwrap_or(1);
    let mut pr = Proc::spawn(p, &exe_for(alt), alt, seed, tier, &dir, "r");
    let mut bad = false;
    if let Some(h) = v["history"].as_array() {
        for r in h {
            match pr.ask(&json!({"cmd":"batch","start":r[0],"n":r[1]})) {
                Reply::Msg(m) => {
                    for f in m["fails"].as_array().unwrap() {
                        println!("FAIL {} {}", f["sig"], f["msg"]);
                        bad = true;
                    }
                }
                Reply::Died { fail, .. } => {
                    println!("DIED {} {}", fail.sig, fail.msg);
                    bad = true;
                    break;
                }
            }
        }
    } else {
        match pr.ask(&json!({"cmd":"tape","tape":v["tape"],"want":true,"directed":v["directed"]})) {
            Reply::Msg(m) => {
                println!("{}", serde_json::to_string_pretty(&json!({"sig":m["sig"],"msg":m["msg"],"desc":m["desc"]})).unwrap());
                bad = m["ok"].is_null();
            }
            Reply::Died { fail, .. } => {
                println!("DIED {} {}", fail.sig, fail.msg);
                bad = true;
            }
        }
    }
    pr.stop();
    let _ = std::fs::remove_dir_all(&dir);
    if bad {
        println!("VIOLATION property={} replay={}", p.id, file);
        1
    } else {
        println!("replay passes");
        0
    }
}

fn check(prop: &Prop, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let known = known_findings(prop.id);
    let b = if tier == Tier::Quick { &prop.quick } else { &prop.thorough };
    let secs = std::env::var("VKIT_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(b.secs);
    let max_cases = std::env::var("VKIT_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(b.cases);
    let deadline = t0 + Duration::from_secs(secs);
    let next = AtomicU64::new(0);
    let dnext = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let n_alt = alts().len();
    let workers = std::env::var("VKIT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(prop.workers);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (agg, next, dnext, stop, dir, known) = (&agg, &next, &dnext, &stop, &dir, &known);
            s.spawn(move || {
                let alt = w as usize % (n_alt + 1);
                let exe = exe_for(alt);
                let name = format!("w{w}");
                let mut pr = Proc::spawn(prop, &exe, alt, seed, tier, dir, &name);
                let mut history: Vec<(u64, u64)> = vec![];
                let mut chunk = 1u64;
                let mut todo: Vec<(u64, u64)> = vec![];
                let mut died = 0;
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let (start, n) = if let Some(x) = todo.pop() {
                        x
                    } else {
                        let d = dnext.fetch_add(1, Ordering::Relaxed);
                        if d < prop.directed.len() as u64 {
                            (DIRECTED + d, 1)
                        } else {
                            if Instant::now() > deadline {
                                break;
                            }
                            let st = next.fetch_add(chunk, Ordering::Relaxed);
                            if st >= max_cases {
                                break;
                            }
                            (st, chunk.min(max_cases - st))
                        }
                    };
                    let tb = Instant::now();
                    history.push((start, n));
                    match pr.ask(&json!({"cmd":"batch","start":start,"n":n})) {
                        Reply::Msg(m) => {
                            let el = tb.elapsed();
                            if start < DIRECTED {
                                if el < Duration::from_millis(150) && chunk < 4096 {
                                    chunk *= 2
                                } else if el > Duration::from_millis(600) && chunk > 1 {
                                    chunk /= 2
                                }
                            }
                            let mut a = agg.lock().unwrap();
                            a.cases += m["done"].as_u64().unwrap();
                            for (k, v) in m["labels"].as_object().unwrap() {
                                *a.labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
                            }
                            for (k, v) in m["counts"].as_object().unwrap() {
                                *a.counts.entry(k.clone()).or_default() += v.as_u64().unwrap();
                            }
                            for h in m["hashes"].as_array().unwrap() {
                                a.nts += 1;
                                if a.distinct.len() < 5_000_000 {
                                    a.distinct.insert(h.as_u64().unwrap());
                                }
                            }
                            for s in m["samples"].as_array().unwrap() {
                                a.samples.push(s.as_str().unwrap().to_string());
                            }
                            let done = m["done"].as_u64().unwrap();
                            if done < n {
                                todo.push((start + done, n - done));
                            }
                            for f in m["fails"].as_array().unwrap() {
                                let fail = Fail {
                                    sig: f["sig"].as_str().unwrap().into(),
                                    msg: f["msg"].as_str().unwrap().into(),
                                };
                                let tape = f["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                                note(&mut a, known, stop, Found {
                                    idx: f["idx"].as_u64().unwrap(),
                                    fail,
                                    tape: Some(tape),
                                    alt,
                                    history: history.clone(),
                                });
                            }
                        }
                        Reply::Died { idx, fail } => {
                            died += 1;
                            let mut a = agg.lock().unwrap();
                            let inside = idx >= start && idx < start + n;
                            if inside {
                                let done = idx + 1 - start;
                                a.cases += done;
                                if done < n {
                                    todo.push((idx + 1, n - done));
                                }
                            }
                            note(&mut a, known, stop, Found { idx: if inside { idx } else { start }, fail, tape: None, alt, history: history.clone() });
                            drop(a);
                            if died > 200 {
                                break;
                            }
                            pr = Proc::spawn(prop, &exe, alt, seed, tier, dir, &name);
                            history.clear();
                        }
                    }
                }
                pr.stop();
            });
        }
    });
    let mut a = agg.into_inner().unwrap();
    let mut violations = 0;
    let mut out_line = None;
    let mut notes: Vec<String> = vec![];
    let mut rc = 0;
    // confirm what was found
    let mut cands = std::mem::take(&mut a.found);
    cands.sort_by_key(|f| (f.tape.is_none(), f.tape.as_ref().map(|t| t.len()).unwrap_or(0)));
    let n_cands = cands.len();
    // when exploring by hand: a reproduction of every kind of failure
    let all = std::env::var("VKIT_KEEP_GOING").is_ok();
    let mut kinds: Vec<String> = vec![];
    for f in cands.into_iter().take(if all { usize::MAX } else { 6 }) {
        if kinds.contains(&f.fail.sig) {
            continue;
        }
        match confirm(prop, seed, tier, &dir, &f, &known) {
            Some(rep) => {
                violations += 1;
                out_line = Some(rep);
                if !all {
                    break;
                }
                kinds.push(f.fail.sig.clone());
            }
            None => notes.push(format!("case {} failed once ({}: {}) but did not fail again alone or with its history", f.idx, f.fail.sig, f.fail.msg.chars().take(200).collect::<String>())),
        }
    }
    if !a.harness.is_empty() && violations == 0 {
        rc = 2;
        eprintln!("HARNESS ERROR: {}", a.harness[0]);
    }
    for k in &known {
        let hits = a.known.get(&k.sig).copied().unwrap_or(0);
        if hits > 0 || k.directed.is_none() {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
        }
    }
    let mut samples: Vec<String> = vec![];
    let step = (a.samples.len() / 8).max(1);
    for (i, s) in a.samples.iter().enumerate() {
        if i % step == 0 && samples.len() < 8 {
            samples.push(s.clone());
        }
    }
    let ev = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": a.cases,
            "nontrivial": a.nts,
            "distinct_nontrivial": a.distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "labels": a.labels,
            "counters": a.counts,
            "directed_cases": prop.directed.iter().map(|d| d.0).collect::<Vec<_>>(),
            "known_finding_hits": a.known,
            "unconfirmed": notes,
            "candidates_seen": n_cands,
            "builds": match n_alt {0 => "single build", 1 => "checked (debug assertions, overflow checks) and plain release, alternating by worker", _ => "checked (debug assertions, overflow checks), plain release and AddressSanitizer, in turn by worker"},
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let ed = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    eprintln!("{}: {} cases, {} nontrivial ({} distinct), {:.1}s", prop.id, a.cases, a.nts, a.distinct.len(), t0.elapsed().as_secs_f64());
    for n in notes {
        eprintln!("note: {n}");
    }
    if let Some((file, f)) = out_line {
        println!("{}: {}", f.sig, f.msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", prop.id, file.display());
        return 1;
    }
    rc
}

fn note(a: &mut Agg, known: &[Known], stop: &AtomicBool, f: Found) {
    if f.fail.sig == "HARNESS" {
        a.harness.push(format!("case {}: {}", f.idx, f.fail.msg));
        stop.store(true, Ordering::Relaxed);
        return;
    }
    if known.iter().any(|k| k.sig == f.fail.sig) {
        *a.known.entry(f.fail.sig.clone()).or_default() += 1;
        return;
    }
    a.found.push(f);
    if std::env::var("VKIT_KEEP_GOING").is_err() {
        stop.store(true, Ordering::Relaxed);
    } else {
        let f = a.found.last().unwrap();
        if a.found.iter().filter(|g| g.fail.sig == f.fail.sig).count() == 1 {
            eprintln!("[found idx {} alt {}] {}: {}", f.idx, f.alt, f.fail.sig, f.fail.msg.chars().take(400).collect::<String>());
        }
    }
}

struct Runner<'a> {
    prop: &'a Prop,
    seed: u64,
    tier: Tier,
    dir: &'a Path,
    alt: usize,
    directed: Option<String>,
    pr: Option<Proc>,
    n: usize,
}
impl Runner<'_> {
    fn get(&mut self) -> &mut Proc {
        if self.pr.is_none() {
            self.n += 1;
            self.pr = Some(Proc::spawn(self.prop, &exe_for(self.alt), self.alt, self.seed, self.tier, self.dir, &format!("s{}", self.n % 4)));
        }
        self.pr.as_mut().unwrap()
    }
    /// run a tape: Some((fail, normalised tape, desc)) when it fails
    fn tape(&mut self, t: &[u64], want: bool) -> Option<(Fail, Vec<u64>, String)> {
        let d = self.directed.clone();
        match self.get().ask(&json!({"cmd":"tape","tape":tape_json(t),"want":want,"directed":d})) {
            Reply::Msg(m) => {
                if m["ok"].as_bool() == Some(true) {
                    return None;
                }
                let tp = m["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                Some((Fail { sig: m["sig"].as_str().unwrap().into(), msg: m["msg"].as_str().unwrap().into() }, tp, m["desc"].as_str().unwrap_or("").to_string()))
            }
            Reply::Died { fail, .. } => {
                self.pr = None;
                Some((fail, t.to_vec(), String::new()))
            }
        }
    }
    fn fresh(&mut self) {
        if let Some(p) = self.pr.take() {
            p.stop();
        }
    }
}

fn confirm(prop: &Prop, seed: u64, tier: Tier, dir: &Path, f: &Found, known: &[Known]) -> Option<(PathBuf, Fail)> {
    let mut r = Runner { prop, seed, tier, dir, alt: f.alt, directed: None, pr: None, n: 0 };
    if f.idx >= DIRECTED && (f.idx - DIRECTED) < prop.directed.len() as u64 {
        r.directed = Some(prop.directed[(f.idx - DIRECTED) as usize].0.to_string());
    }
    // the tape of a crashed case is regenerated by recording, which needs no library call to finish:
    // a generated case is replayed by its index instead.
    let is_known = |s: &str| known.iter().any(|k| k.sig == s) || s == "HARNESS";
    let tape = f.tape.clone();
    if let Some(tape) = tape {
        for _ in 0..3 {
            r.fresh();
            if let Some((fl, tp, _)) = r.tape(&tape, false) {
                if is_known(&fl.sig) {
                    continue;
                }
                let (tp, fl) = shrink(&mut r, tp, fl, if tier == Tier::Quick { 60 } else { 240 });
                r.fresh();
                let desc = r.tape(&tp, true).map(|x| x.2).unwrap_or_default();
                r.fresh();
                let rep = json!({"property": prop.id, "sig": fl.sig, "msg": fl.msg, "desc": desc, "seed": seed, "alt": f.alt, "directed": r.directed, "index": f.idx, "tape": tape_json(&tp)});
                return Some((write_replay(prop, &rep), fl));
            }
        }
        r.fresh();
    } else {
        // crash: reproduce by index in a fresh process
        for _ in 0..3 {
            r.fresh();
            match r.get().ask(&json!({"cmd":"batch","start":f.idx,"n":1})) {
                Reply::Died { fail, .. } => {
                    r.pr = None;
                    if is_known(&fail.sig) {
                        continue;
                    }
                    // obtain the tape with a dry recording: generation precedes the crash, so ask for the
                    // tape through a forked recorder
                    let tp = record_tape(prop, seed, tier, dir, f);
                    if let (Some(tp), true) = (tp, fail.sig != "hang") {
                        if let Some((fl, tp, _)) = r.tape(&tp, false) {
                            let (tp, fl) = shrink(&mut r, tp, fl, if tier == Tier::Quick { 60 } else { 240 });
                            r.fresh();
                            let rep = json!({"property": prop.id, "sig": fl.sig, "msg": fl.msg, "seed": seed, "alt": f.alt, "directed": r.directed, "index": f.idx, "tape": tape_json(&tp)});
                            return Some((write_replay(prop, &rep), fl));
                        }
                    }
                    let rep = json!({"property": prop.id, "sig": fail.sig, "msg": fail.msg, "seed": seed, "alt": f.alt, "index": f.idx, "history": [[f.idx, 1]]});
                    return Some((write_replay(prop, &rep), fail));
                }
                Reply::Msg(m) => {
                    if let Some(x) = m["fails"].as_array().and_then(|v| v.first()) {
                        let fail = Fail { sig: x["sig"].as_str().unwrap().into(), msg: x["msg"].as_str().unwrap().into() };
                        if !is_known(&fail.sig) {
                            let rep = json!({"property": prop.id, "sig": fail.sig, "msg": fail.msg, "seed": seed, "alt": f.alt, "index": f.idx, "tape": x["tape"]});
                            return Some((write_replay(prop, &rep), fail));
                        }
                    }
                }
            }
        }
        r.fresh();
    }
    // depends on what ran before in the process: replay the history of that worker
    let run_hist = |r: &mut Runner, h: &[(u64, u64)]| -> Option<Fail> {
        r.fresh();
        let mut got = None;
        for &(s, n) in h {
            match r.get().ask(&json!({"cmd":"batch","start":s,"n":n})) {
                Reply::Msg(m) => {
                    for x in m["fails"].as_array().unwrap() {
                        let sig = x["sig"].as_str().unwrap();
                        if !is_known(sig) {
                            got = Some(Fail { sig: sig.into(), msg: x["msg"].as_str().unwrap().into() });
                        }
                    }
                }
                Reply::Died { fail, .. } => {
                    r.pr = None;
                    if !is_known(&fail.sig) {
                        got = Some(fail);
                    }
                }
            }
            if got.is_some() {
                break;
            }
        }
        got
    };
    let mut h = f.history.clone();
    if let Some(fl) = run_hist(&mut r, &h) {
        let t0 = Instant::now();
        let mut best = (h.clone(), fl);
        while h.len() > 1 && t0.elapsed().as_secs() < 60 {
            let cut = h.len() / 2;
            let cand: Vec<_> = h[cut..].to_vec();
            match run_hist(&mut r, &cand) {
                Some(fl) => {
                    best = (cand.clone(), fl);
                    h = cand;
                }
                None => break,
            }
        }
        r.fresh();
        let rep = json!({"property": prop.id, "sig": best.1.sig, "msg": best.1.msg, "seed": seed, "alt": f.alt, "index": f.idx, "history": best.0.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()});
        return Some((write_replay(prop, &rep), best.1));
    }
    r.fresh();
    None
}
/// A crashed case never returned its tape; its random choices are the generator's stream, so replaying
/// them with raw generator output as tape entries reproduces them except for the range reduction.  Run the
/// case in a child that writes the tape as it grows.
fn record_tape(prop: &Prop, seed: u64, tier: Tier, dir: &Path, f: &Found) -> Option<Vec<u64>> {
    let file = dir.join("tape.rec");
    let _ = std::fs::remove_file(&file);
    std::env::set_var("VKIT_TAPE_OUT", &file);
    let mut p = Proc::spawn(prop, &exe_for(f.alt), f.alt, seed, tier, dir, "rec");
    std::env::remove_var("VKIT_TAPE_OUT");
    let _ = p.ask(&json!({"cmd":"batch","start":f.idx,"n":1}));
    let b = std::fs::read(&file).ok()?;
    Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}
fn write_replay(prop: &Prop, rep: &Value) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let s = serde_json::to_string(rep).unwrap();
    let h = hash_bytes(0, s.as_bytes());
    let p = d.join(format!("{}-{:012x}.json", prop.id, h & 0xffff_ffff_ffff));
    let _ = std::fs::write(&p, s + "\n");
    p
}

fn shrink(r: &mut Runner, tape: Vec<u64>, fail: Fail, secs: u64) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let want = fail.sig.clone();
    let mut best = tape;
    while best.last() == Some(&0) {
        best.pop();
    }
    let mut bf = fail;
    let mut tried: HashSet<Vec<u64>> = HashSet::new();
    let mut budget = 3000usize;
    macro_rules! attempt {
        ($cand:expr) => {{
            let c: Vec<u64> = $cand;
            if budget == 0 || t0.elapsed().as_secs() >= secs || c == best || !tried.insert(c.clone()) {
                false
            } else {
                budget -= 1;
                match r.tape(&c, false) {
                    Some((f, mut tp, _)) if f.sig == want => {
                        while tp.last() == Some(&0) {
                            tp.pop();
                        }
                        if (tp.len(), &tp) < (best.len(), &best) {
                            best = tp;
                            bf = f;
                            true
                        } else {
                            false
                        }
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 {
            if best.len() > k {
                let c = best[..best.len() - k].to_vec();
                if attempt!(c) {
                    continue;
                }
            }
            k /= 2;
        }
        // delete / zero chunks
        for size in [32usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if attempt!(c) {
                    continue;
                }
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if attempt!(c) {
                        continue;
                    }
                }
                i += size;
                if budget == 0 || t0.elapsed().as_secs() >= secs {
                    break;
                }
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                while lo < hi && budget > 0 && t0.elapsed().as_secs() < secs {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt!(c) {
                        hi = mid;
                        if i >= best.len() {
                            break;
                        }
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 || t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    (best, bf)
}
