//! Small core shared by the checks: counters, evidence, violations, known findings,
//! panic capture, watchdog, choice-sequence exploration.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod choice;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const i8, flags: i32, ...) -> i32;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    root: String,
    start: Instant,
    deadline: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    progress: AtomicU64,
    capped: AtomicBool,
    stop: AtomicBool,
    nviol: AtomicUsize,
    inner: Mutex<Inner>,
    out: Mutex<std::fs::File>,
}

#[derive(Default)]
struct Inner {
    samples: Vec<Value>,
    assumptions: Vec<String>,
    bounds: Map<String, Value>,
    counts: BTreeMap<String, u64>,
    known: Vec<(String, String)>,
    known_hit: Vec<String>,
    caps: Vec<String>,
    current: String,
}

thread_local! {
    static CAPTURE: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CATCHING: RefCell<u32> = const { RefCell::new(0) };
}

/// A panic caught from the code under test.
#[derive(Clone, Debug)]
pub struct Panicked { pub msg: String, pub at: String }

/// Runs code under test; a panic becomes an error value.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    CATCHING.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| {
        let (msg, at) = CAPTURE.with(|c| c.borrow_mut().take()).unwrap_or_default();
        Panicked { msg, at }
    })
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".into() };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = CAPTURE.try_with(|c| *c.borrow_mut() = Some((msg.clone(), at.clone())));
        let catching = CATCHING.try_with(|c| *c.borrow()).unwrap_or(1);
        if catching == 0 || std::env::var_os("MC_DEBUG").is_some() { eprintln!("panic at {at}: {msg}"); }
    }));
}

impl Ctx {
    pub fn counted(&self) -> (u64, u64, u64) { (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed)) }
    /// distinct states seen, steps taken, executions of the implementation compared with the oracle
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
        self.progress.fetch_add(1, Relaxed);
    }
    pub fn tick(&self) { self.progress.fetch_add(1, Relaxed); }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 { i.samples.push(v); }
    }
    pub fn assume(&self, s: &str) {
        let mut i = self.inner.lock().unwrap();
        if !i.assumptions.iter().any(|x| x == s) { i.assumptions.push(s.into()); }
    }
    pub fn bound(&self, k: &str, v: impl Into<Value>) { self.inner.lock().unwrap().bounds.insert(k.into(), v.into()); }
    pub fn count(&self, k: &str, n: u64) { *self.inner.lock().unwrap().counts.entry(k.into()).or_insert(0) += n; }
    /// Part of the exploration that a replay may select; the label also names the place for the watchdog.
    pub fn part(&self, label: &str) -> bool {
        if let Some(o) = &self.only { if !label.contains(o.as_str()) { return false; } }
        self.inner.lock().unwrap().current = label.to_string();
        self.tick();
        !self.stopped()
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) { return true; }
        if Instant::now() > self.deadline { self.cap("time"); return true; }
        false
    }
    pub fn cap(&self, what: &str) {
        self.capped.store(true, Relaxed);
        let mut i = self.inner.lock().unwrap();
        let s = format!("{what} cap reached in: {}", i.current);
        if !i.caps.contains(&s) { i.caps.push(s); }
    }
    /// Reports a violation, unless the committed known-findings file lists exactly this key.
    pub fn violation(&self, key: &str, what: &str, detail: Value) {
        let known = { let i = self.inner.lock().unwrap(); i.known.iter().find(|(k, _)| k == key).cloned() };
        if let Some((k, w)) = known {
            let mut i = self.inner.lock().unwrap();
            if !i.known_hit.contains(&k) {
                i.known_hit.push(k.clone());
                let _ = writeln!(self.out.lock().unwrap(), "KNOWN-FINDING: property={} {} [{}]", self.prop, w, k);
            }
            return;
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        if n == 0 {
            let path = format!("{}/evidence/{}.replay.json", self.root, self.prop);
            let label = self.inner.lock().unwrap().current.clone();
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
            let doc = json!({"property": self.prop, "key": key, "what": what, "detail": detail,
                "tier": if self.quick() {"quick"} else {"thorough"}, "seed": self.seed,
                "part": label.clone(),
                "replay_cmd": format!("cd {} && ./check {} {} --only '{}'", self.root, self.prop, if self.quick() {"quick"} else {"thorough"}, label)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
            let mut o = self.out.lock().unwrap();
            let _ = writeln!(o, "{}: {}", key, what);
            let _ = writeln!(o, "VIOLATION property={} replay={}", self.prop, path);
            let _ = o.flush();
        }
        self.stop.store(true, Relaxed);
    }
    pub fn violated(&self) -> bool { self.nviol.load(Relaxed) > 0 }
    pub fn say(&self, s: &str) { let _ = writeln!(self.out.lock().unwrap(), "{s}"); }

    fn finish(&self) -> i32 {
        let i = self.inner.lock().unwrap();
        let (s, t, tr) = self.counted();
        let mut cov = Map::new();
        cov.insert("states".into(), json!(s));
        cov.insert("transitions".into(), json!(t));
        cov.insert("traces_validated_against_impl".into(), json!(tr));
        cov.insert("samples".into(), Value::Array(i.samples.clone()));
        cov.insert("exhaustive".into(), json!(!self.capped.load(Relaxed) && self.only.is_none() && !self.violated()));
        cov.insert("bounds".into(), Value::Object(i.bounds.clone()));
        cov.insert("counts".into(), json!(i.counts));
        cov.insert("caps_reached".into(), json!(i.caps));
        cov.insert("known_findings_seen".into(), json!(i.known_hit));
        let doc = json!({"property": self.prop, "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": self.seed, "level": "model_checking", "coverage": cov, "assumptions": i.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": self.nviol.load(Relaxed)});
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        std::fs::write(format!("{}/evidence/{}.json", self.root, self.prop), serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        let _ = writeln!(self.out.lock().unwrap(), "{} {}: states={} transitions={} executions={} violations={} capped={} wall={:.1}s",
            self.prop, if self.quick() {"quick"} else {"thorough"}, s, t, tr, self.nviol.load(Relaxed), self.capped.load(Relaxed), self.start.elapsed().as_secs_f64());
        if self.violated() { 1 } else { 0 }
    }

    /// One thread makes the calls 0..n in an order in which every ordered pair occurs in a row.
    /// `f` makes and judges a call; false ends the walk.
    pub fn pairs(&self, n: usize, mut f: impl FnMut(usize) -> bool) {
        let mut walk = vec![];
        for i in 0..n { walk.push(i); for j in i + 1..n { walk.extend([i, j]); } }
        walk.push(0);
        for c in walk {
            if self.stopped() || !f(c) { return; }
            self.add(1, 1, 1);
            self.tick();
        }
    }
    /// Splits 0..n over worker threads.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let cur = self.inner.lock().unwrap().current.clone();
        let w = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1));
        let bad: Mutex<Option<Panicked>> = Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..w {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() { break; }
                        if let Err(p) = catch(|| f(i)) {
                            *bad.lock().unwrap() = Some(p);
                            self.stop.store(true, Relaxed);
                            break;
                        }
                        self.tick();
                    }
                });
            }
        });
        self.inner.lock().unwrap().current = cur;
        if let Some(p) = bad.into_inner().unwrap() { self.escaped(&p); }
    }

    /// A panic no check expected. From the code under test, or over a result whose form no check foresaw,
    /// it is a violation; from the harness itself (I/O, threads) an error.
    fn escaped(&self, p: &Panicked) {
        const FORM: [&str; 9] = ["index out of bounds", "out of range for slice", "slice index starts at", "on a `None` value", "attempt to ", "split_at", "mid > len", "source slice length", "copy_from_slice"];
        if p.at.contains("/repo/") {
            self.violation("panic", &format!("code under test panicked at {}: {}", p.at, p.msg), json!({"at": p.at, "msg": p.msg}));
        } else if p.at.contains("/registry/") || FORM.iter().any(|f| p.msg.contains(f)) {
            self.violation("malformed", &format!("a result of the code under test has a form that cannot be processed ({} at {})", p.msg, p.at), json!({"at": p.at, "msg": p.msg}));
        } else {
            eprintln!("harness error: panic at {}: {}", p.at, p.msg);
            if !self.violated() { std::process::exit(2); }
        }
    }
}

pub type Check = fn(&Ctx);

/// Entry point of a harness binary: `<bin> <property> <quick|thorough> [--only LABEL] [--root DIR]`.
pub fn main(checks: &'static [(&'static str, Check)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let tier = match args.get(2).map(|s| s.as_str()) { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let root = opt("--root").unwrap_or_else(|| "/verif".into());
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    // verdict lines go to the real stdout, the chatter of the code under test to /dev/null
    let out = unsafe {
        let fd = dup(1);
        if std::env::var_os("MC_DEBUG").is_none() {
            let null = open(c"/dev/null".as_ptr() as *const i8, 1);
            dup2(null, 1);
        }
        std::fs::File::from_raw_fd(fd)
    };
    install_hook();
    let known = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    let mut inner = Inner::default();
    for l in known.lines() {
        // known: property=<id> key=<key> <what>
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let k = it.next().unwrap_or("").trim_start_matches("key=");
            if p == prop { inner.known.push((k.into(), it.next().unwrap_or("").into())); }
        }
    }
    let budget = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 3000 });
    let now = Instant::now();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        prop, tier, seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only: opt("--only"), root, start: now, deadline: now + Duration::from_secs(budget),
        states: 0.into(), transitions: 0.into(), traces: 0.into(), progress: 0.into(),
        capped: false.into(), stop: false.into(), nviol: 0.into(), inner: Mutex::new(inner), out: Mutex::new(out),
    }));
    let hang: u64 = opt("--hang").and_then(|s| s.parse().ok()).unwrap_or(90);
    std::thread::spawn(move || {
        let mut last = (ctx.progress.load(Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = ctx.progress.load(Relaxed);
            if p != last.0 { last = (p, Instant::now()); }
            else if last.1.elapsed().as_secs() > hang {
                let cur = ctx.inner.lock().unwrap().current.clone();
                ctx.violation("no-termination", &format!("an operation that normally takes well under a second did not finish within {hang} s (in: {cur})"), json!({"part": cur}));
                std::process::exit(ctx.finish());
            }
        }
    });
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || catch(|| f(ctx))).unwrap().join();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(p)) => ctx.escaped(&p),
        Err(_) => { eprintln!("harness error"); std::process::exit(2) }
    }
    let code = ctx.finish();
    std::process::exit(code)
}

/// Scratch directory, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = std::path::PathBuf::from(format!("{base}/mc-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn path(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// Runs `f` with a per-thread scratch directory.
pub fn with_scratch<T>(f: impl FnOnce(&Scratch) -> T) -> T {
    thread_local! { static S: RefCell<Option<std::rc::Rc<Scratch>>> = const { RefCell::new(None) }; }
    let s = S.with(|s| s.borrow_mut().get_or_insert_with(|| std::rc::Rc::new(Scratch::new())).clone());
    f(&s)
}

/// Deterministic mixing function for data alphabets (no randomness involved).
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

/// All vectors over 0..base of the given length, in counting order.
pub fn all_vecs(base: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (base as u128).pow(len as u32);
    (0..total).map(move |mut i| {
        let mut v = vec![0; len];
        for k in (0..len).rev() { v[k] = (i % base as u128) as usize; i /= base as u128; }
        v
    })
}

/// All subsets of 0..n as sorted index lists (including the empty one).
pub fn subsets(n: usize) -> impl Iterator<Item = Vec<usize>> {
    (0u64..1 << n).map(move |m| (0..n).filter(|i| m >> i & 1 == 1).collect())
}

pub use serde_json;
