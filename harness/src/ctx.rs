//! What a check reports: coverage counters, samples, violations, evidence.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub const MAX_VIOLATIONS: usize = 20;

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    /// Distinct states: input points, configurations or search states.
    pub states: AtomicU64,
    /// Steps of the real code: calls into the crate; bus transactions are added at the end.
    pub transitions: AtomicU64,
    /// Executions of the real code whose outcome was compared with the reference.
    pub traces: AtomicU64,
    extra: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    assumptions: Mutex<Vec<String>>,
    bounds: Mutex<Vec<String>>,
}

impl Ctx {
    pub fn new(id: &'static str) -> Ctx {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        Ctx {
            id,
            thorough,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            extra: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            known: load_known(id),
            known_hit: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            assumptions: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
        }
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn tv(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn count(&self, what: &str, n: u64) {
        *self.extra.lock().unwrap().entry(what.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, what: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let v = e.entry(what.to_string()).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Report a violation.  `key` identifies the failing case.
    pub fn fail(&self, detail: impl Into<String>) {
        let d = detail.into();
        if let Some((_, what)) = self.known.iter().find(|(k, _)| d.starts_with(k)) {
            let mut h = self.known_hit.lock().unwrap();
            if !h.contains(what) {
                h.push(what.clone());
            }
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            v.push(d);
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn check(&self, ok: bool, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(detail());
        }
        ok
    }
    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    /// Write the evidence and give the exit code.
    pub fn finish(self) -> i32 {
        let root = crate::verif_root();
        let ev = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{root}/evidence"));
        let _ = std::fs::create_dir_all(&ev);
        let v = self.violations.lock().unwrap();
        let mut s = String::new();
        s.push_str("{\n");
        s += &format!(" \"property\": {},\n", js(self.id));
        s += &format!(" \"tier\": {},\n", js(if self.thorough { "thorough" } else { "quick" }));
        s += &format!(" \"seed\": {},\n", self.seed);
        s += " \"level\": \"model_checking\",\n \"coverage\": {\n";
        s += &format!("  \"states\": {},\n", self.states.load(Relaxed));
        let steps = self.transitions.load(Relaxed) + crate::dev::TOTAL_TX.load(Relaxed);
        s += &format!("  \"transitions\": {},\n", steps);
        s += &format!("  \"traces_validated_against_impl\": {},\n", self.traces.load(Relaxed));
        s += &format!("  \"bus_transactions\": {},\n", crate::dev::TOTAL_TX.load(Relaxed));
        for (k, n) in self.extra.lock().unwrap().iter() {
            s += &format!("  {}: {},\n", js(k), n);
        }
        s += &format!("  \"exhaustive\": {},\n", !self.stopped());
        s += &format!("  \"bounds\": {},\n", jl(&self.bounds.lock().unwrap()));
        s += &format!("  \"samples\": {}\n", jl(&self.samples.lock().unwrap()));
        s += " },\n";
        s += &format!(" \"assumptions\": {},\n", jl(&self.assumptions.lock().unwrap()));
        s += &format!(" \"violations\": {},\n", v.len());
        s += &format!(" \"wall_s\": {:.2}\n}}\n", self.start.elapsed().as_secs_f64());
        std::fs::write(format!("{ev}/{}.json", self.id), s).expect("evidence file");
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        println!(
            "{}: {} states, {} transitions, {} executions validated, {} bus transactions, {:.1} s",
            self.id,
            self.states.load(Relaxed),
            steps,
            self.traces.load(Relaxed),
            crate::dev::TOTAL_TX.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        if v.is_empty() {
            println!("{}: held", self.id);
            return 0;
        }
        let path = format!("{ev}/replay-{}.txt", self.id);
        let mut r = format!(
            "property {}\nre-run: {}/check {} ({} tier, deterministic)\n\n",
            self.id,
            root,
            self.id,
            if self.thorough { "thorough" } else { "quick" }
        );
        for (i, d) in v.iter().enumerate() {
            r += &format!("[{}] {}\n", i + 1, d);
        }
        std::fs::write(&path, r).expect("replay file");
        for d in v.iter().take(5) {
            println!("  {d}");
        }
        println!("VIOLATION property={} replay={}", self.id, path);
        1
    }
}

/// Lines `open: property=<id> key=<prefix of the failure> | <what fails>` of known-findings.txt.
fn load_known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", crate::verif_root())) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("open: property={id} key=")) {
                if let Some((k, w)) = r.split_once(" | ") {
                    v.push((k.to_string(), w.to_string()));
                }
            }
        }
    }
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let guarded = GUARDED.with(|g| *g.borrow());
        if !guarded || own(&loc) && msg != crate::dev::HORIZON_MSG {
            eprintln!("internal error: panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Whether a source location belongs to this harness rather than to the code under test.
fn own(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

/// Run code under test; a panic inside of it is returned as its message.  A panic of the harness
/// itself ends the process with an error that is not a verdict.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let prev = GUARDED.with(|g| std::mem::replace(&mut *g.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() = prev);
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg == crate::dev::HORIZON_MSG {
                return Err(msg);
            }
            if own(&loc) {
                eprintln!("internal error: the harness itself panicked at {loc}: {msg}");
                std::process::exit(2);
            }
            Err(format!("panic at {}: {}", short(&loc), msg))
        }
    }
}
fn short(loc: &str) -> String {
    match loc.find("mlx9064x/src/") {
        Some(i) => loc[i..].to_string(),
        None => loc.to_string(),
    }
}

/// Run `f(job)` for all jobs on all cores.
pub fn par<F: Fn(usize) + Sync>(ctx: &Ctx, jobs: usize, f: F) {
    let next = AtomicU64::new(0);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(jobs.max(1));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                s.spawn(|| loop {
                    let j = next.fetch_add(1, Relaxed) as usize;
                    if j >= jobs || ctx.stopped() {
                        break;
                    }
                    f(j);
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                eprintln!("internal error: a worker of the harness panicked");
                std::process::exit(2);
            }
        }
    });
}
