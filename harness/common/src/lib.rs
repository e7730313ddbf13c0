//! Shared explorer runtime: exhaustive enumeration bookkeeping, violation
//! reporting, known findings, watchdog, evidence.
pub mod pic;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Violation {
    key: String,
    detail: String,
}

#[derive(Default)]
struct Section {
    states: u64,
    transitions: u64,
    bound: String,
    exhausted: bool,
}

struct Slot {
    since: Instant,
    what: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    start: Instant,
    cap: Duration,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<Violation>>,
    n_viol: AtomicU64,
    classes: Mutex<HashSet<String>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
    sections: Mutex<Vec<(String, Section)>>,
    assumptions: Mutex<Vec<String>>,
    capped: AtomicBool,
    slots: Mutex<Vec<Option<Slot>>>,
    hang_limit: Duration,
    replay: Option<String>,
}

/// Result of evaluating code under test: the value, or the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

impl Ctx {
    fn new(id: &'static str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let cap = match tier {
            Tier::Quick => 240,
            Tier::Thorough => 3600,
        };
        let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root().join("known_findings.jsonl")) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("known_findings.jsonl is not JSON lines");
                if v["property"] == id && v["status"] == "known" {
                    for k in v["keys"].as_array().expect("known finding without keys") {
                        known.push((k.as_str().unwrap().to_string(), v["what"].as_str().unwrap_or("").to_string()));
                    }
                }
            }
        }
        let replay = std::env::var("VERIF_REPLAY").ok().map(|p| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("cannot read replay file")).expect("bad replay file");
            v["key"].as_str().expect("replay without key").to_string()
        });
        Ctx {
            id,
            tier,
            start: Instant::now(),
            cap: Duration::from_secs(cap),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            n_viol: AtomicU64::new(0),
            classes: Mutex::default(),
            known,
            known_hit: Mutex::default(),
            sections: Mutex::default(),
            assumptions: Mutex::default(),
            capped: AtomicBool::new(false),
            slots: Mutex::new((0..64).map(|_| None).collect()),
            hang_limit: Duration::from_secs(90),
            replay,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// pick by tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string());
        }
    }
    /// one explored state (an input, configuration or history reached)
    pub fn state(&self) {
        self.states.fetch_add(1, Ordering::Relaxed);
    }
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    /// one executed step of the real code compared with the model
    pub fn step(&self) {
        self.transitions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn add_steps(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// one complete model trace replayed on the implementation
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn outcome(&self, o: &str) {
        let mut m = self.outcomes.lock().unwrap();
        if let Some(c) = m.get_mut(o) {
            *c += 1;
        } else {
            m.insert(o.to_string(), 1);
        }
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v());
        }
    }
    pub fn over_cap(&self) -> bool {
        if self.start.elapsed() > self.cap {
            self.capped.store(true, Ordering::Relaxed);
            true
        } else {
            false
        }
    }
    /// Named part of the exploration with its stated bound.
    pub fn section(&self, name: &str, bound: &str, f: impl FnOnce()) {
        // while developing a check: only this part of it
        if std::env::var("MC_DEV_SECTION").is_ok_and(|s| s != name) {
            return;
        }
        let (s0, t0, c0) = (
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.over_cap(),
        );
        let t = Instant::now();
        if !c0 {
            // a panic outside `guarded` is an error of the harness or an
            // unexpected panic of the code on a valid input: report it.
            if let Err(p) = guarded(f) {
                self.fail(&format!("{name}/unexpected-panic"), &format!("{name}: unexpected panic on an admissible input: {p}"));
            }
        }
        let sec = Section {
            states: self.states.load(Ordering::Relaxed) - s0,
            transitions: self.transitions.load(Ordering::Relaxed) - t0,
            bound: bound.to_string(),
            exhausted: !self.capped.load(Ordering::Relaxed),
        };
        println!(
            "[{}] {:<34} states={:<10} transitions={:<10} {:.2}s {}",
            self.id,
            name,
            sec.states,
            sec.transitions,
            t.elapsed().as_secs_f64(),
            if sec.exhausted { "" } else { "CAPPED" }
        );
        self.sections.lock().unwrap().push((name.to_string(), sec));
    }
    /// `class/...` key: the first path element groups reports.
    pub fn fail(&self, key: &str, detail: &str) {
        if let Some(r) = &self.replay {
            if r != key {
                return;
            }
        }
        if let Some((_, _)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().insert(key.to_string());
            return;
        }
        self.n_viol.fetch_add(1, Ordering::Relaxed);
        let class = key.split('/').next().unwrap_or("").to_string();
        let mut cl = self.classes.lock().unwrap();
        let mut v = self.violations.lock().unwrap();
        if v.len() < 40 && (cl.insert(class) || v.len() < 8) {
            v.push(Violation {
                key: key.to_string(),
                detail: detail.to_string(),
            });
        }
    }
    /// assert with lazily built key/detail
    #[inline]
    pub fn check(&self, ok: bool, f: impl FnOnce() -> (String, String)) -> bool {
        self.step();
        if !ok {
            let (k, d) = f();
            self.fail(&k, &d);
        }
        ok
    }
    /// floats equal within absolute + relative tolerance
    #[inline]
    pub fn close(&self, got: f64, want: f64, tol: f64, f: impl FnOnce() -> String) -> bool {
        let ok = close(got, want, tol);
        self.check(ok, || {
            let k = f();
            let d = format!("{k}: got {got}, expected {want} (tolerance {tol})");
            (k, d)
        })
    }
    /// Run the code under test; a panic is a violation.
    pub fn no_panic<T>(&self, key: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                let k = key();
                self.fail(&k, &format!("{k}: panicked: {p}"));
                None
            }
        }
    }
    /// Mark what is being evaluated (for the non-termination watchdog).
    pub fn watch<T>(&self, slot: usize, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
        {
            let mut s = self.slots.lock().unwrap();
            s[slot % 64] = Some(Slot { since: Instant::now(), what: what() });
        }
        let r = f();
        self.slots.lock().unwrap()[slot % 64] = None;
        r
    }
    /// Exhaustive parallel loop over 0..n; every index is visited unless the wall cap strikes.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        self.par_named("", n, f)
    }
    pub fn par_named(&self, name: &str, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let chunk = (n / (nthreads * 16)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for th in 0..nthreads {
                let (next, f) = (&next, &f);
                sc.spawn(move || loop {
                    let a = next.fetch_add(chunk, Ordering::Relaxed);
                    if a >= n || self.over_cap() {
                        return;
                    }
                    for i in a..(a + chunk).min(n) {
                        {
                            let mut s = self.slots.lock().unwrap();
                            s[th] = Some(Slot { since: Instant::now(), what: format!("{name}#{i}") });
                        }
                        if let Err(p) = guarded(|| f(i)) {
                            self.fail(&format!("{name}-unexpected-panic/{i}"), &format!("{name}: unexpected panic on admissible input #{i}: {p}"));
                        }
                    }
                    self.slots.lock().unwrap()[th] = None;
                });
            }
        });
    }
    fn finish(&self, level: &str) -> i32 {
        let root = root();
        let n_viol = self.n_viol.load(Ordering::Relaxed);
        let states = self.states.load(Ordering::Relaxed);
        let transitions = self.transitions.load(Ordering::Relaxed);
        let wall = self.start.elapsed().as_secs_f64();
        let secs: Vec<Value> = self
            .sections
            .lock()
            .unwrap()
            .iter()
            .map(|(n, s)| json!({"part": n, "bound": s.bound, "states": s.states, "transitions": s.transitions, "exhausted": s.exhausted}))
            .collect();
        let outcomes = self.outcomes.lock().unwrap().clone();
        let mut cov = Map::new();
        cov.insert("states".into(), json!(states));
        cov.insert("transitions".into(), json!(transitions));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Ordering::Relaxed).max(if level == "model_checking" { states.min(transitions) } else { 0 })));
        cov.insert("exhaustive".into(), json!(!self.capped.load(Ordering::Relaxed)));
        cov.insert("distinct_outcomes".into(), json!(outcomes));
        cov.insert("parts".into(), json!(secs));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": level,
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall,
            "violations": n_viol,
        });
        let _ = std::fs::create_dir_all(root.join("evidence"));
        if self.replay.is_none() {
            std::fs::write(root.join("evidence").join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
        }
        let mut hit: Vec<_> = self.known_hit.lock().unwrap().iter().cloned().collect();
        hit.sort();
        let mut whats: Vec<String> = vec![];
        for k in hit {
            let what = &self.known.iter().find(|(kk, _)| *kk == k).unwrap().1;
            if !whats.contains(what) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
                whats.push(what.clone());
            }
        }
        println!("[{}] total states={states} transitions={transitions} outcomes={outcomes:?} violations={n_viol} wall={wall:.1}s", self.id);
        if n_viol > 0 {
            let dir = root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            for v in self.violations.lock().unwrap().iter() {
                let mut h: u64 = 0xcbf29ce484222325;
                for b in v.key.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                let p = dir.join(format!("{}-{:016x}.json", self.id, h));
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": self.id, "key": v.key, "detail": v.detail, "how": format!("VERIF_REPLAY={} /verif/check.sh {} quick", p.display(), self.id)})).unwrap());
                let d: String = v.detail.chars().take(400).collect();
                println!("  counterexample: {d}");
                println!("VIOLATION property={} replay={}", self.id, p.display());
            }
            1
        } else {
            0
        }
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// A scratch directory, removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!("verif-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self, f: &str) -> std::path::PathBuf {
        self.0.join(f)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub type CheckFn = fn(&Ctx);

/// Entry point of every area binary: `bin ID`.
pub fn main_with(checks: &[(&'static str, CheckFn)]) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    let Some((id, f)) = checks.iter().find(|(i, _)| *i == id) else {
        eprintln!("unknown property {id}; known: {:?}", checks.iter().map(|c| c.0).collect::<Vec<_>>());
        std::process::exit(2)
    };
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            def(i)
        }
    }));
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(id)));
    // watchdog
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let hung = {
            let s = ctx.slots.lock().unwrap();
            s.iter().flatten().find(|s| s.since.elapsed() > ctx.hang_limit).map(|s| s.what.clone())
        };
        if let Some(w) = hung {
            ctx.fail(&format!("does-not-terminate/{w}"), &format!("no answer within {:?} for {w}", ctx.hang_limit));
            let c = ctx.finish("model_checking");
            std::process::exit(c)
        }
    });
    let f = *f;
    // big stack: recursive code under test
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || f(ctx)).unwrap();
    if h.join().is_err() {
        eprintln!("harness error");
        std::process::exit(3)
    }
    let c = ctx.finish("model_checking");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(c)
}
/// names of things of one kind: every way to confuse them with one another (beginning, end, part, case, blanks)
pub const ROOMS: [&str; 8] = ["Room 1 Room", "Room", "room", "Room 1", "1 Room", "Room 10", " Room", "Ro"];
pub fn room(i: usize) -> String {
    if i < 8 { ROOMS[i].to_string() } else { format!("Room {i}") }
}
