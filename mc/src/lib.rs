//! Shared machinery of the checks: case bookkeeping, violation reports, evidence, crash and hang detection.
#![allow(clippy::all)]
pub mod adv;
pub mod alpha;
pub mod circ;
pub mod gad;
pub mod model;
pub mod plk;
pub mod pts;
pub mod refm;
pub mod resc;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    evals: AtomicU64,
    bulk_distinct: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    labels: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    sections: Mutex<BTreeMap<String, u64>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
    violations: AtomicUsize,
    ending: Mutex<()>,
    only: Option<String>,
    notes: Mutex<Vec<String>>,
    slots: Mutex<Vec<Arc<Mutex<Vec<(String, Instant, u64)>>>>>,
    capped: AtomicBool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: RefCell<Option<Arc<Mutex<Vec<(String, Instant, u64)>>>>> = RefCell::new(None);
}

fn last_any() -> &'static Mutex<String> {
    static ONCE: std::sync::Once = std::sync::Once::new();
    static mut P: *const Mutex<String> = std::ptr::null();
    unsafe { ONCE.call_once(|| P = Box::leak(Box::new(Mutex::new(String::new())))); &*P }
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn root() -> String { std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".to_string()) }

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String { s.chars().take(n).collect() }

impl Ctx {
    fn new(id: &'static str, level: &'static str, rule: &'static str) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
            for l in t.lines() {
                let l = l.trim();
                if let Some(r) = l.strip_prefix(&format!("known: property={} case=", id)) {
                    let mut it = r.splitn(2, ' ');
                    known.push((it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
        Ctx {
            id, level, rule,
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            evals: AtomicU64::new(0), bulk_distinct: AtomicU64::new(0),
            states: AtomicU64::new(0), transitions: AtomicU64::new(0), traces: AtomicU64::new(0),
            labels: Mutex::new(HashSet::new()), samples: Mutex::new(vec![]), sections: Mutex::new(BTreeMap::new()),
            known, known_hit: Mutex::new(HashSet::new()),
            violations: AtomicUsize::new(0), ending: Mutex::new(()),
            only: std::env::var("MC_ONLY").ok(),
            notes: Mutex::new(vec![]), slots: Mutex::new(vec![]), capped: AtomicBool::new(false),
        }
    }

    /// Picks a bound by tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }

    fn enter(&self, label: &str, limit: u64) {
        SLOT.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_none() {
                let a = Arc::new(Mutex::new(vec![]));
                self.slots.lock().unwrap().push(a.clone());
                *s = Some(a);
            }
            s.as_ref().unwrap().lock().unwrap().push((label.to_string(), Instant::now(), limit));
        });
        if let Some(j) = journal() { let _ = std::fs::write(format!("{}.{}", j, thread_no()), label); }
    }
    fn leave(&self) {
        SLOT.with(|s| { s.borrow().as_ref().unwrap().lock().unwrap().pop(); });
        if let Some(j) = journal() { let _ = std::fs::write(format!("{}.{}", j, thread_no()), ""); }
    }

    fn count(&self, section: &str, label: &str, evals: u64, distinct: Option<u64>) {
        self.evals.fetch_add(evals, Ordering::Relaxed);
        match distinct {
            Some(d) => { self.bulk_distinct.fetch_add(d, Ordering::Relaxed); }
            None => { self.labels.lock().unwrap().insert(hash(&format!("{}/{}", section, label))); }
        }
        let mut s = self.sections.lock().unwrap();
        let n = s.entry(section.to_string()).or_insert(0);
        if *n == 0 {
            let mut sm = self.samples.lock().unwrap();
            if sm.len() < 60 { sm.push(format!("{}: {}", section, cut(label, 300))); }
        }
        *n += evals;
    }

    /// One case: `f` exercises the code under test and returns Err(description) if the property fails on it.
    /// A panic is a violation too.
    pub fn case(&self, section: &str, label: &str, f: impl FnOnce() -> R) -> bool { self.case_limit(section, label, 150, f) }

    pub fn case_limit(&self, section: &str, label: &str, limit: u64, f: impl FnOnce() -> R) -> bool {
        let full = format!("{}/{}", section, label);
        if let Some(o) = &self.only { if o != &full && !(o.ends_with('*') && full.starts_with(&o[..o.len() - 1])) { return true; } }
        self.enter(&full, limit);
        let r = quiet(f);
        self.leave();
        self.count(section, label, 1, None);
        match r {
            Ok(()) => true,
            Err(e) => { self.fail(&full, &e); false }
        }
    }

    /// A block of many small evaluations of pairwise distinct cases: `f` returns how many it did.
    pub fn bulk(&self, section: &str, label: &str, f: impl FnOnce() -> Result<u64, String>) -> bool {
        let full = format!("{}/{}", section, label);
        if let Some(o) = &self.only { if o != &full && !(o.ends_with('*') && full.starts_with(&o[..o.len() - 1])) { return true; } }
        self.enter(&full, 300);
        let t0 = std::time::Instant::now();
        let r = quiet(f);
        self.leave();
        if std::env::var("MC_TIME").is_ok() { eprintln!("{:8.2} s  {}", t0.elapsed().as_secs_f64(), full); }
        match r {
            Ok(n) => { self.count(section, label, n, Some(n)); true }
            Err(e) => { self.fail(&full, &e); false }
        }
    }

    pub fn note(&self, s: String) { self.notes.lock().unwrap().push(s); }
    pub fn cap(&self, s: String) { self.capped.store(true, Ordering::Relaxed); self.note(s); }
    pub fn states(&self, n: u64) { self.states.fetch_add(n, Ordering::Relaxed); }
    pub fn transitions(&self, n: u64) { self.transitions.fetch_add(n, Ordering::Relaxed); }
    pub fn traces(&self, n: u64) { self.traces.fetch_add(n, Ordering::Relaxed); }

    pub fn fail(&self, label: &str, detail: &str) {
        if let Some((_, w)) = self.known.iter().find(|(l, _)| l == &label.replace(' ', "_")) {
            if self.known_hit.lock().unwrap().insert(label.to_string()) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, w, label);
            }
            return;
        }
        let _g = self.ending.lock().unwrap();
        let n = self.violations.fetch_add(1, Ordering::SeqCst);
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, self.id, n);
        let body = format!(
            "property: {}\ncase: {}\nwhat: {}\nreplay: cd /verif && MC_ONLY='{}' VERIF_TIER={} ./run.sh {}\n",
            self.id, label, detail, label, if self.thorough { "thorough" } else { "quick" }, self.id);
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", self.id, path);
        println!("  case {}: {}", label, cut(detail, 1500));
        let _ = std::io::stdout().flush();
        if n + 1 >= 4 || std::env::var("MC_FIRST").is_ok() {
            self.write_evidence();
            std::process::exit(1);
        }
    }

    pub fn write_evidence(&self) {
        let evals = self.evals.load(Ordering::SeqCst);
        let distinct = self.bulk_distinct.load(Ordering::SeqCst) + self.labels.lock().unwrap().len() as u64;
        let samples = self.samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
        let sections = self.sections.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
        let notes = self.notes.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ");
        let mut cov = format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"sections\": {{{}}}, \"notes\": [{}], \"exhaustive\": {}",
            evals, distinct, esc(self.rule), samples, sections, notes, !self.capped.load(Ordering::SeqCst));
        if self.level == "model_checking" {
            cov = format!("\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, {}",
                self.states.load(Ordering::SeqCst), self.transitions.load(Ordering::SeqCst), self.traces.load(Ordering::SeqCst), cov);
        }
        let j = format!("{{\"property\": \"{}\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"{}\", \"coverage\": {{{}}}, \"wall_s\": {:.2}, \"violations\": {}}}\n",
            self.id, if self.thorough { "thorough" } else { "quick" }, self.seed, self.level, cov,
            self.start.elapsed().as_secs_f64(), self.violations.load(Ordering::SeqCst));
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        let _ = std::fs::write(format!("{}/evidence/{}.json", root(), self.id), j);
    }

    /// Runs `f` on every item, on worker threads of our own (the code under test keeps its rayon pool).
    pub fn par<T: Send + Sync + 'static>(&'static self, items: Vec<T>, f: impl Fn(&T) + Send + Sync + 'static) {
        self.par_n(std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8), items, f)
    }
    pub fn par_n<T: Send + Sync + 'static>(&'static self, n: usize, items: Vec<T>, f: impl Fn(&T) + Send + Sync + 'static) {
        let items = Arc::new(items);
        let f = Arc::new(f);
        let next = Arc::new(AtomicUsize::new(0));
        let hs = (0..n).map(|_| {
            let (items, f, next) = (items.clone(), f.clone(), next.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() { break; }
                f(&items[i]);
            }).unwrap()
        }).collect::<Vec<_>>();
        for h in hs {
            if h.join().is_err() { self.fail("setup", &format!("panic outside a case: {}", last_any().lock().unwrap())); }
        }
    }
}

fn journal() -> Option<String> {
    thread_local!(static J: Option<String> = std::env::var("MC_JOURNAL").ok());
    J.with(|j| j.clone())
}
fn thread_no() -> usize {
    static N: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static T: usize = N.fetch_add(1, Ordering::SeqCst));
    T.with(|t| *t)
}

/// Runs `f`, turning a panic into Err.
pub fn quiet<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(e))),
    }
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
    format!("{} ({})", cut(&m, 600), LAST_PANIC.with(|p| p.borrow().clone()))
}
/// Runs `f`; Ok(value), or Err(panic message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(v) => Ok(v), Err(e) => Err(panic_text(e)) }
}

/// Runs `f`; None if it panics.
pub fn silent<T>(f: impl FnOnce() -> T) -> Option<T> { catch(f).ok() }

#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! eq { ($a:expr, $b:expr, $($m:tt)*) => { { let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } } } }

/// Entry point of every check binary.
pub fn run(id: &'static str, level: &'static str, rule: &'static str, body: fn(&'static Ctx)) -> ! {
    if std::env::var("MC_CHILD").is_err() { supervise(id, level, rule); }
    unsafe {
        let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MC_TRACE").is_ok() { eprintln!("panic: {}", i); }
        if let Ok(mut g) = last_any().lock() { *g = format!("{} {:?}", s, i.payload().downcast_ref::<String>()); }
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(id, level, rule)));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let slots = ctx.slots.lock().unwrap().clone();
        for s in slots {
            let top = s.lock().unwrap().last().cloned();
            if let Some((l, t, lim)) = top {
                if t.elapsed().as_secs() > lim {
                    ctx.fail(&l, &format!("no result after {} s (such a case normally takes a small fraction of that)", lim));
                    ctx.write_evidence();
                    std::process::exit(1);
                }
            }
        }
    });
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || body(ctx)).unwrap();
    if h.join().is_err() {
        // The harness itself is deterministic and does not panic on the unchanged tree: the code under test
        // failed while fixtures (circuits, points, reference values) were being built with it.
        ctx.fail("setup", &format!("panic while building fixtures: {}", last_any().lock().unwrap()));
    }
    ctx.write_evidence();
    if ctx.only.is_some() && ctx.evals.load(Ordering::SeqCst) == 0 { eprintln!("MC_ONLY matched no case"); std::process::exit(2); }
    let v = ctx.violations.load(Ordering::SeqCst);
    println!("{}: {} evaluations, {} distinct, states {}, transitions {}, {} violations, {:.1} s", id, ctx.evals.load(Ordering::SeqCst),
        ctx.bulk_distinct.load(Ordering::SeqCst) + ctx.labels.lock().unwrap().len() as u64,
        ctx.states.load(Ordering::SeqCst), ctx.transitions.load(Ordering::SeqCst), v, ctx.start.elapsed().as_secs_f64());
    std::process::exit(if v > 0 { 1 } else { 0 });
}

fn supervise(id: &'static str, level: &'static str, rule: &'static str) -> ! {
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let j = dir.join("case");
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1)).env("MC_CHILD", "1").env("MC_JOURNAL", &j).status();
    let mut cur = vec![];
    if let Ok(rd) = std::fs::read_dir(&dir) {
        for e in rd.flatten() {
            let mut s = String::new();
            if let Ok(mut f) = std::fs::File::open(e.path()) { let _ = f.read_to_string(&mut s); }
            if !s.is_empty() { cur.push(s); }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    match st {
        Ok(s) => {
            if let Some(c) = s.code() { std::process::exit(c); }
            let sig = s.signal().unwrap_or(0);
            if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) && !cur.is_empty() {
                let ctx = Ctx::new(id, level, rule);
                ctx.violations.store(0, Ordering::SeqCst);
                for c in cur.iter().take(1) { ctx.fail(c, &format!("the process was ended by signal {} (stack overflow, abort or memory exhaustion) while running: {}", sig, cur.join(" | "))); }
                ctx.evals.store(1, Ordering::SeqCst);
                ctx.write_evidence();
                std::process::exit(1);
            }
            eprintln!("{}: child ended by signal {}", id, sig);
            std::process::exit(2)
        }
        Err(e) => { eprintln!("{}: cannot start child: {}", id, e); std::process::exit(2) }
    }
}
