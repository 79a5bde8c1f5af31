//! Harness plumbing: seeded random numbers, case runner, breadcrumbs, panic capture,
//! deadlock (quiescence) and runaway monitors, and the result file.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
    }
    h
}

impl Rng {
    pub fn new(seed: u64, label: &str, idx: u64) -> Self {
        Rng(mix(seed ^ mix(hash_bytes(label.as_bytes())) ^ mix(idx.wrapping_mul(0x51_7cc1_b727_220a_95 & u64::MAX))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (((self.next() as u128) * (n as u128)) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// uniform in -1..1
    pub fn sf(&mut self) -> f32 {
        (self.f01() * 2.0 - 1.0) as f32
    }
    pub fn gauss(&mut self) -> f32 {
        let (a, b) = (self.f01().max(1e-12), self.f01());
        ((-2.0 * a.ln()).sqrt() * (2.0 * std::f64::consts::PI * b).cos()) as f32
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f01() < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next())
    }
    pub fn seed(&mut self) -> u64 {
        self.next()
    }
}

// ---------------------------------------------------------------- context
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: PathBuf,
    pub only: Option<String>,
    pub deadline: Instant,
    pub workers: usize,
    pub scale: f64,
    st: Mutex<State>,
    active: Mutex<BTreeMap<u64, String>>,
    pub completed: AtomicU64,
    cut: AtomicBool,
}

#[derive(Default)]
struct State {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<Value>>,
    violations: Vec<Value>,
    harness_errors: Vec<String>,
    rules: Vec<String>,
    maxima: BTreeMap<String, f64>,
    minima: BTreeMap<String, f64>,
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub group: String,
    pub idx: u64,
    pub rng: Rng,
    id: u64,
    pub desc: String,
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}

static PANICS: Mutex<Option<HashMap<String, String>>> = Mutex::new(None);
static NEXT_ID: AtomicU64 = AtomicU64::new(1);

fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<(String, String)> = Default::default();
}

pub fn install_panic_hook() {
    *PANICS.lock().unwrap() = Some(HashMap::new());
    let verbose = std::env::var("GV_VERBOSE").is_ok();
    std::panic::set_hook(Box::new(move |info| {
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("panic at {}: {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = (msg.clone(), loc.clone()));
        if let Ok(mut g) = PANICS.lock() {
            if let Some(m) = g.as_mut() {
                if m.len() > 10_000 {
                    m.clear();
                }
                m.insert(msg, loc);
            }
        }
    }));
}

/// A panic raised by the code under test (message, location) or by the harness itself.
pub enum Panicked {
    Lib(String),
    Harness(String),
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let msg = payload_str(&*p);
            // a panic of another thread (a worker of a pool) is only known by its message
            let here = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
            let loc = Some(here).filter(|h| h.0 == msg).map(|h| h.1).unwrap_or_else(|| PANICS.lock().unwrap().as_ref().and_then(|m| m.get(&msg).cloned()).unwrap_or_default());
            let harness = (loc.starts_with("src/") || loc.contains("harness/src/") || loc.contains("harness_mon/"))
                && !msg.starts_with("CONTRACT");
            let m = format!("panicked: {} (at {})", msg.chars().take(300).collect::<String>(), loc);
            if harness {
                Err(Panicked::Harness(m))
            } else {
                Err(Panicked::Lib(m))
            }
        }
    }
}

/// Runs `f`, turning a panic of the library into an error.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch(f) {
        Ok(v) => Ok(v),
        Err(Panicked::Lib(m)) => Err(format!("{}: {}", what, m)),
        Err(Panicked::Harness(m)) => std::panic::panic_any(format!("{}: {}", what, m)),
    }
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, out: PathBuf, only: Option<String>, budget: f64, workers: usize, scale: f64) -> Self {
        std::fs::create_dir_all(&out).ok();
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            out,
            only,
            deadline: Instant::now() + Duration::from_secs_f64(budget),
            workers,
            scale,
            st: Mutex::new(State::default()),
            active: Mutex::new(BTreeMap::new()),
            completed: AtomicU64::new(0),
            cut: AtomicBool::new(false),
        }
    }
    /// quick / thorough amounts
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick };
        ((n as f64 * self.scale).ceil() as usize).max(1)
    }
    pub fn rule(&self, r: &str) {
        self.st.lock().unwrap().rules.push(r.to_string());
    }
    pub fn count(&self, name: &str, k: u64) {
        *self.st.lock().unwrap().counters.entry(name.into()).or_insert(0) += k;
    }
    pub fn max(&self, name: &str, v: f64) {
        let mut s = self.st.lock().unwrap();
        let e = s.maxima.entry(name.into()).or_insert(v);
        *e = e.max(v);
    }
    pub fn min(&self, name: &str, v: f64) {
        let mut s = self.st.lock().unwrap();
        let e = s.minima.entry(name.into()).or_insert(v);
        *e = e.min(v);
    }
    pub fn violation(&self, case: &str, msg: &str) {
        let mut s = self.st.lock().unwrap();
        if s.violations.len() < 40 {
            s.violations.push(json!({"case": case, "what": msg.chars().take(2000).collect::<String>(),
                "seed": self.seed, "prop": self.prop}));
        }
        *s.counters.entry("violating_cases".into()).or_insert(0) += 1;
    }
    pub fn harness_error(&self, case: &str, msg: &str) {
        self.st.lock().unwrap().harness_errors.push(format!("{}: {}", case, msg));
    }
    pub fn over_budget(&self) -> bool {
        Instant::now() > self.deadline
    }

    /// Runs cases 0..n of `group` on `workers` threads.
    pub fn cases<F>(&self, group: &str, n: usize, workers: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let (only_group, only_idx) = match &self.only {
            Some(o) => {
                let mut it = o.rsplitn(2, '#');
                let idx = it.next().unwrap_or("").parse::<u64>().ok();
                let g = it.next().unwrap_or("").to_string();
                (Some(g), idx)
            }
            None => (None, None),
        };
        if let Some(g) = &only_group {
            if g != group {
                return;
            }
        }
        let next = AtomicUsize::new(0);
        let workers = workers.max(1).min(n.max(1));
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for w in 0..workers {
                let (next, f) = (&next, &f);
                let h = std::thread::Builder::new()
                    .name(format!("case-{}", w))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= n {
                            break;
                        }
                        if let Some(k) = only_idx {
                            if k != i as u64 {
                                continue;
                            }
                        }
                        if self.over_budget() {
                            self.cut.store(true, SeqCst);
                            self.count(&format!("not_run_{}", group), 1);
                            continue;
                        }
                        self.run_one(group, i as u64, f);
                    })
                    .unwrap();
                hs.push(h);
            }
            for h in hs {
                let _ = h.join();
            }
        });
    }

    fn run_one<F>(&self, group: &str, i: u64, f: &F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let id = NEXT_ID.fetch_add(1, SeqCst);
        let mut case = Case {
            ctx: self,
            group: group.into(),
            idx: i,
            rng: Rng::new(self.seed, &format!("{}/{}", self.prop, group), i),
            id,
            desc: String::new(),
        };
        let name = format!("{}#{}", group, i);
        self.set_crumb(id, Some(name.clone()));
        let t0 = Instant::now();
        let r = catch(|| f(&mut case));
        let dt = t0.elapsed().as_secs_f64();
        self.max(&format!("case_seconds_{}", group), dt);
        let full = if case.desc.is_empty() { name.clone() } else { format!("{} [{}]", name, case.desc) };
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violation(&full, &m),
            Err(Panicked::Lib(m)) => self.violation(&full, &m),
            Err(Panicked::Harness(m)) => self.harness_error(&full, &m),
        }
        self.set_crumb(id, None);
        self.completed.fetch_add(1, SeqCst);
        let mut s = self.st.lock().unwrap();
        s.evals += 1;
        *s.counters.entry(format!("cases_{}", group)).or_insert(0) += 1;
        if !case.desc.is_empty() {
            let v = s.samples.entry(group.into()).or_default();
            if v.len() < 3 {
                v.push(json!(full.chars().take(400).collect::<String>()));
            }
        }
    }

    fn set_crumb(&self, id: u64, v: Option<String>) {
        let mut a = self.active.lock().unwrap();
        match v {
            Some(s) => {
                a.insert(id, s);
            }
            None => {
                a.remove(&id);
            }
        }
        let text: String = a.values().map(|s| format!("{}\n", s)).collect();
        let _ = std::fs::write(self.out.join("crumbs"), text);
    }

    pub fn active(&self) -> Vec<String> {
        self.active.lock().unwrap().values().cloned().collect()
    }

    pub fn finish(&self, extra: Value) {
        let s = match self.st.lock() {
            Ok(s) => s,
            Err(p) => p.into_inner(),
        };
        let v = json!({
            "prop": self.prop, "seed": self.seed,
            "evaluations": s.evals,
            "distinct_nontrivial": s.distinct.len(),
            "rule": s.rules.join(" "),
            "samples": s.samples,
            "counters": s.counters,
            "maxima": s.maxima,
            "minima": s.minima,
            "violations": s.violations,
            "harness_errors": s.harness_errors,
            "cut_by_budget": self.cut.load(SeqCst),
            "extra": extra,
        });
        let _ = std::fs::write(self.out.join("result.json"), serde_json::to_vec_pretty(&v).unwrap());
    }
}

impl<'a> Case<'a> {
    pub fn note(&mut self, d: String) {
        self.desc = d;
        let c = format!("{}#{} [{}]", self.group, self.idx, self.desc);
        self.ctx.set_crumb(self.id, Some(c));
    }
    /// registers this case as non-trivial, identified by `key`
    pub fn nontrivial(&self, key: u64) {
        self.ctx.st.lock().unwrap().distinct.insert(key ^ hash_bytes(self.group.as_bytes()));
    }
    pub fn count(&self, name: &str, k: u64) {
        self.ctx.count(name, k)
    }
}

// ---------------------------------------------------------------- monitors
fn task_snapshot(skip: &[i32]) -> (usize, bool, u64) {
    // (number of other threads, all of them sleeping, cpu ticks + context switches)
    let mut n = 0;
    let mut all_sleep = true;
    let mut sum = 0u64;
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            let tid: i32 = e.file_name().to_string_lossy().parse().unwrap_or(0);
            if skip.contains(&tid) {
                continue;
            }
            let p = e.path();
            let stat = std::fs::read_to_string(p.join("stat")).unwrap_or_default();
            let rest = stat.rsplit_once(')').map(|x| x.1).unwrap_or("");
            let f: Vec<&str> = rest.split_whitespace().collect();
            if f.len() < 14 {
                continue;
            }
            n += 1;
            if f[0] != "S" {
                all_sleep = false;
            }
            sum = sum.wrapping_add(mix(tid as u64 ^ (f[11].parse::<u64>().unwrap_or(0) << 20) ^ (f[12].parse::<u64>().unwrap_or(0) << 40)));
            if let Ok(st) = std::fs::read_to_string(p.join("status")) {
                for l in st.lines() {
                    if l.contains("ctxt_switches") {
                        let v: u64 = l.split_whitespace().last().unwrap_or("0").parse().unwrap_or(0);
                        sum = sum.wrapping_add(mix(v ^ ((tid as u64) << 32) ^ l.len() as u64));
                    }
                }
            }
        }
    }
    (n, all_sleep, sum)
}

fn process_cpu() -> f64 {
    let stat = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = stat.rsplit_once(')').map(|x| x.1).unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 14 {
        return 0.0;
    }
    (f[11].parse::<f64>().unwrap_or(0.0) + f[12].parse::<f64>().unwrap_or(0.0)) / 100.0
}

extern "C" {
    fn gettid() -> i32;
    fn _exit(code: i32) -> !;
}

/// Watches the process from outside the workload. Every other thread asleep with no CPU tick and no
/// context switch for `quiet` seconds while a case is unfinished: nothing can wake them again, a
/// deadlock. More than `cpu_limit` CPU seconds without any case completing: runaway work.
pub fn start_monitor(ctx: Arc<Ctx>, quiet: u64, cpu_limit: f64) {
    std::thread::Builder::new()
        .name("gvmon".into())
        .spawn(move || {
            let me = unsafe { gettid() };
            let mut last = 0u64;
            let mut same_since = Instant::now();
            let mut last_completed = 0;
            let mut cpu_at = process_cpu();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let active = ctx.active();
                let (n, asleep, sum) = task_snapshot(&[me]);
                if !asleep || sum != last || active.is_empty() || n == 0 {
                    last = sum;
                    same_since = Instant::now();
                }
                if same_since.elapsed() > Duration::from_secs(quiet) {
                    for a in &active {
                        ctx.violation(a, &format!("DEADLOCK: all {} threads are blocked and nothing has run for {} s", n, quiet));
                    }
                    ctx.finish(json!({"ended_by": "deadlock monitor"}));
                    unsafe { _exit(0) };
                }
                let c = ctx.completed.load(SeqCst);
                let cpu = process_cpu();
                if c != last_completed || active.is_empty() {
                    last_completed = c;
                    cpu_at = cpu;
                }
                if cpu - cpu_at > cpu_limit {
                    for a in &active {
                        ctx.violation(a, &format!("RUNAWAY: {:.0} CPU seconds without any case completing", cpu - cpu_at));
                    }
                    ctx.finish(json!({"ended_by": "runaway monitor"}));
                    unsafe { _exit(0) };
                }
            }
        })
        .unwrap();
}

/// runs `f` inside a rayon pool with `threads` workers
pub fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool").install(f)
}

/// joins a thread, forwarding its panic
pub fn join<T>(h: std::thread::ScopedJoinHandle<'_, T>) -> T {
    match h.join() {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    }
}
