//! A small stateless model checker.
//!
//! A *space* is a closed driver: a function which drives the real code and takes every
//! nondeterministic decision (inputs, operation order, environment answers, faults, hash seeds)
//! through [`Ch::choose`]. The explorer enumerates **all** choice sequences of a space by depth
//! first search with prefix replay: an execution is re-run from a recorded prefix, takes choice 0 at
//! every later point, and schedules each untaken alternative. Each complete execution ("trace") is
//! judged by the space itself against an independent reference model.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub use serde_json;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Identifies the failing call site / input class; known findings are listed by this key.
    pub key: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Fail {
        key: key.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::Fail { key: $key.to_string(), msg: format!($($fmt)*) });
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $key:expr, $($fmt:tt)*) => {
        {
            let (a, b) = (&$a, &$b);
            if a != b {
                return Err($crate::Fail { key: $key.to_string(), msg: format!("{}: got {:?}, want {:?}", format!($($fmt)*), a, b) });
            }
        }
    };
}

/// FNV-1a, deterministic across runs (the std hasher is seeded).
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

/// The choice oracle handed to a driver.
pub struct Ch {
    prefix: Vec<(u32, u32)>,
    taken: Vec<(u32, u32)>,
    trace: Vec<String>,
    want_trace: bool,
    steps: u64,
    states: Vec<u64>,
    kinds: Vec<(String, u64)>,
    pruned: bool,
    diverged: Option<String>,
    seen: Option<Arc<Seen>>,
}

/// Fully explored states of a history space: fingerprint to the number of operations that may
/// still follow.
struct Seen(Vec<Mutex<HashMap<u64, usize>>>);

impl Ch {
    fn new(prefix: Vec<(u32, u32)>, want_trace: bool, seen: Option<Arc<Seen>>) -> Self {
        Ch {
            prefix,
            taken: vec![],
            trace: vec![],
            want_trace,
            steps: 0,
            states: vec![],
            kinds: vec![],
            pruned: false,
            diverged: None,
            seen,
        }
    }

    /// Explicit-state search: records the state reached (which must determine everything the
    /// remaining execution can show) with `left` operations to go. True if an equal state has been
    /// reached before with as many to go, in which case the execution may end here: its
    /// continuations are explored from there.
    pub fn revisit<T: Hash + ?Sized>(&mut self, t: &T, left: usize) -> bool {
        let h = hash_of(t);
        self.states.push(h);
        let Some(seen) = &self.seen else { return false };
        // inside a prefix the state is the one an earlier execution recorded itself
        if self.want_trace || self.taken.len() < self.prefix.len() {
            return false;
        }
        let mut g = seen.0[(h as usize) % SHARDS].lock().unwrap();
        match g.get(&h) {
            Some(l) if *l >= left => {
                drop(g);
                self.kind("merged into a state explored elsewhere");
                true
            }
            _ => {
                g.insert(h, left);
                false
            }
        }
    }

    /// One decision among `n` alternatives. Alternative 0 is the simplest one.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choice among nothing");
        let at = self.taken.len();
        let c = if at < self.prefix.len() {
            let (c, m) = self.prefix[at];
            if m != n as u32 && m != u32::MAX {
                self.diverged = Some(format!(
                    "replay diverged at choice {at}: {n} alternatives now, {m} when recorded"
                ));
                std::panic::panic_any("mc-diverged");
            }
            if c as usize >= n {
                self.diverged = Some(format!("replayed choice {c} out of range {n} at {at}"));
                std::panic::panic_any("mc-diverged");
            }
            c
        } else {
            0
        };
        self.taken.push((c, n as u32));
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        &xs[self.choose(xs.len())]
    }
    /// A value in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    /// All permutations of `0..n`, one per path.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !left.is_empty() {
            let i = if left.len() == 1 { 0 } else { self.choose(left.len()) };
            out.push(left.remove(i));
        }
        out
    }
    /// All subsets of `0..n`.
    pub fn subset(&mut self, n: usize) -> Vec<usize> {
        (0..n).filter(|_| self.flag()).collect()
    }
    /// Narration of the execution, kept only for samples and counterexamples.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace {
            let s = f();
            self.trace.push(s);
        }
    }
    /// Count implementation steps (transitions taken on the real code).
    pub fn step(&mut self, n: u64) {
        self.steps += n;
    }
    /// Fingerprint of a state reached (deduplicated over the whole run).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.push(hash_of(t));
    }
    /// Count an outcome class, to show the exploration is not vacuous.
    pub fn kind(&mut self, k: &str) {
        if let Some(e) = self.kinds.iter_mut().find(|(x, _)| x == k) {
            e.1 += 1;
        } else {
            self.kinds.push((k.to_string(), 1));
        }
    }
    /// The combination chosen is outside the space (e.g. a duplicate under symmetry): do not count it.
    pub fn prune(&mut self) -> R {
        self.pruned = true;
        Ok(())
    }
    pub fn tracing(&self) -> bool {
        self.want_trace
    }
}

type Body = Box<dyn Fn(&mut Ch) -> R + Send + Sync>;

pub struct Space {
    pub name: String,
    pub what: String,
    pub body: Body,
    pub threads: usize,
}

pub struct Check {
    pub property: String,
    pub tier: String,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<String>,
    pub notes: Vec<String>,
}

impl Check {
    pub fn new(property: &str, tier: &str) -> Self {
        Check {
            property: property.into(),
            tier: tier.into(),
            spaces: vec![],
            assumptions: vec![],
            notes: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn space(
        &mut self,
        name: &str,
        what: &str,
        body: impl Fn(&mut Ch) -> R + Send + Sync + 'static,
    ) {
        self.spaces.push(Space {
            name: name.into(),
            what: what.into(),
            body: Box::new(body),
            threads: 0,
        });
    }
    /// A space whose driver owns a global resource (a port, the working directory): one at a time.
    pub fn space_seq(
        &mut self,
        name: &str,
        what: &str,
        body: impl Fn(&mut Ch) -> R + Send + Sync + 'static,
    ) {
        self.space(name, what, body);
        self.spaces.last_mut().unwrap().threads = 1;
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if quiet {
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(info.to_string()));
        } else {
            default(info);
        }
    }));
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    LAST_PANIC
        .try_with(|l| l.borrow_mut().take())
        .ok()
        .flatten()
        .or_else(|| p.downcast_ref::<String>().cloned())
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// Runs implementation code; a panic in it is a violation with the given key.
pub fn guard<T>(key: &str, f: impl FnOnce() -> T) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => fail(key, format!("implementation panicked: {}", panic_text(p))),
    }
}

/// Silences the panic hook on the current (helper) thread, as the explorer does on its own.
pub fn quiet_thread() {
    QUIET.with(|q| *q.borrow_mut() = true);
}

struct RunOut {
    taken: Vec<(u32, u32)>,
    trace: Vec<String>,
    steps: u64,
    states: Vec<u64>,
    kinds: Vec<(String, u64)>,
    pruned: bool,
    result: R,
}

fn run_one(
    body: &Body,
    prefix: &[(u32, u32)],
    want_trace: bool,
    seen: Option<Arc<Seen>>,
) -> Result<RunOut, String> {
    let mut ch = Ch::new(prefix.to_vec(), want_trace, seen);
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    let result = match r {
        Ok(r) => r,
        Err(p) => {
            if let Some(d) = ch.diverged.take() {
                return Err(d);
            }
            let t = panic_text(p);
            fail("panic", format!("panicked: {t}"))
        }
    };
    if ch.taken.len() < prefix.len() && result.is_ok() {
        return Err(format!(
            "replay diverged: execution took {} choices, prefix has {}",
            ch.taken.len(),
            prefix.len()
        ));
    }
    Ok(RunOut {
        taken: ch.taken,
        trace: ch.trace,
        steps: ch.steps,
        states: ch.states,
        kinds: ch.kinds,
        pruned: ch.pruned,
        result,
    })
}

const SHARDS: usize = 64;

struct Shared {
    stack: Mutex<(Vec<Vec<(u32, u32)>>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    traces: AtomicU64,
    pruned: AtomicU64,
    steps: AtomicU64,
    choice_points: AtomicU64,
    max_depth: AtomicUsize,
    states: Vec<Mutex<HashSet<u64>>>,
    kinds: Mutex<BTreeMap<String, u64>>,
    worst: Mutex<Option<(Vec<(u32, u32)>, Fail)>>,
    known: Mutex<BTreeMap<String, (u64, Vec<(u32, u32)>, String)>>,
    error: Mutex<Option<String>>,
    samples: Mutex<Vec<Value>>,
    capped: AtomicBool,
    violations: AtomicU64,
}

pub struct SpaceOut {
    pub name: String,
    traces: u64,
    steps: u64,
    states: u64,
    pruned: u64,
    choice_points: u64,
    max_depth: usize,
    kinds: BTreeMap<String, u64>,
    worst: Option<(Vec<(u32, u32)>, Fail)>,
    known: BTreeMap<String, (u64, Vec<(u32, u32)>, String)>,
    error: Option<String>,
    samples: Vec<Value>,
    capped: bool,
    violations: u64,
    wall: f64,
}

fn explore(space: &Space, deadline: Instant, known_keys: &HashSet<String>, tag: u64) -> SpaceOut {
    let t0 = Instant::now();
    let n = if space.threads > 0 {
        space.threads
    } else {
        std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .min(16)
    };
    let sh = Shared {
        stack: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        traces: AtomicU64::new(0),
        pruned: AtomicU64::new(0),
        steps: AtomicU64::new(0),
        choice_points: AtomicU64::new(0),
        max_depth: AtomicUsize::new(0),
        states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
        kinds: Mutex::new(BTreeMap::new()),
        worst: Mutex::new(None),
        known: Mutex::new(BTreeMap::new()),
        error: Mutex::new(None),
        samples: Mutex::new(vec![]),
        capped: AtomicBool::new(false),
        violations: AtomicU64::new(0),
    };
    let sh = &sh;
    let seen = Arc::new(Seen((0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect()));
    let seen = &seen;
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    quiet_thread();
                    loop {
                        let prefix = {
                            let mut g = sh.stack.lock().unwrap();
                            loop {
                                if sh.stop.load(Ordering::Relaxed) {
                                    sh.cv.notify_all();
                                    return;
                                }
                                if let Some(p) = g.0.pop() {
                                    g.1 += 1;
                                    break p;
                                }
                                if g.1 == 0 {
                                    sh.cv.notify_all();
                                    return;
                                }
                                g = sh.cv.wait(g).unwrap();
                            }
                        };
                        let ordinal = sh.traces.load(Ordering::Relaxed);
                        // a few executions are narrated in full, as samples for the evidence file
                        let want_sample = ordinal < 2 || (ordinal & 0x3ff == 0 && {
                            let g = sh.samples.lock().unwrap();
                            g.len() < 4
                        });
                        let out = run_one(&space.body, &prefix, want_sample, Some(seen.clone()));
                        match out {
                            Err(e) => {
                                *sh.error.lock().unwrap() = Some(format!(
                                    "space {}: {e}; choices {:?}",
                                    space.name, prefix
                                ));
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                            Ok(out) => {
                                if out.pruned {
                                    sh.pruned.fetch_add(1, Ordering::Relaxed);
                                } else {
                                    sh.traces.fetch_add(1, Ordering::Relaxed);
                                    sh.steps.fetch_add(out.steps, Ordering::Relaxed);
                                    for st in &out.states {
                                        let st = st ^ tag;
                                        sh.states[(st as usize) % SHARDS].lock().unwrap().insert(st);
                                    }
                                    if !out.kinds.is_empty() {
                                        let mut g = sh.kinds.lock().unwrap();
                                        for (k, c) in out.kinds {
                                            *g.entry(k).or_default() += c;
                                        }
                                    }
                                    if want_sample && out.result.is_ok() {
                                        let mut g = sh.samples.lock().unwrap();
                                        if g.len() < 4 {
                                            g.push(json!({"space": space.name,
                                                "choices": out.taken.iter().map(|c| c.0).collect::<Vec<_>>(),
                                                "trace": out.trace.into_iter().take(40).collect::<Vec<_>>()}));
                                        }
                                    }
                                }
                                sh.choice_points
                                    .fetch_add(out.taken.len() as u64, Ordering::Relaxed);
                                sh.max_depth.fetch_max(out.taken.len(), Ordering::Relaxed);
                                if let Err(f) = &out.result {
                                    if known_keys.contains(&f.key) {
                                        let mut g = sh.known.lock().unwrap();
                                        let e = g.entry(f.key.clone()).or_insert((
                                            0,
                                            out.taken.clone(),
                                            f.msg.clone(),
                                        ));
                                        e.0 += 1;
                                    } else {
                                        sh.violations.fetch_add(1, Ordering::Relaxed);
                                        let mut g = sh.worst.lock().unwrap();
                                        let better = match &*g {
                                            None => true,
                                            Some((w, _)) => {
                                                (out.taken.len(), &out.taken) < (w.len(), w)
                                            }
                                        };
                                        if better {
                                            *g = Some((out.taken.clone(), f.clone()));
                                        }
                                        // keep going briefly so that a short counterexample wins
                                        if sh.violations.load(Ordering::Relaxed) >= 32 {
                                            sh.stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                                if sh.worst.lock().unwrap().is_some()
                                    && t0.elapsed() > Duration::from_secs(20)
                                {
                                    sh.stop.store(true, Ordering::Relaxed);
                                }
                                if Instant::now() > deadline {
                                    let g = sh.stack.lock().unwrap();
                                    if !g.0.is_empty() {
                                        sh.capped.store(true, Ordering::Relaxed);
                                    }
                                    drop(g);
                                    sh.stop.store(true, Ordering::Relaxed);
                                }
                                let mut more = vec![];
                                for i in prefix.len()..out.taken.len() {
                                    let (c, m) = out.taken[i];
                                    for alt in (c + 1..m).rev() {
                                        let mut p = out.taken[..i].to_vec();
                                        p.push((alt, m));
                                        more.push(p);
                                    }
                                }
                                // deepest alternatives last, so that they are explored first
                                let mut g = sh.stack.lock().unwrap();
                                g.0.extend(more);
                                drop(g);
                            }
                        }
                        let mut g = sh.stack.lock().unwrap();
                        g.1 -= 1;
                        sh.cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    let states = sh.states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
    let worst = sh.worst.lock().unwrap().clone();
    let known = sh.known.lock().unwrap().clone();
    let kinds = sh.kinds.lock().unwrap().clone();
    let error = sh.error.lock().unwrap().clone();
    let samples = sh.samples.lock().unwrap().clone();
    SpaceOut {
        name: space.name.clone(),
        traces: sh.traces.load(Ordering::Relaxed),
        steps: sh.steps.load(Ordering::Relaxed),
        states,
        pruned: sh.pruned.load(Ordering::Relaxed),
        choice_points: sh.choice_points.load(Ordering::Relaxed),
        max_depth: sh.max_depth.load(Ordering::Relaxed),
        kinds,
        worst,
        known,
        error,
        samples,
        capped: sh.capped.load(Ordering::Relaxed),
        violations: sh.violations.load(Ordering::Relaxed),
        wall: t0.elapsed().as_secs_f64(),
    }
}

pub struct Args {
    pub property: String,
    pub tier: String,
    pub replay: Option<String>,
    pub only: Option<String>,
}

pub fn args() -> Args {
    let mut property = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut replay = None;
    let mut only = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => tier = it.next().unwrap(),
            "--replay" => replay = it.next(),
            "--only" => only = it.next(),
            _ => property = a,
        }
    }
    Args {
        property,
        tier,
        replay,
        only,
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// (property, key, what) of the findings which are recorded rather than repaired.
fn known_findings(property: &str) -> BTreeMap<String, String> {
    let path = format!("{}/known_findings.json", verif_dir());
    let mut out = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(&path) {
        let v: Value = serde_json::from_str(&t).expect("known_findings.json is JSON");
        for f in v["findings"].as_array().into_iter().flatten() {
            if f["property"] == property && f["status"] == "known" {
                out.insert(
                    f["key"].as_str().unwrap_or("").to_string(),
                    f["what"].as_str().unwrap_or("").to_string(),
                );
            }
        }
    }
    out
}

/// Runs a check and exits: 0 if the property held on everything explored, 1 with a VIOLATION line
/// otherwise, 2 if the machinery itself failed.
pub fn main_loop(check: Check, a: &Args) -> ! {
    install_hook();
    quiet_thread();
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    if let Some(path) = &a.replay {
        let v: Value =
            serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
        let name = v["space"].as_str().unwrap();
        let choices: Vec<(u32, u32)> = v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|c| (c.as_u64().unwrap() as u32, u32::MAX))
            .collect();
        let space = check
            .spaces
            .iter()
            .find(|s| s.name == name)
            .expect("space of the replay file (same tier?)");
        let mut res = vec![];
        for _ in 0..2 {
            match run_one(&space.body, &choices, true, None) {
                Err(e) => {
                    println!("replay error: {e}");
                    std::process::exit(2);
                }
                Ok(o) => {
                    if res.is_empty() {
                        for l in &o.trace {
                            println!("  {l}");
                        }
                    }
                    res.push(match &o.result {
                        Ok(()) => "held".to_string(),
                        Err(f) => format!("violated [{}] {}", f.key, f.msg),
                    });
                }
            }
        }
        println!("replay 1: {}\nreplay 2: {}", res[0], res[1]);
        if res[0] != "held" {
            println!("VIOLATION property={} replay={}", check.property, path);
            std::process::exit(1);
        }
        std::process::exit(0);
    }
    let known = known_findings(&check.property);
    let known_keys: HashSet<String> = known.keys().cloned().collect();
    let budget: u64 = std::env::var("VERIF_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if check.thorough() { 3600 } else { 420 });
    let deadline = t0 + Duration::from_secs(budget);
    let mut outs = vec![];
    let mut bad: Option<(String, Vec<(u32, u32)>, Fail)> = None;
    let mut error = None;
    for (i, sp) in check.spaces.iter().enumerate() {
        if let Some(o) = &a.only {
            if !sp.name.contains(o.as_str()) {
                continue;
            }
        }
        // A slow machine cuts spaces short, but none of them out
        let deadline = deadline.max(Instant::now() + Duration::from_secs(12));
        let out = explore(sp, deadline, &known_keys, hash_of(&(i as u64, 77u8)));
        println!(
            "[{}] space {:<28} traces={} states={} transitions={} choice_points={} depth<={} pruned={} wall={:.1}s{}{}",
            check.property, out.name, out.traces, out.states, out.steps, out.choice_points,
            out.max_depth, out.pruned, out.wall,
            if out.capped { " CAPPED" } else { "" },
            if out.violations > 0 { " VIOLATED" } else { "" },
        );
        if let Some(e) = &out.error {
            error = Some(e.clone());
        }
        if let Some((c, f)) = &out.worst {
            if bad.is_none() {
                bad = Some((sp.name.clone(), c.clone(), f.clone()));
            }
        }
        let stop = (bad.is_some() || error.is_some()) && std::env::var_os("VERIF_ALL").is_none();
        if let Some((_, f)) = &out.worst {
            println!("  [{}] {}", f.key, f.msg.chars().take(300).collect::<String>());
        }
        outs.push(out);
        if stop {
            break;
        }
    }
    if outs.iter().any(|o| o.traces == 0 && !o.capped) || outs.is_empty() {
        error.get_or_insert("a space without a single execution".into());
    }
    let mut seen_known: BTreeMap<String, (u64, String, Vec<(u32, u32)>, String)> = BTreeMap::new();
    for o in &outs {
        for (k, (n, c, m)) in &o.known {
            let e = seen_known
                .entry(k.clone())
                .or_insert((0, o.name.clone(), c.clone(), m.clone()));
            e.0 += n;
        }
    }
    for (k, (n, sp, _, m)) in &seen_known {
        println!(
            "KNOWN-FINDING: property={} {} [{}; {} executions in space {}; e.g. {}]",
            check.property, known[k], k, n, sp, m.chars().take(200).collect::<String>().replace('\n', " ")
        );
    }
    let wall = t0.elapsed().as_secs_f64();
    let exhaustive = outs.iter().all(|o| !o.capped) && error.is_none() && bad.is_none();
    let sum = |f: &dyn Fn(&SpaceOut) -> u64| outs.iter().map(f).sum::<u64>();
    let ev = json!({
        "property": check.property,
        "tier": check.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(&|o| o.states),
            "transitions": sum(&|o| o.steps),
            "traces_validated_against_impl": sum(&|o| o.traces),
            "exhaustive": exhaustive,
            "rule": "states: distinct fingerprints of the configurations/states reached; transitions: calls into the real code under a chosen alternative; traces: complete executions of a driver, every one compared with the reference model. All choice sequences of each space are enumerated.",
            "spaces": outs.iter().zip(check.spaces.iter().filter(|s| outs.iter().any(|o| o.name == s.name))).map(|(o, s)| json!({
                "name": o.name, "what": s.what, "traces": o.traces, "states": o.states, "transitions": o.steps,
                "choice_points": o.choice_points, "max_choices_per_trace": o.max_depth, "pruned": o.pruned,
                "outcomes": o.kinds, "capped": o.capped, "wall_s": (o.wall*100.0).round()/100.0,
            })).collect::<Vec<_>>(),
            "known_findings_seen": seen_known.iter().map(|(k, v)| json!({"key": k, "executions": v.0, "space": v.1,
                "choices": v.2.iter().map(|c| c.0).collect::<Vec<_>>(), "example": v.3})).collect::<Vec<_>>(),
            "samples": outs.iter().flat_map(|o| o.samples.iter().take(2).cloned()).take(10).collect::<Vec<_>>(),
        },
        "assumptions": check.assumptions,
        "wall_s": (wall*100.0).round()/100.0,
        "violations": sum(&|o| o.violations),
    });
    let evdir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&evdir);
    if a.only.is_none() {
        std::fs::write(
            format!("{evdir}/{}.json", check.property),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
    }
    if let (Some(e), None) = (&error, &bad) {
        println!("ENGINE-ERROR property={} {e}", check.property);
        std::process::exit(2);
    }
    if let Some((sp, choices, f)) = bad {
        let space = check.spaces.iter().find(|s| s.name == sp).unwrap();
        let trace = run_one(&space.body, &choices, true, None)
            .map(|o| o.trace)
            .unwrap_or_default();
        let path = format!("{evdir}/{}.replay.json", check.property);
        let rep = json!({
            "property": check.property, "tier": check.tier, "space": sp,
            "choices": choices.iter().map(|c| c.0).collect::<Vec<_>>(),
            "key": f.key, "message": f.msg, "trace": trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n").unwrap();
        println!("violated in space {sp}: [{}] {}", f.key, f.msg);
        for l in &trace {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", check.property, path);
        std::process::exit(1);
    }
    println!(
        "OK property={} tier={} states={} transitions={} traces={} exhaustive={} wall={:.1}s",
        check.property,
        check.tier,
        sum(&|o| o.states),
        sum(&|o| o.steps),
        sum(&|o| o.traces),
        exhaustive,
        wall
    );
    std::process::exit(0);
}

thread_local! {
    static HASH_SEED: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
/// Interposed libc `getrandom`: deterministic on threads started by [`with_hash_seed`], the kernel's
/// otherwise. It is where the standard library takes the keys of a thread's hash maps from.
///
/// # Safety
/// As for libc's `getrandom`: `buf` must be valid for writes of `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match HASH_SEED.try_with(|s| s.get()).ok().flatten() {
        Some(mut x) => {
            for i in 0..len {
                x = x
                    .wrapping_mul(6364136223846793005)
                    .wrapping_add(1442695040888963407);
                *buf.add(i) = (x >> 33) as u8;
            }
            HASH_SEED.with(|s| s.set(Some(x)));
            len as isize
        }
        None => libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize,
    }
}
/// Runs `f` on a fresh thread on which every hash map's iteration order is a function of `seed`.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        s.spawn(move || {
            quiet_thread();
            HASH_SEED.with(|h| h.set(Some(seed ^ 0x9e3779b97f4a7c15)));
            f()
        })
        .join()
        .unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

#[cfg(test)]
mod tests {
    #[test]
    fn hash_order_is_controlled() {
        let order = |seed| {
            super::with_hash_seed(seed, || {
                let m: std::collections::HashMap<u32, ()> = (0..6).map(|i| (i, ())).collect();
                m.into_keys().collect::<Vec<_>>()
            })
        };
        assert_eq!(order(1), order(1));
        let distinct: std::collections::BTreeSet<_> = (0..50).map(order).collect();
        assert!(distinct.len() > 40, "{}", distinct.len());
    }
}
