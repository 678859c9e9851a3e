//! Execution core: deterministic cases, verdict bookkeeping, evidence, replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A refutation witnessed by an oracle. `key` identifies the kind of failure
/// (used to match known findings exactly); `msg` is for people.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($fmt:tt)*) => {
        if !($c) { return $crate::core::fail($key, format!($($fmt)*)); }
    };
}

/// The call was expected to succeed.
pub fn ok<T, E: core::fmt::Debug>(r: Result<T, E>, key: &str) -> Res<T> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => fail(key, format!("expected success, got error {:?}", e)),
    }
}
pub fn some<T>(r: Option<T>, key: &str) -> Res<T> {
    match r {
        Some(v) => Ok(v),
        None => fail(key, "expected a value, got none"),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Small deterministic generator for everything the harness decides.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn from_label(label: &str) -> Rng {
        let h = blake3::hash(label.as_bytes());
        let b = h.as_bytes();
        let mut s = [0u64; 4];
        for i in 0..4 {
            s[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0u8; N];
        self.fill(&mut v);
        v
    }
    pub fn choose<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a random subset of 0..n of size k, ascending
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v.truncate(k);
        v.sort();
        v
    }
}

/// One execution of the code under test, with what the monitors saw.
pub struct Case {
    pub rng: Rng,
    pub idx: usize,
    pub family: &'static str,
    pub tier: Tier,
    pub trace: Vec<String>,
    events: BTreeMap<String, u64>,
    states: Vec<u64>,
    nontrivial: bool,
}
impl Case {
    /// count a monitored observation
    pub fn ev(&mut self, name: &str) {
        if let Some(c) = self.events.get_mut(name) {
            *c += 1;
        } else {
            self.events.insert(name.to_string(), 1);
        }
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        *self.events.entry(name.to_string()).or_insert(0) += n;
    }
    /// record a distinct non-trivial state / input / history, by its content
    pub fn state(&mut self, bytes: &[u8]) {
        self.nontrivial = true;
        let h = blake3::hash(bytes);
        self.states.push(u64::from_le_bytes(h.as_bytes()[..8].try_into().unwrap()));
    }
    pub fn log(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            self.trace.push(s.into());
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub idx: usize,
    pub key: String,
    pub msg: String,
    pub trace: Vec<String>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    events: BTreeMap<String, u64>,
    states: HashSet<u64>,
    samples: Vec<serde_json::Value>,
    violations: Vec<Violation>,
    known_hit: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    inconclusive: Vec<String>,
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub known: Vec<(String, String)>,
    pub only: Option<(String, usize)>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, serde_json::Value>>,
    stats: Mutex<Stats>,
    start: Instant,
    pub threads: usize,
    pub scale: usize,
    stop: AtomicBool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !QUIET.with(|q| *q.borrow()) {
            def(info);
        }
    }));
}

/// Outcome of a guarded library call.
pub enum Guard<T> {
    Val(T),
    Panic { loc: String, msg: String },
}

/// run a library call, observing a panic instead of dying of it
pub fn guard<T>(f: impl FnOnce() -> T) -> Guard<T> {
    let prev = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    match r {
        Ok(v) => Guard::Val(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Guard::Panic { loc, msg }
        }
    }
}
/// like guard, but a panic refutes the property under `key`
pub fn nopanic<T>(key: &str, f: impl FnOnce() -> T) -> Res<T> {
    match guard(f) {
        Guard::Val(v) => Ok(v),
        Guard::Panic { loc, msg } => {
            if is_harness_loc(&loc) {
                panic!("harness panic inside guarded call at {}: {}", loc, msg);
            }
            fail(format!("panic:{}", key), format!("panicked at {}: {}", loc, msg))
        }
    }
}
fn is_harness_loc(loc: &str) -> bool {
    // paths of this crate are relative ("src/..."), those of the library are absolute or under its path
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

const SLOT: usize = 192;
pub struct Journal {
    f: Option<std::fs::File>,
}
impl Journal {
    fn open() -> Journal {
        let f = std::env::var("KVMON_JOURNAL")
            .ok()
            .and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok());
        Journal { f }
    }
    fn set(&self, slot: usize, family: &str, idx: usize) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.f {
            let mut b = [b' '; SLOT];
            let s = format!("{} {}", family, idx);
            let n = s.len().min(SLOT - 1);
            b[..n].copy_from_slice(&s.as_bytes()[..n]);
            b[SLOT - 1] = b'\n';
            let _ = f.write_all_at(&b, (slot * SLOT) as u64);
        }
    }
    fn clear(&self, slot: usize) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.f {
            let mut b = [b' '; SLOT];
            b[SLOT - 1] = b'\n';
            let _ = f.write_all_at(&b, (slot * SLOT) as u64);
        }
    }
}

fn thread_cpu_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
    }
    c
}
fn cpu_ms(c: libc::clockid_t) -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(c, &mut t);
    }
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

/// CPU time a single case may burn before it counts as "does not return".
/// Cases cost milliseconds to a couple of seconds.
pub const HANG_CPU_MS: u64 = 100_000;

/// How many times the basic workload of a check makes its quick tier: about half a
/// minute on eight cores. Only what a case costs, and so the numbers in the
/// evidence, depend on it.
fn quick_scale(prop: &str) -> usize {
    match prop {
        "C01" | "C07" => 60,
        "C08" | "C14" => 40,
        "C05" | "C12" => 30,
        "C13" | "C18" | "C19" => 20,
        "C06" | "C15" => 15,
        "C09" | "C17" => 12,
        "C02" | "C03" | "C04" => 8,
        "C29" => 15,
        "C10" | "C11" | "C16" | "C23" => 5,
        "C21" | "C27" => 4,
        "C20" | "C28" => 3,
        "C22" | "C24" | "C25" => 2,
        _ => 1,
    }
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, tier: Tier, known: Vec<(String, String)>) -> Ctx {
        Ctx {
            prop,
            seed,
            tier,
            known,
            only: None,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            extra: Mutex::new(BTreeMap::new()),
            stats: Mutex::new(Stats::default()),
            start: Instant::now(),
            threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8),
            scale: std::env::var("KVMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| quick_scale(prop)),
            stop: AtomicBool::new(false),
        }
    }
    pub fn rule(&self, s: &str) {
        let mut r = self.rule.lock().unwrap();
        if !r.is_empty() {
            r.push(' ');
        }
        r.push_str(s);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// number of cases by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        match self.tier {
            Tier::Quick => (quick * self.scale).min(thorough.max(quick)),
            Tier::Thorough => thorough,
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn label(&self, family: &str, idx: usize) -> String {
        format!("kvmon/{}/{}/{}/{}", self.prop, family, idx, self.seed)
    }

    /// Run `n` independent cases of a family in parallel. Each case is a pure
    /// function of (VERIF_SEED, property, family, index).
    pub fn family<F>(&self, family: &'static str, n: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let (lo, hi) = match &self.only {
            Some((fam, i)) => {
                if fam != family {
                    return;
                }
                (*i, *i + 1)
            }
            None => (0, n),
        };
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        let next = AtomicUsize::new(lo);
        let journal = Journal::open();
        let nthreads = self.threads.min((hi - lo).max(1));
        // per worker: cpu clock id + cpu at case start + idx+1 (0 = idle)
        let slots: Vec<(AtomicU64, AtomicU64, AtomicUsize)> =
            (0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicUsize::new(0))).collect();
        let done = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for w in 0..nthreads {
                let (next, journal, slots, done, f) = (&next, &journal, &slots, &done, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let clk = thread_cpu_clock();
                        slots[w].0.store(clk as i64 as u64, Ordering::SeqCst);
                        QUIET.with(|q| *q.borrow_mut() = true);
                        let mut local = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= hi || self.stop.load(Ordering::SeqCst) {
                                break;
                            }
                            journal.set(w, family, i);
                            slots[w].1.store(cpu_ms(clk), Ordering::SeqCst);
                            slots[w].2.store(i + 1, Ordering::SeqCst);
                            self.one(family, i, f, &mut local);
                            slots[w].2.store(0, Ordering::SeqCst);
                            if local.violations.len() >= 3 {
                                self.stop.store(true, Ordering::SeqCst);
                            }
                        }
                        journal.clear(w);
                        self.merge(local);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // hang monitor: decides on CPU time of the case, not on the wall clock
            while done.load(Ordering::SeqCst) < nthreads {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for s in slots.iter() {
                    let i = s.2.load(Ordering::SeqCst);
                    if i == 0 {
                        continue;
                    }
                    let used = cpu_ms(s.0.load(Ordering::SeqCst) as i64 as libc::clockid_t)
                        .saturating_sub(s.1.load(Ordering::SeqCst));
                    if used > HANG_CPU_MS && s.2.load(Ordering::SeqCst) == i {
                        let v = Violation {
                            family: family.into(),
                            idx: i - 1,
                            key: format!("hang:{}", family),
                            msg: format!("case burnt {} ms of CPU without returning", used),
                            trace: vec![],
                        };
                        {
                            let mut st = self.stats.lock().unwrap();
                            st.violations.push(v);
                        }
                        let code = self.finish();
                        std::process::exit(code);
                    }
                }
            }
        });
    }

    fn one<F>(&self, family: &'static str, i: usize, f: &F, local: &mut Stats)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let label = self.label(family, i);
        let mut case = Case {
            rng: Rng::from_label(&label),
            idx: i,
            family,
            tier: self.tier,
            trace: vec![],
            events: BTreeMap::new(),
            states: vec![],
            nontrivial: false,
        };
        crate::suite::seed_thread(&label);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
        local.evaluations += 1;
        *local.families.entry(family.to_string()).or_insert(0) += 1;
        let failed = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if is_harness_loc(&loc) {
                    local.inconclusive.push(format!("harness panic {} {} in {} #{}", loc, msg, family, i));
                    None
                } else {
                    Some(Fail {
                        key: format!("panic:{}", family),
                        msg: format!("code under test panicked at {}: {}", loc, msg),
                    })
                }
            }
        };
        for (k, v) in case.events.iter() {
            *local.events.entry(k.clone()).or_insert(0) += v;
        }
        local.states.extend(case.states.iter());
        if let Some(e) = failed {
            if self.known.iter().any(|(k, _)| *k == e.key) {
                *local.known_hit.entry(e.key).or_insert(0) += 1;
            } else {
                local.violations.push(Violation {
                    family: family.into(),
                    idx: i,
                    key: e.key,
                    msg: e.msg,
                    trace: case.trace.clone(),
                });
            }
        }
        if case.nontrivial && (local.samples.len() < 2) {
            local.samples.push(serde_json::json!({
                "family": family, "case": i, "events": case.events, "trace": case.trace.iter().take(12).collect::<Vec<_>>(),
            }));
        }
    }

    fn merge(&self, l: Stats) {
        let mut s = self.stats.lock().unwrap();
        s.evaluations += l.evaluations;
        for (k, v) in l.events {
            *s.events.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.families {
            *s.families.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.known_hit {
            *s.known_hit.entry(k).or_insert(0) += v;
        }
        s.states.extend(l.states);
        if s.samples.len() < 6 {
            s.samples.extend(l.samples.into_iter().take(1));
        }
        s.violations.extend(l.violations);
        s.inconclusive.extend(l.inconclusive);
    }

    /// The run is inconclusive unless the monitors saw at least `n` of `event`.
    pub fn require(&self, event: &str, n: u64) {
        if self.only.is_some() {
            return;
        }
        let mut s = self.stats.lock().unwrap();
        if !s.violations.is_empty() {
            return;
        }
        let got = s.events.get(event).copied().unwrap_or(0);
        if got < n {
            s.inconclusive.push(format!("monitor saw only {} of event '{}' (needs {})", got, event, n));
        }
    }

    pub fn finish(&self) -> i32 {
        let s = self.stats.lock().unwrap();
        let verif = verif_dir();
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        for (k, what) in &self.known {
            if s.known_hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
            }
        }
        let mut code = 0;
        let mut vio_keys: Vec<String> = vec![];
        if !s.violations.is_empty() {
            code = 1;
            // first (lowest case) per key
            let mut by: BTreeMap<String, Violation> = BTreeMap::new();
            for v in &s.violations {
                let e = by.entry(v.key.clone()).or_insert_with(|| v.clone());
                if v.idx < e.idx {
                    *e = v.clone();
                }
            }
            for (n, (k, v)) in by.iter().enumerate().take(5) {
                let dir = verif.join("evidence").join("replay");
                let _ = std::fs::create_dir_all(&dir);
                let p = dir.join(format!("{}-{}.json", self.prop, n));
                let j = serde_json::json!({
                    "property": self.prop, "seed": self.seed, "tier": tier, "family": v.family, "case": v.idx,
                    "key": v.key, "message": v.msg, "trace": v.trace,
                    "how": format!("bash run.sh replay {}", p.display()),
                });
                let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
                println!("{} #{} [{}]: {}", v.family, v.idx, k, v.msg);
                println!("VIOLATION property={} replay={}", self.prop, p.display());
                vio_keys.push(k.clone());
            }
        } else if !s.inconclusive.is_empty() {
            code = 3;
            for x in s.inconclusive.iter().take(10) {
                println!("INCONCLUSIVE property={} {}", self.prop, x);
            }
        }
        if self.only.is_none() {
            let mut cov = serde_json::json!({
                "evaluations": s.evaluations,
                "distinct_nontrivial": s.states.len(),
                "rule": *self.rule.lock().unwrap(),
                "samples": s.samples,
                "monitor_events": s.events,
                "cases_by_family": s.families,
                "known_findings_seen": s.known_hit,
                "violation_keys": vio_keys,
                "inconclusive": s.inconclusive.iter().take(5).collect::<Vec<_>>(),
            });
            for (k, v) in self.extra.lock().unwrap().iter() {
                cov[k] = v.clone();
            }
            let ev = serde_json::json!({
                "property": self.prop,
                "tier": tier,
                "seed": self.seed,
                "level": "exploration",
                "coverage": cov,
                "assumptions": *self.assumptions.lock().unwrap(),
                "violations": s.violations.len(),
                "wall_s": self.start.elapsed().as_secs_f64(),
            });
            let dir = verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(
                dir.join(format!("{}.json", self.prop)),
                serde_json::to_string_pretty(&ev).unwrap(),
            );
        }
        println!(
            "{} {} seed={} cases={} distinct={} violations={} wall={:.1}s",
            self.prop,
            tier,
            self.seed,
            s.evaluations,
            s.states.len(),
            s.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::io::stdout().flush();
        code
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("KVMON_VERIF").map(Into::into).unwrap_or_else(|_| "/verif".into())
}
