//! C26 no interference between calls and threads. The operations run in child
//! processes (crate sanit/, also built with sanitizers); this module compares.
use crate::core::*;
use crate::ensure;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

#[derive(Default, Debug, Clone)]
struct Out {
    /// (operation, parameter) -> digests of its outcomes
    ops: BTreeMap<(String, usize), BTreeSet<String>>,
    raw: BTreeMap<String, BTreeSet<String>>,
    before: String,
    after: String,
    panics: Vec<String>,
    n: u64,
    switches: u64,
    order: String,
}
enum End {
    Done(Out),
    /// the environment, not the code, prevented an observation
    Unusable(String),
}

fn flavour(name: &str) -> Option<Vec<String>> {
    let v = std::env::var(format!("KVSAN_{}", name.to_uppercase())).ok()?;
    let w: Vec<String> = v.split_whitespace().map(|s| s.to_string()).collect();
    if w.is_empty() {
        None
    } else {
        Some(w)
    }
}
fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
/// normal children take milliseconds, under a sanitizer a few seconds
const WALL: u64 = 150;

fn child(kind: &str, args: &[String]) -> Res<End> {
    child_n(kind, args, 0)
}
fn child_n(kind: &str, args: &[String], attempt: u32) -> Res<End> {
    let Some(cmd) = flavour(kind) else { return Ok(End::Unusable("not built".into())) };
    let mut c = Command::new(&cmd[0]);
    c.args(&cmd[1..]).args(args);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 report_thread_leaks=0");
    c.env("ASAN_OPTIONS", "detect_leaks=0 exitcode=67 allocator_may_return_null=1");
    c.env("RUST_BACKTRACE", "0");
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return Ok(End::Unusable(format!("cannot start: {}", e))),
    };
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let (a, b) = (
        std::thread::spawn(move || {
            let mut s = vec![];
            let _ = so.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        }),
        std::thread::spawn(move || {
            let mut s = vec![];
            let _ = se.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        }),
    );
    let t0 = Instant::now();
    let limit = if kind == "miri" { 4 * WALL } else { WALL };
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => (),
            Err(_) => break None,
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            let cpu = cpu_of(ch.id());
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = (a.join(), b.join());
            if kind == "miri" {
                return Ok(End::Unusable("interpreter too slow".into()));
            }
            if attempt == 0 {
                return child_n(kind, args, 1);
            }
            let what = if cpu < 5.0 { "all threads block each other" } else { "does not end" };
            return fail(format!("stuck:{}", args[0]), format!("{} {:?}: {} after {} s, {:.0} s of CPU", kind, args, what, limit, cpu));
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let (so, se) = (a.join().unwrap_or_default(), b.join().unwrap_or_default());
    let head = |s: &str, k: &str| -> String {
        let i = s.find(k).unwrap_or(0);
        s[i..].chars().take(1500).collect()
    };
    for (mark, key) in [
        ("WARNING: ThreadSanitizer: data race", "data-race"),
        ("WARNING: ThreadSanitizer", "thread-sanitizer"),
        ("ERROR: AddressSanitizer", "address-sanitizer"),
        ("error: Undefined Behavior", "undefined-behaviour"),
    ] {
        if se.contains(mark) {
            return fail(key, format!("{} {:?}: {}", kind, args, head(&se, mark)));
        }
    }
    use std::os::unix::process::ExitStatusExt;
    let Some(st) = st else { return Ok(End::Unusable("lost".into())) };
    if let Some(sig) = st.signal() {
        if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
            return fail(format!("crash:{}", args[0]), format!("{} {:?} died of signal {}: {}", kind, args, sig, head(&se, "")));
        }
        return Ok(End::Unusable(format!("signal {}", sig)));
    }
    if st.code() == Some(101) && se.contains("panicked") {
        return fail(format!("panic:{}", args[0]), format!("{} {:?}: {}", kind, args, head(&se, "")));
    }
    if st.code() != Some(0) {
        return Ok(End::Unusable(format!("exit {:?}: {}", st.code(), head(&se, ""))));
    }
    let mut o = Out::default();
    for l in so.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "R" if w.len() == 4 => {
                o.ops.entry((w[1].into(), w[2].parse().unwrap_or(0))).or_default().insert(w[3].into());
            }
            "W" if w.len() == 3 => {
                o.raw.entry(w[1].into()).or_default().insert(w[2].into());
            }
            "F" if w.len() == 3 => (o.before, o.after) = (w[1].into(), w[2].into()),
            "P" => o.panics.push(l.into()),
            "N" if w.len() == 3 => (o.n, o.switches) = (w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(0)),
            "O" if w.len() == 2 => o.order = w[1].into(),
            _ => (),
        }
    }
    Ok(End::Done(o))
}
fn words(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

struct Base {
    ops: Vec<(String, bool)>,
    params: usize,
    raws: Vec<String>,
    /// each operation alone in a fresh process
    alone: BTreeMap<(String, usize), String>,
    raw: BTreeMap<String, String>,
    print: String,
    bad: Vec<Fail>,
}
static BASE: OnceLock<Base> = OnceLock::new();

fn lines(arg: &str) -> Vec<String> {
    let c = flavour("plain").expect("KVSAN_PLAIN");
    let o = Command::new(&c[0]).arg(arg).output().expect("kvsan");
    String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
}
fn base() -> &'static Base {
    BASE.get_or_init(|| {
        let mut b = Base { ops: vec![], params: 0, raws: lines("raws"), alone: Default::default(), raw: Default::default(), print: String::new(), bad: vec![] };
        for l in lines("ops") {
            let (n, h) = l.split_once(' ').unwrap();
            if n == "#" {
                b.params = h.parse().unwrap();
            } else {
                b.ops.push((n.into(), h == "1"));
            }
        }
        let mut todo: Vec<Vec<String>> = vec![];
        for (o, _) in &b.ops {
            for p in 0..b.params {
                todo.push(words(&["solo", o, &p.to_string()]));
            }
        }
        for r in &b.raws {
            todo.push(words(&["raw", r]));
        }
        let next = std::sync::atomic::AtomicUsize::new(0);
        let got = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(a) = todo.get(i) else { break };
                    let r = child("plain", a);
                    got.lock().unwrap().push((i, r));
                });
            }
        });
        let mut got = got.into_inner().unwrap();
        got.sort_by_key(|x| x.0);
        for (_, r) in got {
            match r {
                Err(f) => b.bad.push(f),
                Ok(End::Unusable(w)) => b.bad.push(Fail { key: "harness".into(), msg: w }),
                Ok(End::Done(o)) => {
                    for (k, v) in o.ops {
                        b.alone.insert(k, v.into_iter().next().unwrap());
                    }
                    for (k, v) in o.raw {
                        b.raw.insert(k, v.into_iter().next().unwrap());
                    }
                    if o.before != "-" {
                        b.print = o.before;
                    }
                }
            }
        }
        b
    })
}

/// everything a child saw against the operations run alone
fn judge(c: &mut Case, kind: &str, what: &str, args: &[String]) -> Res {
    let b = base();
    if let Some(f) = b.bad.first() {
        return Err(f.clone());
    }
    let o = match child(kind, args)? {
        End::Done(o) => o,
        End::Unusable(w) => {
            c.ev(&format!("unusable-{}", kind));
            c.log(w);
            return Ok(());
        }
    };
    if let Some(p) = o.panics.first() {
        return fail(format!("panic:{}", p.split(' ').nth(1).unwrap_or("")), format!("{} {:?}: {}", kind, args, p));
    }
    for ((n, p), hs) in &o.ops {
        let want = some(b.alone.get(&(n.clone(), *p)), "harness")?;
        ensure!(
            hs.len() == 1 && hs.contains(want),
            &format!("{}:{}", what, n),
            "{} {:?}: {} (inputs {}) gave {:?}, alone in a fresh process {}",
            kind,
            args,
            n,
            p,
            hs,
            want
        );
        c.ev("outcomes-compared");
    }
    for (n, hs) in &o.raw {
        let want = some(b.raw.get(n), "harness")?;
        ensure!(hs.len() == 1 && hs.contains(want), &format!("{}:raw-{}", what, n), "{} {:?}: {} gave {:?}, first of all {}", kind, args, n, hs, want);
        c.ev("outcomes-compared");
    }
    ensure!(o.before == o.after, &format!("argument-changed:{}", what), "{} {:?}: the shared values were modified", kind, args);
    ensure!(o.before == "-" || o.before == b.print, &format!("{}:setup", what), "{} {:?}: the shared values were built differently", kind, args);
    c.evn("operations", o.n);
    c.evn("thread-switches", o.switches);
    c.ev(&format!("runs-{}", kind));
    c.ev(what);
    c.state(format!("{} {:?} {}", kind, args, o.order).as_bytes());
    Ok(())
}

fn solo(c: &mut Case) -> Res {
    let b = base();
    let (o, p) = (&b.ops[c.idx / b.params % b.ops.len()].0, c.idx % b.params);
    judge(c, "plain", "alone", &words(&["solo", o, &p.to_string()]))
}
fn hist(c: &mut Case, kind: &str, n: usize) -> Res {
    let s = c.rng.u64().to_string();
    judge(c, kind, "history", &words(&["hist", &s, &n.to_string()]))
}
fn threads(c: &mut Case, kind: &str, n: usize) -> Res {
    let s = c.rng.u64().to_string();
    let t = *c.rng.choose(&[2usize, 3, 4, 8, 16]);
    let focus = *c.rng.choose(&[0usize, 1, 1, 2, 3, 6]);
    judge(c, kind, "threads", &words(&["threads", &s, &t.to_string(), &n.to_string(), &focus.to_string()]))
}
fn first(c: &mut Case, kind: &str) -> Res {
    let s = c.rng.u64().to_string();
    let t = *c.rng.choose(&[2usize, 4, 8, 16]);
    judge(c, kind, "first-use", &words(&["first", &s, &t.to_string()]))
}
/// one kind of operation only, its parameters mixed: a stale cache shows
fn storm(c: &mut Case, kind: &str) -> Res {
    let b = base();
    let o = b.ops[c.idx % b.ops.len()].clone();
    let s = c.rng.u64().to_string();
    let n = if o.1 { 6 } else { 40 };
    judge(c, kind, "storm", &words(&["storm", &s, "8", &n.to_string(), &o.0]))
}
/// an operation right after another one, for every pair
fn pairs(c: &mut Case) -> Res {
    let b = base();
    let s = c.rng.u64().to_string();
    let o = &b.ops[c.idx % b.ops.len()].0;
    judge(c, "plain", "after", &words(&["after", &s, o]))
}
fn miri(c: &mut Case) -> Res {
    let b = base();
    let r = &b.raws[c.idx % b.raws.len()];
    if !c.thorough() && ["embed", "schnorr", "eddsa"].contains(&r.as_str()) {
        // minutes in the interpreter
        return Ok(());
    }
    judge(c, "miri", "interpreted", &words(&["raw", r]))
}

pub fn run_c26(ctx: &Ctx) {
    ctx.rule("every outcome compared with the same operation alone in a fresh process; non-trivial = distinct histories and thread interleavings");
    ctx.assume("operations report what they return through encodings; randomised ones run on a seeded random stream, those using the operating system's entropy are judged by what does not depend on it");
    if flavour("plain").is_none() {
        println!("INCONCLUSIVE: run through run.sh");
        ctx.require("runs-plain", 1);
        return;
    }
    let b = base();
    ctx.family("alone", b.ops.len() * b.params, solo);
    ctx.family("after", b.ops.len() * ctx.n(1, 6), pairs);
    ctx.family("history", ctx.n(150, 3000), |c| hist(c, "plain", 150));
    ctx.family("storm", b.ops.len() * ctx.n(2, 20), |c| storm(c, "plain"));
    ctx.family("threads", ctx.n(300, 6000), |c| threads(c, "plain", 40));
    ctx.family("first-use", ctx.n(200, 3000), |c| first(c, "plain"));
    for (k, q, t) in [("tsan", 60, 700), ("asan", 40, 500)] {
        if flavour(k).is_none() {
            continue;
        }
        // the loops below name their families by kind for the replays
        let f: [&'static str; 4] = if k == "tsan" { ["tsan-storm", "tsan-threads", "tsan-first", "tsan-history"] } else { ["asan-storm", "asan-threads", "asan-first", "asan-history"] };
        ctx.family(f[0], b.ops.len() * ctx.n(1, 4), |c| storm(c, k));
        ctx.family(f[1], ctx.n(q, t), |c| threads(c, k, 20));
        ctx.family(f[2], ctx.n(q / 2, t), |c| first(c, k));
        ctx.family(f[3], ctx.n(q / 4, t / 4), |c| hist(c, k, 60));
    }
    if flavour("miri").is_some() {
        ctx.family("miri", b.raws.len(), miri);
    }
    ctx.require("runs-plain", 500);
    ctx.require("thread-switches", 2000);
    ctx.require("outcomes-compared", 10000);
}
