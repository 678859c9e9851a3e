//! Workload for C26: a catalogue of operations on shared immutable values, run
//! alone, after other operations, by many threads at once and as the first
//! thing a process does. Prints what every operation gave; the judge is kvmon.
#[path = "../../harness/src/suite.rs"]
#[allow(dead_code)]
mod suite;
mod ops;

use ops::{build, catalogue, fingerprint, raw, run, Fix, PARAMS};
use std::collections::BTreeSet;
use std::sync::{Barrier, Mutex};

#[derive(Clone)]
pub struct Rng(blake3::OutputReader);
impl Rng {
    pub fn new(label: &str) -> Rng {
        Rng(blake3::Hasher::new().update(label.as_bytes()).finalize_xof())
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        self.0.fill(b)
    }
    pub fn u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill(&mut b);
        u64::from_le_bytes(b)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn short(b: &[u8]) -> String {
    hex(&blake3::hash(b).as_bytes()[..12])
}

/// what one thread saw: (op, param, digest of the outcome), in order
type Seen = Vec<(usize, usize, String)>;

fn report(f0: &str, f1: &str, seen: &[Seen], raws: &BTreeSet<String>, orders: usize) {
    let mut out = BTreeSet::new();
    let mut n = 0;
    for s in seen {
        for (o, p, h) in s {
            n += 1;
            out.insert(format!("R {} {} {}", catalogue()[*o].0, p, h));
        }
    }
    for l in out {
        println!("{}", l);
    }
    for r in raws {
        println!("W {}", r);
    }
    println!("F {} {}", f0, f1);
    println!("N {} {}", n, orders);
}

fn pick(r: &mut Rng, heavy: bool, only: &[usize]) -> (usize, usize) {
    let c = catalogue();
    loop {
        let o = if only.is_empty() { r.below(c.len()) } else { only[r.below(only.len())] };
        if !heavy && c[o].2 && r.below(12) != 0 {
            continue;
        }
        return (o, r.below(PARAMS));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
    match a.first().map(|x| x.as_str()).unwrap_or("") {
        "ops" => {
            for (n, _, h) in catalogue() {
                println!("{} {}", n, *h as u8);
            }
            println!("# {}", PARAMS);
        }
        // raw NAME..: operations from plain bytes, two threads at once (for the interpreter)
        "raw" => {
            let go = || -> BTreeSet<String> {
                a[1..].iter().map(|n| raw().iter().find(|x| x.0 == n).expect("op")).map(|(n, f)| format!("{} {}", n, short(&f()))).collect()
            };
            let (x, y) = std::thread::scope(|sc| {
                let h = sc.spawn(go);
                (go(), h.join().expect("thread"))
            });
            report("-", "-", &[], &x.union(&y).cloned().collect(), 2);
        }
        "raws" => raw().iter().for_each(|x| println!("{}", x.0)),
        // solo OP PARAM: one operation in a process of its own
        "solo" => {
            let f = build();
            let f0 = fingerprint(&f);
            let o = catalogue().iter().position(|x| x.0 == seed(1)).expect("op");
            let r = vec![(o, num(2), short(&run(&f, o, num(2))))];
            report(&short(&f0), &short(&fingerprint(&f)), &[r], &Default::default(), 1);
        }
        // hist SEED N: a sequence of operations
        "hist" => {
            let f = build();
            let f0 = fingerprint(&f);
            let mut r = Rng::new(&format!("hist/{}", seed(1)));
            let mut s = vec![];
            for _ in 0..num(2) {
                let (o, p) = pick(&mut r, false, &[]);
                s.push((o, p, short(&run(&f, o, p))));
            }
            report(&short(&f0), &short(&fingerprint(&f)), &[s], &Default::default(), 1);
        }
        // list OP..: each once (used under the interpreter)
        "list" => {
            let f = build();
            let f0 = fingerprint(&f);
            let mut s = vec![];
            for n in &a[1..] {
                let o = catalogue().iter().position(|x| x.0 == n).expect("op");
                s.push((o, 0, short(&run(&f, o, 0))));
            }
            report(&short(&f0), &short(&fingerprint(&f)), &[s], &Default::default(), 1);
        }
        // threads SEED THREADS N FOCUS: many threads on the same values;
        // with FOCUS only that many kinds of operations, so that they collide
        "threads" => {
            let f = build();
            let f0 = fingerprint(&f);
            let (t, n, focus) = (num(2), num(3), num(4));
            let mut r = Rng::new(&format!("threads/{}", seed(1)));
            let only: Vec<usize> = (0..focus).map(|_| pick(&mut r, false, &[]).0).collect();
            let order: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
            let seen = together(&f, t, |i, f: &Fix| {
                let mut r = Rng::new(&format!("thread/{}/{}", seed(1), i));
                let mut s = vec![];
                for _ in 0..n {
                    let (o, p) = pick(&mut r, false, &only);
                    suite::set_jitter(r.u64() | 1);
                    s.push((o, p, short(&run(f, o, p))));
                    order.lock().unwrap().push((i, o));
                    if r.below(4) == 0 {
                        std::thread::yield_now();
                    }
                }
                s
            });
            let ord = order.into_inner().unwrap();
            let switches = ord.windows(2).filter(|w| w[0].0 != w[1].0).count();
            report(&short(&f0), &short(&fingerprint(&f)), &seen, &Default::default(), switches);
            println!("O {}", short(format!("{:?}", ord).as_bytes()));
        }
        // storm SEED THREADS N OP: many threads at the same operation
        "storm" => {
            let f = build();
            let f0 = fingerprint(&f);
            let o = catalogue().iter().position(|x| x.0 == seed(4)).expect("op");
            let order: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
            let seen = together(&f, num(2), |i, f: &Fix| {
                let mut r = Rng::new(&format!("storm/{}/{}", seed(1), i));
                let mut s = vec![];
                for _ in 0..num(3) {
                    let p = r.below(PARAMS);
                    suite::set_jitter(r.u64() | 1);
                    s.push((o, p, short(&run(f, o, p))));
                    order.lock().unwrap().push((i, p));
                }
                s
            });
            let ord = order.into_inner().unwrap();
            let switches = ord.windows(2).filter(|w| w[0].0 != w[1].0).count();
            report(&short(&f0), &short(&fingerprint(&f)), &seen, &Default::default(), switches);
            println!("O {}", short(format!("{:?}", ord).as_bytes()));
        }
        // after SEED OP: OP right after every other operation
        "after" => {
            let f = build();
            let f0 = fingerprint(&f);
            let mut r = Rng::new(&format!("after/{}", seed(1)));
            let o = catalogue().iter().position(|x| x.0 == seed(2)).expect("op");
            let mut s = vec![];
            let mut all: Vec<usize> = (0..catalogue().len()).collect();
            for k in (1..all.len()).rev() {
                let j = r.below(k + 1);
                all.swap(k, j);
            }
            for q in all {
                let p = r.below(PARAMS);
                s.push((q, p, short(&run(&f, q, p))));
                let p = r.below(PARAMS);
                s.push((o, p, short(&run(&f, o, p))));
            }
            report(&short(&f0), &short(&fingerprint(&f)), &[s], &Default::default(), 1);
        }
        // first SEED THREADS: nothing was used before, all threads start at once
        "first" => {
            let t = num(2);
            let b = Barrier::new(t);
            let raws = Mutex::new(BTreeSet::new());
            let prints = Mutex::new(BTreeSet::new());
            let seen: Vec<Seen> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..t)
                    .map(|i| {
                        let (b, raws, prints) = (&b, &raws, &prints);
                        let mut r = Rng::new(&format!("first/{}/{}", seed(1), i));
                        sc.spawn(move || {
                            let mut todo: Vec<usize> = (0..raw().len()).collect();
                            for k in (1..todo.len()).rev() {
                                let j = r.below(k + 1);
                                todo.swap(k, j);
                            }
                            let d = r.below(3000);
                            let mut mine = vec![];
                            b.wait();
                            for _ in 0..d {
                                std::hint::spin_loop();
                            }
                            for o in &todo {
                                mine.push((*o, raw()[*o].1()));
                            }
                            let f = build();
                            let p = fingerprint(&f);
                            {
                                let mut w = raws.lock().unwrap();
                                for (o, v) in mine {
                                    w.insert(format!("{} {}", raw()[o].0, short(&v)));
                                }
                            }
                            let mut s = vec![];
                            for _ in 0..3 {
                                let (o, p) = pick(&mut r, false, &[]);
                                s.push((o, p, short(&run(&f, o, p))));
                            }
                            prints.lock().unwrap().insert(short(&p));
                            prints.lock().unwrap().insert(short(&fingerprint(&f)));
                            s
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            let p: Vec<String> = prints.into_inner().unwrap().into_iter().collect();
            report(&p[0], p.last().unwrap(), &seen, &raws.into_inner().unwrap(), t);
        }
        x => panic!("unknown mode {}", x),
    }
}

fn together<T: Send>(f: &Fix, t: usize, go: impl Fn(usize, &Fix) -> T + Sync) -> Vec<T> {
    let b = Barrier::new(t);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..t)
            .map(|i| {
                let (b, go) = (&b, &go);
                sc.spawn(move || {
                    b.wait();
                    go(i, f)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    })
}
