//! C27 secrets come fresh from the random stream.
use crate::c_dss::{by_hand, dss_of, Own};
use crate::c_sig::message;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::{self, fresh_spec, make_old, reshare_spec, Rd};
use crate::sim_rab;
use crate::suite::{seed_thread, with_log, MonStream, MonSuite};
use crate::vss::*;
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Curve, Point, Scalar};
use kyber_rs::share::dkg::pedersen as pdkg;
use kyber_rs::share::dkg::rabin as rdkg;
use kyber_rs::share::poly;
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::sign::schnorr;
use kyber_rs::util::key::new_key_pair;
use kyber_rs::{Group, Point as _, Scalar as _};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// a secret that came out of an operation, or a public one-to-one image of it
type Out = Vec<(String, Vec<u8>)>;
/// fixed inputs of an operation
struct In {
    g: Group0,
    m: Vec<u8>,
}
fn r_of(sig: &[u8]) -> Res<Vec<u8>> {
    ensure!(sig.len() == 64, "signature-length", "{} bytes", sig.len());
    Ok(sig[..32].to_vec())
}
fn sig_of<T: serde::Serialize>(t: &T) -> Vec<u8> {
    unjs(js(t)["signature"].clone())
}
fn sv(s: &Scalar) -> Vec<u8> {
    red(&s.v).to_vec()
}

fn deals_of<S: Vss>(d: &mut S::D, g: &Group0, first: usize, out: &mut Out) -> Res {
    // t-1 shares and the (given) secret determine f; t shares determine g
    for i in 0..g.t {
        let w = view::<S>(ok(S::plain(d, i), "plain")?)?;
        if i >= first {
            out.push((format!("f({})", i), red(&w.f).to_vec()));
        }
        if S::RABIN {
            out.push((format!("g({})", i), red(&w.g).to_vec()));
        }
    }
    Ok(())
}
fn enc_out<S: Vss>(e: &S::E, what: &str, out: &mut Out) {
    let v = js(e);
    let p: Point = unjs(v["dhkey"].clone());
    out.push((format!("{} ephemeral", what), pbytes(&p).map(|x| x.to_vec()).unwrap_or_default()));
    out.push((format!("{} nonce", what), sig_of(e)[..32].to_vec()));
}

/// every operation that needs randomness: Err means it reported a failure
type Op = fn(&In) -> Result<Out, String>;
fn st<T>(r: Res<T>) -> Result<T, String> {
    r.map_err(|f| format!("{}: {}", f.key, f.msg))
}
fn er<T, E: core::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}
fn op_pick_scalar(_: &In) -> Result<Out, String> {
    let s = MonSuite {}.scalar().pick(&mut MonStream::open());
    Ok(vec![("scalar".into(), sv(&s))])
}
fn op_pick_point(_: &In) -> Result<Out, String> {
    let p = Point::default().pick(&mut MonStream::open());
    Ok(vec![("point".into(), st(pbytes(&p))?.to_vec())])
}
fn op_key_pair(_: &In) -> Result<Out, String> {
    let k = er(new_key_pair(&MonSuite {}))?;
    Ok(vec![("private".into(), sv(&k.private))])
}
fn op_eddsa(_: &In) -> Result<Out, String> {
    let k = er(EdDSA::<Curve>::new(&mut MonStream::open()))?;
    Ok(vec![("seed".into(), k.seed.clone())])
}
fn op_poly(x: &In) -> Result<Out, String> {
    let p = poly::new_pri_poly(MonSuite {}, x.g.t, None, MonStream::open());
    Ok(p.coefficients().iter().enumerate().map(|(i, k)| (format!("coefficient {}", i), sv(k))).collect())
}
fn op_poly_given(x: &In) -> Result<Out, String> {
    let p = poly::new_pri_poly(MonSuite {}, x.g.t, Some(x.g.secret.clone()), MonStream::open());
    Ok(p.coefficients().iter().enumerate().skip(1).map(|(i, k)| (format!("coefficient {}", i), sv(k))).collect())
}
fn op_schnorr(x: &In) -> Result<Out, String> {
    let s = er(schnorr::sign(&MonSuite {}, &x.g.dlong, &x.m))?;
    Ok(vec![("nonce".into(), st(r_of(&s))?)])
}
fn op_dealer<S: Vss>(x: &In) -> Result<Out, String> {
    let g = &x.g;
    let mut d = S::dealer(&g.dlong, &g.secret, &g.pubs, g.t)?;
    let mut o = vec![];
    st(deals_of::<S>(&mut d, g, 1, &mut o))?;
    Ok(o)
}
thread_local! {
    // a dealer made before the monitored draws
    static DEALER: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
}
fn made<S: Vss>(x: &In) -> Result<S::D, String> {
    let have = DEALER.with(|d| d.borrow().as_ref().and_then(|b| b.downcast_ref::<S::D>().cloned()));
    match have {
        Some(d) => Ok(d),
        None => {
            let g = &x.g;
            S::dealer(&g.dlong, &g.secret, &g.pubs, g.t)
        }
    }
}
fn op_enc<S: Vss>(x: &In) -> Result<Out, String> {
    let d = made::<S>(x)?;
    let mut o = vec![];
    let a = S::enc(&d, 0)?;
    enc_out::<S>(&a, "first", &mut o);
    // the same deal once more, and another one
    enc_out::<S>(&S::enc(&d, 0)?, "again", &mut o);
    enc_out::<S>(&S::enc(&d, 1)?, "second", &mut o);
    Ok(o)
}
fn op_enc_all<S: Vss>(x: &In) -> Result<Out, String> {
    let d = made::<S>(x)?;
    let mut o = vec![];
    for (i, e) in S::enc_all(&d)?.iter().enumerate() {
        enc_out::<S>(e, &format!("deal {}", i), &mut o);
    }
    Ok(o)
}
thread_local! {
    static DEAL: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
}
fn op_respond<S: Vss>(x: &In) -> Result<Out, String> {
    let e = DEAL.with(|d| d.borrow().as_ref().and_then(|b| b.downcast_ref::<S::E>().cloned())).ok_or("no deal")?;
    let mut v = S::verifier(&x.g.longs[0], &x.g.dpub, &x.g.pubs)?;
    let r = S::take(&mut v, &e)?;
    Ok(vec![("response nonce".into(), st(r_of(&sig_of(&r)))?)])
}
thread_local! {
    static COMPLAINT: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
}
fn op_justify<S: Vss>(x: &In) -> Result<Out, String> {
    let mut d = made::<S>(x)?;
    let r = COMPLAINT.with(|d| d.borrow().as_ref().and_then(|b| b.downcast_ref::<S::R>().cloned())).ok_or("no complaint")?;
    let j = S::d_resp(&mut d, &r)?.ok_or("no justification")?;
    Ok(vec![("justification nonce".into(), st(r_of(&sig_of(&j)))?)])
}
fn op_rabin_dkg(x: &In) -> Result<Out, String> {
    let g = &x.g;
    let d = er(rdkg::new_dist_key_generator(&MonSuite {}, &g.longs[0], &g.pubs, g.t))?;
    // the dealer inside
    let mut dealer: <Rab as Vss>::D = serde_json::from_value(js(&d)["dealer"].clone()).map_err(|e| e.to_string())?;
    let mut o = vec![];
    st(deals_of::<Rab>(&mut dealer, g, 0, &mut o))?;
    Ok(o)
}
fn op_pedersen_dkg(x: &In) -> Result<Out, String> {
    let g = &x.g;
    let cfg = pdkg::Config::<MonSuite, Rd> {
        suite: MonSuite {},
        longterm: g.longs[0].clone(),
        new_nodes: g.pubs.clone(),
        threshold: g.t,
        reader: Some(Rd { seed: x.m.clone(), pos: 0 }),
        user_reader_only: true,
        ..Default::default()
    };
    let d = er(pdkg::new_dist_key_handler(cfg))?;
    let mut dealer: <Ped as Vss>::D = serde_json::from_value(js(&d)["dealer"].clone()).map_err(|e| e.to_string())?;
    let mut o = vec![];
    // the secret itself comes from the reader (see pedersen-entropy)
    st(deals_of::<Ped>(&mut dealer, g, 1, &mut o))?;
    Ok(o)
}
fn op_dss(x: &In) -> Result<Out, String> {
    let mut r = Rng::from_label(&hex::encode(&x.m));
    let (k, t) = st(by_hand::<Own>(&mut r, 4))?;
    let mut d = st(dss_of(&k, 0, &x.m, t))?;
    let p = er(d.partial_sig())?;
    Ok(vec![("partial nonce".into(), st(r_of(&p.signature))?)])
}
const OPS: &[(&str, Op)] = &[
    ("pick-scalar", op_pick_scalar),
    ("pick-point", op_pick_point),
    ("key-pair", op_key_pair),
    ("eddsa-key", op_eddsa),
    ("polynomial", op_poly),
    ("polynomial-of-secret", op_poly_given),
    ("schnorr", op_schnorr),
    ("pedersen-dealer", op_dealer::<Ped>),
    ("rabin-dealer", op_dealer::<Rab>),
    ("pedersen-deal", op_enc::<Ped>),
    ("rabin-deal", op_enc::<Rab>),
    ("pedersen-deals", op_enc_all::<Ped>),
    ("rabin-deals", op_enc_all::<Rab>),
    ("pedersen-response", op_respond::<Ped>),
    ("rabin-response", op_respond::<Rab>),
    ("pedersen-justification", op_justify::<Ped>),
    ("rabin-justification", op_justify::<Rab>),
    ("rabin-dkg", op_rabin_dkg),
    ("pedersen-dkg", op_pedersen_dkg),
    ("partial-signature", op_dss),
];
/// bytes of a secret that must depend on the stream, one bit of each tried
const ENOUGH: usize = 30;

fn install<S: Vss>(g: &Group0) -> Res {
    let d = g.dealer::<S>()?;
    let e = ok(S::enc(&d, 0), "enc")?;
    let r = sign_response::<S>(&g.longs[1], &S::d_sid(&d), 1, false)?;
    DEALER.with(|c| *c.borrow_mut() = Some(Box::new(d)));
    DEAL.with(|c| *c.borrow_mut() = Some(Box::new(e)));
    COMPLAINT.with(|c| *c.borrow_mut() = Some(Box::new(r)));
    Ok(())
}
fn run_op(op: Op, x: &In, label: &str, set: impl FnOnce(&mut crate::suite::RandLog)) -> (Guard<Result<Out, String>>, u64, u64) {
    seed_thread(label);
    with_log(set);
    let r = guard(|| op(x));
    let (b, f) = with_log(|l| {
        let x = (l.bytes, l.failed_draws);
        l.fail = false;
        l.fail_after = None;
        x
    });
    (r, b, f)
}
fn must(g: Guard<Result<Out, String>>, key: &str) -> Res<Out> {
    match g {
        Guard::Val(Ok(o)) => Ok(o),
        Guard::Val(Err(e)) => fail(key, format!("operation failed: {}", e)),
        Guard::Panic { loc, msg } => fail(format!("panic:{}", key), format!("{} {}", loc, msg)),
    }
}

fn one_op(c: &mut Case, which: usize) -> Res {
    let (name, op) = OPS[which];
    let max = if c.thorough() { 5 } else { 4 };
    let x = In { g: setup(&mut c.rng, max)?, m: message(&mut c.rng) };
    if name.starts_with("pedersen") {
        install::<Ped>(&x.g)?;
    } else {
        install::<Rab>(&x.g)?;
    }
    let la = format!("draw/{}/a", c.rng.u64());
    let lb = format!("draw/{}/b", c.rng.u64());
    let (a, bytes, _) = run_op(op, &x, &la, |_| ());
    let a = must(a, name)?;
    let served = with_log(|l| l.served);
    ensure!(!a.is_empty(), "harness", "no secrets from {}", name);
    ensure!(bytes >= 32 * a.len() as u64, &format!("too-few-bytes:{}", name), "{} bytes drawn for {} secrets", bytes, a.len());
    // replayed
    let (r, b2, _) = run_op(op, &x, &la, |_| ());
    ensure!(must(r, name)? == a && b2 == bytes, &format!("not-reproduced:{}", name), "another outcome on the same stream");
    c.ev("replayed");
    // another stream
    let (b, _, _) = run_op(op, &x, &lb, |_| ());
    let b = must(b, name)?;
    ensure!(a.len() == b.len(), "harness", "shape");
    for (p, q) in a.iter().zip(&b) {
        ensure!(p.1 != q.1, &format!("same-on-another-stream:{}", name), "{} does not depend on the stream", p.0);
        c.ev("diverged");
    }
    // two calls in a row
    seed_thread(&la);
    let first = must(guard(|| op(&x)), name)?;
    let second = must(guard(|| op(&x)), name)?;
    let mut all = BTreeSet::new();
    for (n, v) in first.iter().chain(&second) {
        ensure!(all.insert(v.clone()), &format!("reused:{}", name), "{} of {} occurs twice", n, name);
        c.ev("fresh");
    }
    // every byte counts: which positions of the stream reach which secret
    let mut reach: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); a.len()];
    let mut any = BTreeSet::new();
    for pos in 0..bytes {
        let (f, _, _) = run_op(op, &x, &la, |l| l.flip = Some(pos));
        let f = must(f, name)?;
        for (i, (p, q)) in a.iter().zip(&f).enumerate() {
            if p.1 != q.1 {
                reach[i].insert(pos);
                any.insert(pos);
            }
        }
        c.ev("bit-flips");
    }
    for (i, s) in reach.iter().enumerate() {
        ensure!(s.len() >= ENOUGH, &format!("little-entropy:{}", name), "{} depends on {} bytes of the stream", a[i].0, s.len());
    }
    ensure!(any.len() >= ENOUGH * a.len(), &format!("shared-entropy:{}", name), "{} secrets depend on {} bytes of the stream", a.len(), any.len());
    // the stream dies before or during the operation
    for at in 0..served.min(8) {
        let (f1, _, n1) = run_op(op, &x, &la, |l| l.fail_after = Some(at));
        let (f2, _, _) = run_op(op, &x, &lb, |l| l.fail_after = Some(at));
        ensure!(n1 > 0, "harness", "no draw failed");
        match (f1, f2) {
            (Guard::Val(Ok(p)), Guard::Val(Ok(q))) => {
                for (p, q) in p.iter().zip(&q) {
                    ensure!(p.1 != q.1, &format!("dead-stream:{}", name), "{} is predictable when the random stream fails", p.0);
                }
                c.ev("failure-survived");
            }
            (Guard::Panic { .. }, _) | (_, Guard::Panic { .. }) => c.ev("failure-panics"),
            _ => c.ev("failure-reported"),
        }
    }
    // usable again
    let (r, _, _) = run_op(op, &x, &la, |_| ());
    ensure!(must(r, name)? == a, &format!("not-reproduced:{}", name), "another outcome after a failure");
    c.state(format!("{} {:?}", name, a).as_bytes());
    c.ev(name);
    Ok(())
}

// --------------------------------------------------------------- whole runs

/// nonces, ephemeral keys and polynomials of a whole run
#[derive(Default)]
struct Reuse {
    /// commitment -> (signature, where)
    nonces: HashMap<Vec<u8>, (Vec<u8>, String)>,
    ephemeral: HashMap<Vec<u8>, (Value, String)>,
    sessions: BTreeMap<Vec<u8>, String>,
    values: HashMap<Vec<u8>, String>,
}
impl Reuse {
    fn sig(&mut self, c: &mut Case, s: &[u8], at: &str) -> Res {
        if s.len() != 64 {
            return Ok(());
        }
        if let Some((o, w)) = self.nonces.get(&s[..32]) {
            ensure!(o == s, "nonce-reused", "{} and {} are signed with the same nonce", w, at);
        } else {
            self.nonces.insert(s[..32].to_vec(), (s.to_vec(), at.to_string()));
            c.ev("nonces");
        }
        Ok(())
    }
    /// everything signed or encrypted in a message
    fn msg(&mut self, c: &mut Case, v: &Value, at: &str) -> Res {
        match v {
            Value::Object(m) => {
                if let (Some(k), Some(x)) = (m.get("dhkey"), m.get("cipher")) {
                    let p: Point = unjs(k.clone());
                    let b = pbytes(&p)?.to_vec();
                    if let Some((y, w)) = self.ephemeral.get(&b) {
                        ensure!(y == x, "ephemeral-reused", "{} and {} are encrypted with the same ephemeral key", w, at);
                    } else {
                        self.ephemeral.insert(b, (x.clone(), at.to_string()));
                        c.ev("ephemeral-keys");
                    }
                }
                for (k, x) in m {
                    if k == "signature" {
                        if let Ok(s) = serde_json::from_value::<Vec<u8>>(x.clone()) {
                            self.sig(c, &s, at)?;
                        }
                    } else {
                        self.msg(c, x, at)?;
                    }
                }
            }
            Value::Array(a) => {
                for x in a {
                    if x.is_number() {
                        break;
                    }
                    self.msg(c, x, at)?;
                }
            }
            _ => (),
        }
        Ok(())
    }
    fn secret(&mut self, c: &mut Case, v: &[u8], at: &str) -> Res {
        if let Some(w) = self.values.insert(v.to_vec(), at.to_string()) {
            return fail("secret-reused", format!("{} and {} are the same", w, at));
        }
        c.ev("secrets");
        Ok(())
    }
    fn disjoint(&self, o: &Reuse) -> Res {
        for (k, (_, at)) in &self.nonces {
            ensure!(!o.nonces.contains_key(k), "nonce-from-elsewhere", "nonce of {} does not depend on the stream", at);
        }
        for (k, (_, at)) in &self.ephemeral {
            ensure!(!o.ephemeral.contains_key(k), "ephemeral-from-elsewhere", "ephemeral key of {} does not depend on the stream", at);
        }
        for (k, at) in &self.values {
            ensure!(!o.values.contains_key(k), "secret-from-elsewhere", "{} does not depend on the stream", at);
        }
        Ok(())
    }
}

fn ped_once(c: &mut Case, reshare: bool, u: &mut Reuse) -> Res<Vec<u8>> {
    let mut spec = if reshare {
        let n = c.rng.range(2, 4);
        let t = c.rng.range(1, n);
        let (longs, pubs) = keys(&mut c.rng, n)?;
        let old = make_old(&mut c.rng, n, t)?;
        reshare_spec(&mut c.rng, old, longs, pubs, 5)?
    } else {
        fresh_spec(&mut c.rng, 5)?
    };
    spec.noise = false;
    let mut sim = sim_ped::Sim::new(c, spec)?;
    for (i, p) in sim.parties.iter().enumerate() {
        // what an honest dealer hides: its polynomial
        let v = js(&p.dkg);
        if p.byz || p.old.is_none() {
            continue;
        }
        if let Ok(mut d) = serde_json::from_value::<<Ped as Vss>::D>(v["dealer"].clone()) {
            for k in 1..sim.spec.t.min(sim.spec.news.len()) {
                if let Ok(pl) = Ped::plain(&mut d, k) {
                    let w = view::<Ped>(pl)?;
                    u.secret(c, &w.f, &format!("share {} of dealer {}", k, i))?;
                }
            }
        }
    }
    let mut k = 0;
    let mut h = |c: &mut Case, _: &mut sim_ped::Party, e: Option<&sim_ped::Ev>| -> Res {
        if let Some(e) = e {
            k += 1;
            match &e.body {
                sim_ped::Body::Deal(d) => u.msg(c, &js(d), &format!("deal of {} (event {})", e.o, k))?,
                sim_ped::Body::Resp(_, _, r) => u.msg(c, &js(r), &format!("response about {} (event {})", e.o, k))?,
                sim_ped::Body::Just(_, j) => u.msg(c, &js(j), &format!("justification of {} (event {})", e.o, k))?,
                _ => (),
            }
        }
        Ok(())
    };
    sim.run(c, Some(&mut h))?;
    Ok(sim.transcript)
}
fn rab_once(c: &mut Case, u: &mut Reuse) -> Res<Vec<u8>> {
    let mut sim = sim_rab::Sim::new(c, 5, true)?;
    sim.noise = false;
    for (i, p) in sim.parties.iter().enumerate() {
        if p.byz {
            continue;
        }
        let mut d: <Rab as Vss>::D = unjs(js(&p.dkg)["dealer"].clone());
        for k in 0..sim.t {
            let w = view::<Rab>(ok(Rab::plain(&mut d, k), "plain")?)?;
            u.secret(c, &w.f, &format!("share {} of dealer {}", k, i))?;
            u.secret(c, &w.g, &format!("blinding share {} of dealer {}", k, i))?;
        }
    }
    let mut k = 0;
    let mut h = |c: &mut Case, _: usize, _: &mut sim_rab::Party, e: Option<&sim_rab::Ev>| -> Res {
        use sim_rab::Body::*;
        if let Some(e) = e {
            k += 1;
            let at = format!("event {} about {}", k, e.o);
            match &e.body {
                Start => (),
                Deal(x) => u.msg(c, &js(x), &at)?,
                Resp(_, _, x) => u.msg(c, &js(x), &at)?,
                Just(_, x) => u.msg(c, &js(x), &at)?,
                Sc(x) => u.msg(c, &js(x), &at)?,
                Cc(_, x) => u.msg(c, &js(x), &at)?,
                Rc(_, _, x) => u.msg(c, &js(x), &at)?,
            }
        }
        Ok(())
    };
    sim.run(c, Some(&mut h))?;
    Ok(sim.transcript)
}
fn twice(c: &mut Case, what: &str, f: impl Fn(&mut Case, &mut Reuse) -> Res<Vec<u8>>) -> Res {
    let start = c.rng.clone();
    let (la, lb) = (format!("run/{}/{}/a", what, c.rng.u64()), format!("run/{}/{}/b", what, c.rng.u64()));
    let mut us: Vec<(Reuse, Vec<u8>)> = vec![];
    for l in [&la, &la, &lb] {
        c.rng = start.clone();
        seed_thread(l);
        let mut u = Reuse::default();
        let t = f(c, &mut u)?;
        us.push((u, t));
    }
    ensure!(us[0].1 == us[1].1, &format!("not-reproduced:{}", what), "the run differs on the same random stream");
    c.ev("runs-replayed");
    us[0].0.disjoint(&us[2].0)?;
    c.ev("runs-diverged");
    c.state(&us[0].1);
    Ok(())
}

/// all operations mixed, with the same keys and messages
fn history(c: &mut Case) -> Res {
    let x = In { g: setup(&mut c.rng, 4)?, m: message(&mut c.rng) };
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut st = vec![];
    // the same set-up throughout; the stream runs on
    let rabin = c.rng.bool();
    if rabin {
        install::<Rab>(&x.g)?;
    } else {
        install::<Ped>(&x.g)?;
    }
    let other = if rabin { "pedersen" } else { "rabin" };
    let some_ops: Vec<usize> = (0..OPS.len()).filter(|i| !OPS[*i].0.starts_with(other)).collect();
    for k in 0..c.rng.range(10, 30) {
        let i = *c.rng.choose(&some_ops);
        let (name, op) = OPS[i];
        st.push(i as u8);
        for (n, v) in must(guard(|| op(&x)), name)? {
            if let Some(w) = seen.insert(v, format!("{} of {} at {}", n, name, k)) {
                return fail("reused-in-history", format!("{} of {} at {} repeats {}", n, name, k, w));
            }
            c.ev("history-secrets");
        }
    }
    c.state(&st);
    Ok(())
}
/// operations with their own source of entropy
fn ecies_case(c: &mut Case) -> Res {
    let k = scalar(&mut c.rng)?;
    let p = Point::default().mul(&k, None);
    let m = message(&mut c.rng);
    let mut seen = BTreeSet::new();
    let n = if c.thorough() { 60 } else { 20 };
    let res: Vec<Result<Vec<u8>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let m = m.clone();
                s.spawn(move || (0..n / 2).map(|_| er(ecies::encrypt(Curve::new(), p, &m))).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for r in res {
        let ct = ok(r, "ecies-encrypt")?;
        ensure!(ct.len() > 32 && seen.insert(ct[..32].to_vec()), "ephemeral-reused", "two encryptions share their ephemeral key");
        c.ev("ecies-ephemeral-keys");
    }
    c.state(&m);
    Ok(())
}
#[derive(Clone, Default, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
struct Poor {
    /// 0 errors, 1 ends, 2 gives some bytes and ends, 3 constant
    how: u8,
    left: usize,
}
impl std::io::Read for Poor {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self.how {
            0 => Err(std::io::Error::other("broken")),
            1 => Ok(0),
            2 => {
                let n = self.left.min(b.len());
                self.left -= n;
                b[..n].fill(7);
                Ok(n)
            }
            _ => {
                b.fill(7);
                Ok(b.len())
            }
        }
    }
}
fn entropy(c: &mut Case) -> Res {
    let g = setup(&mut c.rng, 4)?;
    fn secret_of<R: std::io::Read + Clone + serde::Serialize + Default + 'static>(g: &Group0, reader: Option<R>, only: bool) -> Guard<Result<Vec<u8>, String>> {
        let cfg = pdkg::Config::<MonSuite, R> {
            suite: MonSuite {},
            longterm: g.longs[0].clone(),
            new_nodes: g.pubs.clone(),
            threshold: g.t,
            reader,
            user_reader_only: only,
            ..Default::default()
        };
        guard(|| {
            let d = er(pdkg::new_dist_key_handler(cfg))?;
            // constant term from the shares of the dealer
            let mut dealer: <Ped as Vss>::D = serde_json::from_value(js(&d)["dealer"].clone()).map_err(|e| e.to_string())?;
            let mut pts = vec![];
            for i in 0..g.t {
                let w = st(view::<Ped>(Ped::plain(&mut dealer, i)?))?;
                pts.push((i, w.f));
            }
            Ok(crate::sim_ped::lagrange0(&pts).to_vec())
        })
    }
    let val = |x: Guard<Result<Vec<u8>, String>>, key: &str| -> Res<Vec<u8>> {
        match x {
            Guard::Val(Ok(v)) => Ok(v),
            Guard::Val(Err(e)) => fail(key, e),
            Guard::Panic { loc, msg } => fail(format!("panic:{}", key), format!("{} {}", loc, msg)),
        }
    };
    let rd = |s: &[u8]| Some(Rd { seed: s.to_vec(), pos: 0 });
    let (s1, s2) = (c.rng.bytes(32), c.rng.bytes(32));
    // no reader: the system's entropy
    let a = val(secret_of::<Rd>(&g, None, c.idx % 2 == 0), "no-reader")?;
    let b = val(secret_of::<Rd>(&g, None, c.idx % 2 == 0), "no-reader")?;
    ensure!(a != b, "same-secret", "two key generations share the same secret");
    // the user's reader alone
    let a = val(secret_of(&g, rd(&s1), true), "reader-only")?;
    ensure!(a == val(secret_of(&g, rd(&s1), true), "reader-only")?, "reader-not-reproduced", "another secret from the same reader");
    ensure!(a != val(secret_of(&g, rd(&s2), true), "reader-only")?, "reader-ignored", "the same secret from another reader");
    // both
    let a2 = val(secret_of(&g, rd(&s1), false), "reader-mixed")?;
    let b2 = val(secret_of(&g, rd(&s1), false), "reader-mixed")?;
    ensure!(a2 != b2 && a2 != a, "reader-not-mixed", "the secret depends on the user's reader alone");
    c.ev("entropy-sources");
    // a broken reader
    for how in 0..3u8 {
        let left = c.rng.below(32);
        let p = Poor { how, left };
        let x = secret_of(&g, Some(p.clone()), true);
        let y = secret_of(&g, Some(p.clone()), true);
        match (x, y) {
            (Guard::Val(Ok(x)), Guard::Val(Ok(y))) => {
                ensure!(x != y, "predictable-secret", "a key is generated from a broken reader ({:?})", p);
                c.ev("broken-reader-replaced");
            }
            _ => c.ev("broken-reader-reported"),
        }
        let x = val(secret_of(&g, Some(p.clone()), false), "broken-reader-mixed")?;
        let y = val(secret_of(&g, Some(p.clone()), false), "broken-reader-mixed")?;
        ensure!(x != y, "predictable-secret", "broken reader {:?} next to the system's", p);
    }
    let p = Poor { how: 3, left: 0 };
    ensure!(val(secret_of(&g, Some(p.clone()), false), "poor")? != val(secret_of(&g, Some(p), false), "poor")?, "predictable-secret", "poor reader next to the system's");
    c.state(&s1);
    Ok(())
}

pub fn run_c27(ctx: &Ctx) {
    ctx.rule("every randomised operation on an instrumented stream: replayed, diverged, repeated, every byte flipped, failing at every draw; nonces, ephemeral keys, polynomials of whole runs compared; non-trivial = distinct operations, inputs, transcripts");
    ctx.assume("ECIES and the secret of a Pedersen key generation draw from the process' (or the user's) entropy instead of the suite stream and are checked for repetition only; a panic or an error counts as a report of a failing stream");
    ctx.family("operations", ctx.n(OPS.len() * 6, OPS.len() * 60), |c| one_op(c, c.idx % OPS.len()));
    ctx.family("history", ctx.n(100, 2000), history);
    ctx.family("pedersen-dkg", ctx.n(40, 600), |c| twice(c, "pedersen-dkg", |c, u| ped_once(c, false, u)));
    ctx.family("resharing", ctx.n(40, 600), |c| twice(c, "resharing", |c, u| ped_once(c, true, u)));
    ctx.family("rabin-dkg", ctx.n(40, 600), |c| twice(c, "rabin-dkg", rab_once));
    ctx.family("ecies", ctx.n(20, 200), ecies_case);
    ctx.family("entropy", ctx.n(60, 600), entropy);
    for (e, k) in [("bit-flips", 5000), ("replayed", 100), ("diverged", 200), ("failure-reported", 1), ("nonces", 1000), ("ephemeral-keys", 500), ("secrets", 500), ("history-secrets", 2000), ("runs-diverged", 100), ("ecies-ephemeral-keys", 300), ("entropy-sources", 50)] {
        ctx.require(e, k);
    }
}
