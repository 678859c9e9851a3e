//! C23 threshold signatures.
use crate::c_sig::message;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::{self, commit_at, fresh_spec, lagrange0, make_old, poly_at, Sim};
use crate::sim_rab;
use crate::suite::MonSuite;
use crate::vss::{edit, js, keys};
use curve25519_dalek::edwards::EdwardsPoint;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::poly::PriShare;
use kyber_rs::sign::dss::{self, DistKeyShare, PartialSig, DSS};
use kyber_rs::sign::{eddsa, schnorr};
use num_bigint_dig::BigUint;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256, Sha512};
use std::collections::{BTreeMap, BTreeSet};

/// a user's own share type
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Own {
    pub commits: Vec<Point>,
    pub share: PriShare<Scalar>,
}
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Own")
    }
}
impl DistKeyShare<MonSuite> for Own {
    fn pri_share(&self) -> PriShare<Scalar> {
        self.share.clone()
    }
    fn commitments(&self) -> Vec<Point> {
        self.commits.clone()
    }
}
pub trait Mk: DistKeyShare<MonSuite> + PartialEq + std::fmt::Debug + 'static {
    fn mk(commits: &[Point], i: usize, v: Scalar) -> Self;
}
impl Mk for Own {
    fn mk(commits: &[Point], i: usize, v: Scalar) -> Self {
        Own { commits: commits.to_vec(), share: PriShare { i, v } }
    }
}
impl Mk for sim_ped::Share {
    fn mk(commits: &[Point], i: usize, v: Scalar) -> Self {
        sim_ped::Share { commits: commits.to_vec(), share: PriShare { i, v }, private_poly: vec![] }
    }
}
impl Mk for sim_rab::Share {
    fn mk(commits: &[Point], i: usize, v: Scalar) -> Self {
        sim_rab::Share { commits: commits.to_vec(), share: PriShare { i, v } }
    }
}
pub type Ps = PartialSig<MonSuite>;

pub struct Keys<D> {
    pub n: usize,
    pub longs: Vec<Scalar>,
    pub pubs: Vec<Point>,
    pub long: Vec<D>,
    pub random: Vec<D>,
    /// what the two keys are
    pub a: [u8; 32],
    pub r: [u8; 32],
}
pub fn by_hand<D: Mk>(r: &mut Rng, max: usize) -> Res<(Keys<D>, usize)> {
    let n = r.range(1, max);
    let (longs, pubs) = keys(r, n)?;
    let (ta, tr) = (r.range(1, n), r.range(1, n));
    let (ta, tr) = if r.chance(2, 3) { (ta, ta) } else { (ta, tr) };
    let low = ta.max(tr);
    let t = if r.chance(1, 5) { r.range(low, n) } else { low };
    let (oa, or) = (make_old(r, n, ta)?, make_old(r, n, tr)?);
    let mut long = vec![];
    let mut random = vec![];
    for i in 0..n {
        long.push(D::mk(&oa.commits, i, ks(&oa.shares[i].unwrap())?));
        random.push(D::mk(&or.commits, i, ks(&or.shares[i].unwrap())?));
    }
    Ok((Keys { n, longs, pubs, long, random, a: oa.secret, r: or.secret }, t))
}
fn challenge<D: Mk>(k: &Keys<D>, m: &[u8]) -> Res<[u8; 32]> {
    let mut h = Sha512::new();
    h.update(pbytes(&k.random[0].commitments()[0])?);
    h.update(pbytes(&k.long[0].commitments()[0])?);
    h.update(m);
    Ok(red(&h.finalize()))
}
/// the signature everybody has to end up with
pub fn expected<D: Mk>(k: &Keys<D>, m: &[u8]) -> Res<Vec<u8>> {
    let s = modl(&(from_le(&challenge(k, m)?) * from_le(&k.a) + from_le(&k.r)));
    let mut v = denc(&imul(&k.r, &dbase())).to_vec();
    v.extend(le32(&s));
    Ok(v)
}
fn partial_of<D: Mk>(k: &Keys<D>, m: &[u8], i: usize) -> Res<[u8; 32]> {
    let (a, b) = (sbytes(&k.long[i].pri_share().v)?, sbytes(&k.random[i].pri_share().v)?);
    Ok(le32(&modl(&(from_le(&challenge(k, m)?) * from_le(&a) + from_le(&b)))))
}
fn session<D: Mk>(a: &D, b: &D) -> Res<Vec<u8>> {
    let mut h = Sha256::new();
    for p in a.commitments().iter().chain(&b.commitments()) {
        h.update(pbytes(p)?);
    }
    Ok(h.finalize().to_vec())
}
pub fn dss_of<D: Mk>(k: &Keys<D>, i: usize, m: &[u8], t: usize) -> Res<DSS<MonSuite, D>> {
    ok(nopanic("new_dss", || dss::new_dss(MonSuite {}, &k.longs[i], &k.pubs, &k.long[i], &k.random[i], m, t))?, "new-dss")
}
fn sign_ps(ps: &mut Ps, long: &Scalar) -> Res {
    let h = ok(ps.hash(MonSuite {}), "hash")?;
    ps.signature = ok(schnorr::sign(&MonSuite {}, long, &h), "sign")?;
    Ok(())
}

struct Node<D: Mk> {
    i: usize,
    d: DSS<MonSuite, D>,
    have: BTreeMap<usize, [u8; 32]>,
    signed: bool,
}

/// state of a node compared with the model after every event
fn check<D: Mk>(c: &mut Case, k: &Keys<D>, x: &Node<D>, m: &[u8], t: usize) -> Res {
    let got: BTreeMap<usize, [u8; 32]> = {
        let mut g = BTreeMap::new();
        for p in x.d.partials.iter() {
            let p = some(p.clone(), "empty-partial")?;
            ensure!(g.insert(p.i, red(&sbytes(&p.v)?)).is_none(), "counted-twice", "partial of {} stored twice", p.i);
        }
        g
    };
    ensure!(got == x.have, "partials", "node {} holds the partials of {:?}, expected {:?}", x.i, got.keys().collect::<Vec<_>>(), x.have.keys().collect::<Vec<_>>());
    let en = x.have.len() >= t;
    ensure!(x.d.enough_partial_sig() == en, "enough", "enough_partial_sig()={} with {} of {}", !en, x.have.len(), t);
    let before = x.d.clone();
    match nopanic("signature", || x.d.signature())? {
        Err(e) => {
            ensure!(!en, "no-signature", "node {} has {} of {} partials but: {:?}", x.i, x.have.len(), t, e);
            c.ev("below-threshold-refused");
        }
        Ok(s) => {
            ensure!(en, "early-signature", "node {} signs with {} of {} partials", x.i, x.have.len(), t);
            let want = expected(k, m)?;
            ensure!(s == want, "signature", "node {} n={} t={} made another signature than R||(H a + r)", x.i, k.n, t);
            if m.len() < 2000 || c.rng.chance(1, 4) {
                let p = k.long[x.i].commitments()[0];
                ensure!(dss::verify(&p, m, &s).is_ok() && eddsa::verify(&p, m, &s).is_ok() && schnorr::verify(MonSuite {}, &p, m, &s).is_ok(), "own-verify", "the signature does not verify");
                let vk = ok(ed25519_dalek::VerifyingKey::from_bytes(&pbytes(&p)?), "vk")?;
                ensure!(vk.verify_strict(m, &ed25519_dalek::Signature::from_bytes(s[..64].try_into().unwrap())).is_ok(), "independent-verify", "the signature does not verify elsewhere");
                let mut other = m.to_vec();
                other.push(1);
                ensure!(dss::verify(&p, &other, &s).is_err(), "other-message", "the signature verifies for another message");
            }
            c.ev("signature");
        }
    }
    ensure!(before == x.d, "signature-effect", "asking for the signature changed the signer");
    Ok(())
}

fn history<D: Mk>(c: &mut Case) -> Res {
    let max = if c.thorough() { 9 } else { 7 };
    let (k, t) = by_hand::<D>(&mut c.rng, max)?;
    let m = message(&mut c.rng);
    run_history(c, k, t, m)
}
fn run_history<D: Mk>(c: &mut Case, k: Keys<D>, t: usize, m: Vec<u8>) -> Res {
    let n = k.n;
    c.log(format!("dss n={} t={} msg={}", n, t, m.len()));
    // another session (other one-time key) and another message
    let (o, _) = by_hand::<D>(&mut c.rng, 5)?;
    let other_sid = session(&o.long[0], &o.random[0])?;
    let mut m2 = m.clone();
    m2.push(7);
    let mut nodes = vec![];
    for i in 0..n {
        let d = dss_of(&k, i, &m, t)?;
        ensure!(d.index == i && d.session_id == session(&k.long[i], &k.random[i])?, "new", "index {} session of node {}", d.index, i);
        nodes.push(Node { i, d, have: Default::default(), signed: false });
    }
    // everybody's genuine partial, made by a twin
    let mut genuine: Vec<Ps> = vec![];
    for i in 0..n {
        let mut d = dss_of(&k, i, &m, t)?;
        let ps = ok(nopanic("partial_sig", || d.partial_sig())?, "partial-sig")?;
        ensure!(ps.partial.i == i && ps.session_id == d.session_id && red(&sbytes(&ps.partial.v)?) == partial_of(&k, &m, i)?, "partial", "partial signature of {}", i);
        ensure!(schnorr::verify(MonSuite {}, &k.pubs[i], &ok(ps.hash(MonSuite {}), "hash")?, &ps.signature).is_ok(), "partial-signature", "partial of {} not signed by it", i);
        genuine.push(ps);
    }
    let mut st = vec![n as u8, t as u8];
    let steps = n * (2 + n) + 6;
    let watch = c.rng.below(n);
    for step in 0..steps {
        let p = if c.rng.chance(2, 3) { watch } else { c.rng.below(n) };
        let q = c.rng.below(n);
        let kind = c.rng.below(16);
        let x = &mut nodes[p];
        let before = x.d.clone();
        let full: usize = x.have.len();
        if kind == 0 || (step == steps - 1 && !x.signed) {
            let ps = ok(nopanic("partial_sig", || x.d.partial_sig())?, "partial-sig")?;
            ensure!(ps.partial == genuine[p].partial, "own-partial", "node {} issued another partial than before", p);
            x.signed = true;
            x.have.insert(p, partial_of(&k, &m, p)?);
            c.ev("own-partial");
        } else if kind < 7 {
            let fresh = !x.have.contains_key(&q);
            let g = genuine[q].clone();
            let r = nopanic("process_partial_sig", || x.d.process_partial_sig(g))?;
            ensure!(r.is_ok() == fresh, "genuine", "partial of {} (new: {}) at {}: {:?}", q, fresh, p, r.err());
            if fresh {
                x.have.insert(q, partial_of(&k, &m, q)?);
                c.ev("accepted");
            } else {
                ensure!(before == x.d, "refused-effect", "a duplicate changed the signer");
                c.ev("duplicate-refused");
            }
        } else {
            let mut b = genuine[q].clone();
            let name;
            match kind {
                7 => {
                    name = "signature-flipped";
                    let l = b.signature.len();
                    let i = c.rng.below(l);
                    b.signature[i] ^= 1 << c.rng.below(8);
                }
                8 => {
                    name = "value-altered";
                    b.partial.v = ks(&le32(&modl(&(from_le(&partial_of(&k, &m, q)?) + BigUint::from(1u8 + c.rng.below(200) as u8)))))?;
                    if c.rng.bool() {
                        sign_ps(&mut b, &k.longs[q])?;
                    }
                }
                9 => {
                    name = "index-altered";
                    if n == 1 {
                        b.partial.i = 1;
                    } else {
                        b.partial.i = (q + 1 + c.rng.below(n - 1)) % n;
                    }
                    if c.rng.bool() {
                        sign_ps(&mut b, &k.longs[q])?;
                    }
                }
                10 => {
                    name = "out-of-range";
                    b.partial.i = *c.rng.choose(&[n, n + 1, usize::MAX, usize::MAX / 2, 1 << 32]);
                    if c.rng.bool() {
                        sign_ps(&mut b, &k.longs[q])?;
                    }
                }
                11 => {
                    name = "other-session";
                    b.session_id = match c.rng.below(4) {
                        0 => vec![],
                        1 => b.session_id[..31].to_vec(),
                        _ => other_sid.clone(),
                    };
                    if c.rng.chance(3, 4) {
                        sign_ps(&mut b, &k.longs[q])?;
                    }
                }
                12 => {
                    name = "other-message";
                    b.partial.v = ks(&partial_of(&k, &m2, q)?)?;
                    sign_ps(&mut b, &k.longs[q])?;
                }
                13 => {
                    name = "other-signer";
                    let who = c.rng.below(n + 1);
                    if who == q {
                        continue;
                    }
                    let key = if who == n { keys(&mut c.rng, 1)?.0[0].clone() } else { k.longs[who].clone() };
                    sign_ps(&mut b, &key)?;
                }
                14 => {
                    // somebody's partial offered under its own name by another
                    name = "stolen";
                    if n == 1 {
                        continue;
                    }
                    let w = (q + 1) % n;
                    let v = partial_of(&k, &m, w)?;
                    if v == partial_of(&k, &m, q)? {
                        continue;
                    }
                    b.partial.v = ks(&v)?;
                    sign_ps(&mut b, &k.longs[q])?;
                }
                _ => {
                    // a whole partial of the other session
                    name = "foreign-partial";
                    if o.n <= q {
                        continue;
                    }
                    let mut f = ok(dss::new_dss(MonSuite {}, &k.longs[q], &k.pubs, &o.long[q], &o.random[q], &m, 1), "new-dss")?;
                    b = ok(f.partial_sig(), "partial")?;
                    if c.rng.bool() {
                        b.session_id = x.d.session_id.clone();
                        sign_ps(&mut b, &k.longs[q])?;
                    }
                    if b.partial.v == ks(&partial_of(&k, &m, q)?)? {
                        continue;
                    }
                }
            }
            let r = nopanic("process_partial_sig", || x.d.process_partial_sig(b))?;
            ensure!(r.is_err(), &format!("accepted:{}", name), "{} partial of {} accepted by {} (n={} t={})", name, q, p, n, t);
            ensure!(before == x.d, "refused-effect", "a refused partial ({}) changed the signer", name);
            c.ev(&format!("refused:{}", name));
        }
        st.extend([p as u8, q as u8, kind as u8]);
        if nodes[p].have.len() != full || c.rng.chance(1, 6) {
            check(c, &k, &nodes[p], &m, t)?;
        }
    }
    // now everybody gets a random order of all of them
    for x in nodes.iter_mut() {
        let mut ord: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut ord);
        for q in ord {
            if x.have.len() >= t && c.rng.bool() {
                break;
            }
            if x.have.contains_key(&q) {
                continue;
            }
            let g = genuine[q].clone();
            if q == x.i && c.rng.bool() {
                ok(nopanic("partial_sig", || x.d.partial_sig())?, "partial-sig")?;
            } else {
                ok(nopanic("process_partial_sig", || x.d.process_partial_sig(g))?, "genuine")?;
            }
            x.have.insert(q, partial_of(&k, &m, q)?);
            check(c, &k, x, &m, t)?;
        }
        ensure!(x.have.len() >= t, "harness", "not enough");
    }
    c.ev("everybody-signed");
    c.state(&st);
    Ok(())
}

/// exactly each t-subset, in several orders, by an outside combiner that has
/// no partial of its own
fn subsets(c: &mut Case) -> Res {
    let (k, t) = by_hand::<Own>(&mut c.rng, 6)?;
    let n = k.n;
    let m = message(&mut c.rng);
    let want = expected(&k, &m)?;
    let mut gen = vec![];
    for i in 0..n {
        gen.push(ok(dss_of(&k, i, &m, t)?.partial_sig(), "partial")?);
    }
    for mask in 0u32..1 << n {
        let mut s: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        if s.len() + 1 < t || s.len() > t + 1 {
            continue;
        }
        c.rng.shuffle(&mut s);
        let at = c.rng.below(n);
        let mut d = dss_of(&k, at, &m, t)?;
        for q in &s {
            let g = gen[*q].clone();
            ok(nopanic("process_partial_sig", || d.process_partial_sig(g))?, "genuine")?;
        }
        match nopanic("signature", || d.signature())? {
            Ok(x) => {
                ensure!(s.len() >= t, "early-signature", "signature from {:?} with threshold {}", s, t);
                ensure!(x == want, "signature", "partials of {:?} give another signature", s);
                c.ev("subset-signed");
            }
            Err(_) => {
                ensure!(s.len() < t, "no-signature", "no signature from {:?} with threshold {}", s, t);
                c.ev("below-threshold-refused");
            }
        }
        c.state(&[n as u8, t as u8, mask as u8, s.first().copied().unwrap_or(9) as u8, s.last().copied().unwrap_or(9) as u8]);
    }
    Ok(())
}

/// keys made by the library's own key generations
fn from_dkg(c: &mut Case) -> Res {
    if c.rng.bool() {
        let mut spec = fresh_spec(&mut c.rng, 5)?;
        spec.byz.clear();
        spec.lossy = false;
        spec.noise = false;
        let (longs, pubs, n) = (spec.longs.clone(), spec.pubs.clone(), spec.longs.len());
        let mut s2 = fresh_spec(&mut c.rng, 5)?;
        s2.byz.clear();
        s2.lossy = false;
        s2.noise = false;
        s2.longs = longs.clone();
        s2.pubs = pubs.clone();
        s2.olds = (0..n).collect();
        s2.news = (0..n).collect();
        s2.t = spec.t;
        let mut a = Sim::new(c, spec)?;
        a.run(c, None)?;
        let mut b = Sim::new(c, s2)?;
        b.run(c, None)?;
        let get = |s: &Sim| -> Res<Vec<sim_ped::Share>> { s.outputs.iter().map(|x| some(x.clone(), "output")).collect() };
        let (long, random) = (get(&a)?, get(&b)?);
        finish(c, longs, pubs, long, random, |s| s.share.v.clone())
    } else {
        let n = c.rng.range(2, 5);
        let t = c.rng.range(2, n);
        let mut a = sim_rab::Sim::with(c, n, t, BTreeSet::new())?;
        a.noise = false;
        a.run(c, None)?;
        let mut b = sim_rab::Sim::with(c, n, t, BTreeSet::new())?;
        // the same participants
        for p in 0..n {
            b.parties[p].long = a.parties[p].long.clone();
            b.parties[p].pubk = a.parties[p].pubk;
            b.pubs = a.pubs.clone();
            b.parties[p].dkg = ok(kyber_rs::share::dkg::rabin::new_dist_key_generator(&MonSuite {}, &a.parties[p].long, &a.pubs, t), "new-dkg")?;
        }
        b.noise = false;
        b.run(c, None)?;
        let get = |s: &sim_rab::Sim| -> Res<Vec<sim_rab::Share>> { s.outputs.iter().map(|x| some(x.clone(), "output")).collect() };
        let (long, random) = (get(&a)?, get(&b)?);
        let longs = a.parties.iter().map(|p| p.long.clone()).collect();
        finish(c, longs, a.pubs.clone(), long, random, |s| s.share.v.clone())
    }
}
fn finish<D: Mk>(c: &mut Case, longs: Vec<Scalar>, pubs: Vec<Point>, long: Vec<D>, random: Vec<D>, v: impl Fn(&D) -> Scalar) -> Res {
    let n = longs.len();
    let t = long[0].commitments().len().max(random[0].commitments().len());
    let sec = |l: &[D]| -> Res<[u8; 32]> {
        let mut pts = vec![];
        for (i, d) in l.iter().enumerate() {
            pts.push((i, red(&sbytes(&v(d))?)));
        }
        Ok(lagrange0(&pts))
    };
    let (a, r) = (sec(&long)?, sec(&random)?);
    c.ev("dkg-keys");
    let m = message(&mut c.rng);
    run_history(c, Keys { n, longs, pubs, long, random, a, r }, t, m)
}

/// strangers and foreign keys
fn setup(c: &mut Case) -> Res {
    let (k, t) = by_hand::<sim_ped::Share>(&mut c.rng, 5)?;
    let (l, _) = keys(&mut c.rng, 1)?;
    let r = nopanic("new_dss", || dss::new_dss(MonSuite {}, &l[0], &k.pubs, &k.long[0], &k.random[0], b"x", t))?;
    ensure!(r.is_err(), "stranger", "a signer outside the participants is accepted");
    let r = nopanic("new_dss", || dss::new_dss(MonSuite {}, &k.longs[0], &[], &k.long[0], &k.random[0], b"x", t))?;
    ensure!(r.is_err(), "stranger", "a signer without participants is accepted");
    // a participant holding a wrong share is refused by the others
    let i = c.rng.below(k.n);
    let bad = <sim_ped::Share as Mk>::mk(&k.long[i].commits, i, ks(&le32(&modl(&(from_le(&sbytes(&k.long[i].share.v)?) + BigUint::from(1u8)))))?);
    let m = b"message".to_vec();
    let mut d = ok(dss::new_dss(MonSuite {}, &k.longs[i], &k.pubs, &bad, &k.random[i], &m, t), "new-dss")?;
    let ps = ok(d.partial_sig(), "partial")?;
    let at = c.rng.below(k.n);
    let mut x = dss_of(&k, at, &m, t)?;
    let r = nopanic("process_partial_sig", || x.process_partial_sig(ps.clone()))?;
    ensure!(r.is_err() && x.partials.is_empty(), "wrong-share", "partial made with a wrong share accepted");
    // json round trip of the message itself
    let good = ok(dss_of(&k, i, &m, t)?.partial_sig(), "partial")?;
    let g2: Ps = edit(&good, |_| ());
    ensure!(js(&g2) == js(&good), "json", "partial does not survive encoding");
    let r = nopanic("process_partial_sig", || x.process_partial_sig(g2))?;
    ensure!(r.is_ok(), "genuine", "{:?}", r.err());
    // the verification share matches
    let cs: Vec<EdwardsPoint> = k.long[i].commits.iter().map(dalek_of).collect::<Res<_>>()?;
    ensure!(imul(&sbytes(&k.long[i].share.v)?, &dbase()) == commit_at(&cs, i) && poly_at(&[k.a], 0) == red(&k.a), "harness", "own keys wrong");
    c.ev("setup-checked");
    Ok(())
}

pub fn run_c23(ctx: &Ctx) {
    ctx.rule("partials held, enough_partial_sig, signature bytes and refusals predicted after every event from the sharing polynomials; non-trivial = distinct event histories / subsets");
    ctx.assume("participants are listed in share-index order; the threshold is at least the number of commitments of both keys; the one-time key is used for one message");
    ctx.family("own-shares", ctx.n(120, 2500), history::<Own>);
    ctx.family("pedersen-shares", ctx.n(120, 2500), history::<sim_ped::Share>);
    ctx.family("rabin-shares", ctx.n(120, 2500), history::<sim_rab::Share>);
    ctx.family("subsets", ctx.n(60, 1000), subsets);
    ctx.family("from-dkg", ctx.n(60, 1000), from_dkg);
    ctx.family("setup", ctx.n(100, 1000), setup);
    for k in ["accepted", "duplicate-refused", "below-threshold-refused", "signature", "subset-signed"] {
        ctx.require(k, 200);
    }
    for k in ["signature-flipped", "value-altered", "index-altered", "out-of-range", "other-session", "other-message", "other-signer", "stolen", "foreign-partial"] {
        ctx.require(&format!("refused:{}", k), 100);
    }
    ctx.require("dkg-keys", 40);
}
