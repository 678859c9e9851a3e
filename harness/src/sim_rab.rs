//! A simulated network running the library's Rabin key generation: sharing
//! phase, commitment phase, reconstruction of exposed dealers.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::{commit_at, lagrange0, poly_at, Answer, Reply, Whole};
use crate::suite::MonSuite;
use crate::vss::*;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::dkg::rabin as dkg;
use kyber_rs::share::poly::PriShare;
use kyber_rs::share::vss::rabin::vss;
use kyber_rs::sign::schnorr;
use num_bigint_dig::BigUint;
use std::collections::{BTreeMap, BTreeSet};

pub type Dkg = dkg::DistKeyGenerator<MonSuite>;
pub type Share = dkg::DistKeyShare<MonSuite>;
pub type Sc = dkg::SecretCommits<MonSuite>;
pub type Cc = dkg::ComplaintCommits<MonSuite>;
pub type Rc = dkg::ReconstructCommits<MonSuite>;
pub type Just = dkg::Justification<MonSuite>;

/// coefficients of the polynomial of lowest degree through the points
pub fn interp(pts: &[(usize, [u8; 32])]) -> Vec<[u8; 32]> {
    let l = ell();
    let mut out = vec![BigUint::from(0u8); pts.len()];
    for (i, v) in pts {
        let xi = BigUint::from(*i as u64 + 1);
        let mut num = vec![BigUint::from(1u8)];
        let mut den = BigUint::from(1u8);
        for (j, _) in pts {
            if j == i {
                continue;
            }
            let xj = BigUint::from(*j as u64 + 1);
            num = mul_root(&num, &xj);
            den = modl(&(den * modl(&(&l + &xi - &xj))));
        }
        let k = modl(&(from_le(v) * den.modpow(&(&l - BigUint::from(2u8)), &l)));
        for (o, n) in out.iter_mut().zip(&num) {
            *o = modl(&(&*o + n * &k));
        }
    }
    out.iter().map(le32).collect()
}
/// p(x) * (x - root)
fn mul_root(p: &[BigUint], root: &BigUint) -> Vec<BigUint> {
    let l = ell();
    let mut r = vec![BigUint::from(0u8); p.len() + 1];
    for (i, c) in p.iter().enumerate() {
        r[i + 1] = modl(&(&r[i + 1] + c));
        r[i] = modl(&(&r[i] + modl(&(c * (&l - root)))));
    }
    r
}
pub fn commit_coeffs(co: &[[u8; 32]]) -> Res<Vec<Point>> {
    co.iter().map(|k| kp(&denc(&imul(k, &dbase())))).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Send {
    Good,
    BadF,
    BadG,
    BadIndex,
    BadSid,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Publish {
    Good,
    /// wrong, but fitting the shares of these members
    Fits(Vec<usize>),
    Length,
    Forged,
    OtherSession,
    None,
}
pub struct Party {
    pub long: Scalar,
    pub pubk: Point,
    pub byz: bool,
    pub dkg: Dkg,
}
#[derive(Clone, Debug)]
pub enum Body {
    Start,
    Deal(dkg::Deal<Point>),
    Resp(usize, bool, dkg::Response),
    Just(usize, Just),
    Sc(Sc),
    Cc(usize, Cc),
    /// issuer, complaint answered
    Rc(usize, usize, Rc),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub to: usize,
    pub o: usize,
    pub body: Body,
}
pub struct Plan {
    pub whole: Whole,
    pub deals: bool,
    pub sends: Vec<Send>,
    pub answers: Vec<Answer>,
    pub publish: Publish,
}
pub type Hook<'a> = &'a mut dyn FnMut(&mut Case, usize, &mut Party, Option<&Ev>) -> Res;

pub struct Sim {
    pub n: usize,
    pub t: usize,
    pub pubs: Vec<Point>,
    pub parties: Vec<Party>,
    pub plans: Vec<Plan>,
    pub replies: BTreeMap<(usize, usize), Reply>,
    pub reveals: BTreeSet<usize>,
    pub complains: BTreeSet<usize>,
    pub coeffs: Vec<Option<Vec<[u8; 32]>>>,
    pub dealers: Vec<Option<vss::Dealer<MonSuite>>>,
    pub sids: Vec<Option<Vec<u8>>>,
    pub queue: Vec<Ev>,
    pub delivered: Vec<Ev>,
    pub said: BTreeMap<(usize, usize), bool>,
    pub seen: BTreeSet<(usize, usize, usize)>,
    pub justified: BTreeMap<(usize, usize), bool>,
    pub got: BTreeSet<(usize, usize)>,
    pub published: BTreeSet<usize>,
    pub sc_seen: BTreeSet<(usize, usize)>,
    pub cc_seen: BTreeSet<(usize, usize, usize)>,
    /// members whose true share of the dealer is public
    pub revealed: BTreeSet<(usize, usize)>,
    pub accused: BTreeSet<usize>,
    /// who dropped the published commitments of whom (dealer, member)
    pub dropped: BTreeSet<(usize, usize)>,
    pub self_complaint: bool,
    pub noise: bool,
    pub timeout: bool,
    pub outputs: Vec<Option<Share>>,
    pub transcript: Vec<u8>,
}

impl Sim {
    pub fn new(c: &mut Case, max: usize, faults: bool) -> Res<Sim> {
        let n = c.rng.range(2, max);
        let t = if c.rng.chance(1, 3) { (n / 2 + 1).max(2) } else { c.rng.range(2, n) };
        let f = if !faults || c.rng.chance(1, 4) {
            0
        } else if c.rng.chance(2, 3) {
            c.rng.range(0, n - t)
        } else {
            c.rng.range(0, n - 1)
        };
        let byz: BTreeSet<usize> = c.rng.subset(n, f).into_iter().collect();
        Sim::with(c, n, t, byz)
    }
    pub fn with(c: &mut Case, n: usize, t: usize, byz: BTreeSet<usize>) -> Res<Sim> {
        let (longs, pubs) = keys(&mut c.rng, n)?;
        let mut parties = vec![];
        for p in 0..n {
            let d = ok(nopanic("new_dist_key_generator", || dkg::new_dist_key_generator(&MonSuite {}, &longs[p], &pubs, t))?, "new-dkg")?;
            parties.push(Party { long: longs[p].clone(), pubk: pubs[p], byz: byz.contains(&p), dkg: d });
        }
        let mut plans = vec![];
        let mut replies = BTreeMap::new();
        let (mut reveals, mut complains) = (BTreeSet::new(), BTreeSet::new());
        for o in 0..n {
            let b = byz.contains(&o);
            let r = &mut c.rng;
            let mood = r.below(6);
            let whole = match (b && mood == 0, r.bool()) {
                (true, true) => Whole::Threshold,
                (true, false) => Whole::Length,
                _ => Whole::Normal,
            };
            let sends = (0..n)
                .map(|k| {
                    if !b || k == o || mood != 1 {
                        return Send::Good;
                    }
                    match r.below(8) {
                        0 => Send::BadF,
                        1 => Send::BadG,
                        2 => Send::BadIndex,
                        3 => Send::BadSid,
                        _ => Send::Good,
                    }
                })
                .collect();
            let answers = (0..n)
                .map(|_| match r.below(8) {
                    0 => Answer::Bad,
                    1 => Answer::None,
                    _ => Answer::Good,
                })
                .collect();
            let publish = if !b {
                Publish::Good
            } else {
                match r.below(10) {
                    0 => Publish::Length,
                    1 => Publish::Forged,
                    2 => Publish::OtherSession,
                    3 => Publish::None,
                    4 | 5 => Publish::Good,
                    _ => {
                        let k = r.range(0, t - 1);
                        Publish::Fits(r.subset(n, k))
                    }
                }
            };
            plans.push(Plan { whole, deals: !(b && mood == 2 && r.bool()), sends, answers, publish });
            if b {
                let mood = c.rng.below(4);
                for d in 0..n {
                    let q = match (mood, c.rng.below(4)) {
                        (0, _) => Reply::Silent,
                        (1, _) => Reply::Approve,
                        (_, 0) => Reply::Silent,
                        (_, 1) => Reply::Complain,
                        _ => Reply::Approve,
                    };
                    replies.insert((d, o), q);
                }
                if c.rng.bool() {
                    reveals.insert(o);
                }
                if c.rng.bool() {
                    complains.insert(o);
                }
            }
        }
        Ok(Sim {
            n,
            t,
            pubs,
            parties,
            plans,
            replies,
            reveals,
            complains,
            coeffs: vec![None; n],
            dealers: vec![None; n],
            sids: vec![None; n],
            queue: vec![],
            delivered: vec![],
            said: Default::default(),
            seen: Default::default(),
            justified: Default::default(),
            got: Default::default(),
            published: Default::default(),
            sc_seen: Default::default(),
            cc_seen: Default::default(),
            revealed: Default::default(),
            accused: Default::default(),
            dropped: Default::default(),
            self_complaint: c.rng.bool(),
            noise: c.rng.bool(),
            timeout: false,
            outputs: (0..n).map(|_| None).collect(),
            transcript: vec![],
        })
    }
    pub fn honest(&self) -> Vec<usize> {
        (0..self.n).filter(|p| !self.parties[*p].byz).collect()
    }
    fn push_all(&mut self, from: usize, own: bool, o: usize, body: Body) {
        for to in 0..self.n {
            if (to != from || own) && !self.parties[to].byz {
                self.queue.push(Ev { to, o, body: body.clone() });
            }
        }
    }

    fn start(&mut self, c: &mut Case, o: usize) -> Res {
        let mut out: Vec<(usize, dkg::Deal<Point>)> = vec![];
        if !self.parties[o].byz {
            let dk = &mut self.parties[o].dkg;
            let m = ok(nopanic("deals", || dk.deals())?, "deals")?;
            ensure!(m.len() == self.n - 1, "deal-count", "{} deals for {} members", m.len(), self.n);
            let mut pts = vec![];
            for k in 0..self.n {
                let d = ok(Rab::plain(&mut dk.dealer, k), "plain")?;
                pts.push((k, view::<Rab>(d)?.f));
            }
            let co = interp(&pts);
            ensure!(co[self.t..].iter().all(|x| *x == [0; 32]), "degree", "dealer {} uses more than {} coefficients", o, self.t);
            self.coeffs[o] = Some(co[..self.t].to_vec());
            self.sids[o] = Some(dk.dealer.session_id());
            self.got.insert((o, o));
            let mut ks: Vec<usize> = m.keys().copied().collect();
            ks.sort();
            for k in ks {
                out.push((k, m[&k].clone()));
            }
            self.transcript.extend(serde_json::to_vec(&out).unwrap());
        } else {
            if !self.plans[o].deals {
                return Ok(());
            }
            let mut t = self.t;
            if self.plans[o].whole == Whole::Threshold {
                t = c.rng.range(2, self.n);
                if t == self.t {
                    self.plans[o].whole = Whole::Normal;
                }
            }
            let secret = scalar(&mut c.rng)?;
            let mut vd = ok(Rab::dealer(&self.parties[o].long, &secret, &self.pubs, t), "byz-dealer")?;
            let mut sid = vd.session_id();
            let mut pts = vec![];
            for k in 0..self.n {
                pts.push((k, view::<Rab>(ok(Rab::plain(&mut vd, k), "plain")?)?.f));
            }
            self.coeffs[o] = Some(interp(&pts)[..t].to_vec());
            if self.plans[o].whole == Whole::Length {
                let mut commits = view::<Rab>(ok(Rab::plain(&mut vd, 0), "plain")?)?.commits;
                commits.push(kp(&denc(&imul(&red(&c.rng.arr::<32>()), &dbase())))?);
                sid = spec_sid(&self.pubs[o], &self.pubs, &commits, t)?;
                for k in 0..self.n {
                    let d = ok(Rab::plain(&mut vd, k), "plain")?;
                    let mut w = view::<Rab>(d)?;
                    w.commits = commits.clone();
                    w.sid = sid.clone();
                    *d = deal_from::<Rab>(&w)?;
                }
            }
            for k in 0..self.n {
                if k == o {
                    continue;
                }
                let good = ok(Rab::plain(&mut vd, k), "plain")?.clone();
                let mut w = view::<Rab>(&good)?;
                let bump = |x: &[u8; 32], r: &mut Rng| le32(&modl(&(from_le(x) + BigUint::from(1 + r.below(9) as u64))));
                match self.plans[o].sends[k] {
                    Send::Good => (),
                    Send::BadF => w.f = bump(&w.f, &mut c.rng),
                    Send::BadG => w.g = bump(&w.g, &mut c.rng),
                    Send::BadIndex => w.gi = (w.gi + 1) % self.n,
                    Send::BadSid => {
                        let i = c.rng.below(w.sid.len());
                        w.sid[i] ^= 1 << c.rng.below(8);
                    }
                }
                *ok(Rab::plain(&mut vd, k), "plain")? = deal_from::<Rab>(&w)?;
                let e = ok(Rab::enc(&vd, k), "enc")?;
                *ok(Rab::plain(&mut vd, k), "plain")? = good;
                out.push((k, dkg::Deal { index: o as u32, deal: e }));
            }
            self.sids[o] = Some(sid);
            self.dealers[o] = Some(vd);
        }
        for (k, d) in out {
            if !self.parties[k].byz {
                self.queue.push(Ev { to: k, o, body: Body::Deal(d) });
            }
        }
        let sid = self.sids[o].clone().unwrap();
        for k in 0..self.n {
            if !self.parties[k].byz || k == o {
                continue;
            }
            let st = match self.replies[&(o, k)] {
                Reply::Silent => continue,
                Reply::Approve => true,
                Reply::Complain => false,
            };
            let r = sign_response::<Rab>(&self.parties[k].long, &sid, k as u32, st)?;
            self.broadcast_resp(c, o, k, st, dkg::Response { index: o as u32, response: r })?;
        }
        Ok(())
    }

    fn broadcast_resp(&mut self, c: &mut Case, o: usize, k: usize, st: bool, r: dkg::Response) -> Res {
        self.said.insert((o, k), st);
        self.seen.insert((k, o, k));
        self.transcript.extend(serde_json::to_vec(&js(&r)).unwrap());
        self.push_all(k, false, o, Body::Resp(k, st, r));
        if !st && self.parties[o].byz {
            let mut a = self.plans[o].answers[k];
            if a == Answer::None {
                return Ok(());
            }
            let n = self.n;
            let vd = self.dealers[o].as_mut().unwrap();
            let mut w = view::<Rab>(ok(Rab::plain(vd, k), "plain")?)?;
            if a == Answer::Bad {
                match c.rng.below(4) {
                    0 => w.f = le32(&modl(&(from_le(&w.f) + BigUint::from(1u8)))),
                    1 => w.g = le32(&modl(&(from_le(&w.g) + BigUint::from(1u8)))),
                    2 => w = view::<Rab>(ok(Rab::plain(vd, (k + 1) % n), "plain")?)?,
                    _ => w.t += 1,
                }
            }
            if self.plans[o].whole != Whole::Normal {
                a = Answer::Bad;
            }
            let sid = self.sids[o].clone().unwrap();
            let j = make_just::<Rab>(&self.parties[o].long, &sid, k as u32, &deal_from::<Rab>(&w)?)?;
            self.broadcast_just(o, k, a == Answer::Good, Just { index: o as u32, justification: j });
        }
        Ok(())
    }
    fn broadcast_just(&mut self, o: usize, k: usize, good: bool, j: Just) {
        self.justified.insert((o, k), good);
        self.transcript.extend(serde_json::to_vec(&js(&j)).unwrap());
        self.push_all(o, false, o, Body::Just(k, j));
    }

    /// do the members (all of them) qualify this dealer?
    pub fn qualified(&self, o: usize, timeout: bool) -> bool {
        if self.sids[o].is_none() || self.plans[o].whole == Whole::Threshold {
            return false;
        }
        let mut app = 1;
        for k in 0..self.n {
            if k == o {
                continue;
            }
            match self.said.get(&(o, k)) {
                None if !timeout => return false,
                None => (),
                Some(true) => app += 1,
                Some(false) => match self.justified.get(&(o, k)) {
                    Some(true) => app += 1,
                    Some(false) => return false,
                    None => (),
                },
            }
        }
        app >= self.t
    }
    /// does the member hold a usable share of this dealer?
    pub fn holds(&self, o: usize, k: usize) -> bool {
        self.got.contains(&(o, k)) && (o == k || self.said.get(&(o, k)) == Some(&true) || self.justified.get(&(o, k)) == Some(&true))
    }

    fn publish(&mut self, c: &mut Case, o: usize) -> Res {
        if self.published.contains(&o) {
            return Ok(());
        }
        self.published.insert(o);
        let sc;
        if !self.parties[o].byz {
            let want = self.qualified(o, self.timeout);
            let dk = &mut self.parties[o].dkg;
            match nopanic("secret_commits", || dk.secret_commits())? {
                Err(e) => {
                    ensure!(!want, "no-secret-commits", "dealer {} is qualified but cannot reveal: {:?}", o, e);
                    c.ev("reveal-refused");
                    return Ok(());
                }
                Ok(s) => {
                    ensure!(want, "early-secret-commits", "dealer {} reveals although not qualified", o);
                    let cm = commit_coeffs(self.coeffs[o].as_ref().unwrap())?;
                    ensure!(s.commitments == cm, "secret-commits", "dealer {} reveals other commitments than its polynomial's", o);
                    ensure!(Some(&s.session_id) == self.sids[o].as_ref() && s.index as usize == o, "secret-commits", "wrong session or index");
                    c.ev("revealed");
                    sc = s;
                }
            }
        } else {
            if self.sids[o].is_none() || self.plans[o].publish == Publish::None {
                return Ok(());
            }
            let mut co = self.coeffs[o].clone().unwrap();
            if self.plans[o].whole != Whole::Normal {
                self.plans[o].publish = Publish::Good;
            }
            let mut sid = self.sids[o].clone().unwrap();
            match &self.plans[o].publish {
                Publish::Fits(s) => {
                    // add a multiple of the polynomial vanishing at these members
                    let mut z = vec![from_le(&red(&c.rng.arr::<32>()))];
                    for k in s {
                        z = mul_root(&z, &BigUint::from(*k as u64 + 1));
                    }
                    for (a, b) in co.iter_mut().zip(&z) {
                        *a = le32(&modl(&(from_le(a) + b)));
                    }
                    c.log(format!("dealer {} publishes commitments fitting {:?} only", o, s));
                }
                Publish::Length => {
                    if c.rng.bool() {
                        co.push(red(&c.rng.arr::<32>()));
                    } else {
                        co.pop();
                    }
                }
                Publish::OtherSession => sid[c.rng.below(32)] ^= 4,
                _ => (),
            }
            let mut s = Sc { index: o as u32, commitments: commit_coeffs(&co)?, session_id: sid, signature: vec![] };
            s.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[o].long, &s.hash(&MonSuite {}).unwrap()), "sign")?;
            if self.plans[o].publish == Publish::Forged {
                let i = c.rng.below(64);
                s.signature[i] ^= 1 << c.rng.below(8);
            }
            sc = s;
        }
        self.transcript.extend(serde_json::to_vec(&js(&sc)).unwrap());
        self.push_all(o, false, o, Body::Sc(sc));
        // a dishonest member exposes it as well, or complains for no reason
        if let Some(b) = self.complains.iter().copied().find(|b| *b != o) {
            let d = if self.parties[o].byz {
                self.dealers[o].as_mut().map(|vd| Rab::plain(vd, b).map(|x| x.clone()))
            } else {
                Some(Rab::plain(&mut self.parties[o].dkg.dealer, b).map(|x| x.clone()))
            };
            if let Some(Ok(deal)) = d {
                let mut cc = Cc { index: b as u32, dealer_index: o as u32, deal, signature: vec![] };
                cc.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[b].long, &cc.hash(&MonSuite {}).unwrap()), "sign")?;
                self.push_all(b, false, o, Body::Cc(b, cc));
            }
        }
        Ok(())
    }
    /// is the complaint of this member about the published commitments right?
    fn true_complaint(&self, o: usize, k: usize) -> bool {
        matches!(&self.plans[o].publish, Publish::Fits(s) if !s.contains(&k)) && self.plans[o].whole == Whole::Normal
    }

    fn ready(&self, e: &Ev) -> bool {
        match &e.body {
            // the library refuses answers before the deal they are about
            Body::Resp(..) => {
                self.got.contains(&(e.o, e.to))
                    || self.plans[e.o].whole == Whole::Threshold
                    || !self.queue.iter().any(|x| x.to == e.to && x.o == e.o && matches!(x.body, Body::Deal(_) | Body::Start))
            }
            Body::Just(k, _) => self.seen.contains(&(e.to, e.o, *k)),
            Body::Sc(_) => self.timeout || self.parties[e.to].dkg.is_in_qual(e.o as u32),
            Body::Cc(k, _) => self.sc_seen.contains(&(e.to, e.o)) && (self.timeout || self.parties[e.to].dkg.is_in_qual(*k as u32)),
            Body::Rc(_, k, _) => self.cc_seen.contains(&(e.to, e.o, *k)),
            _ => true,
        }
    }

    fn deliver(&mut self, c: &mut Case, e: Ev, hook: &mut Option<Hook>) -> Res {
        let (o, p) = (e.o, e.to);
        if let Body::Start = e.body {
            self.start(c, o)?;
        } else if let Some(h) = hook.as_mut() {
            h(c, p, &mut self.parties[p], Some(&e))?;
        }
        let whole = self.plans[o].whole;
        match &e.body {
            Body::Start => (),
            Body::Deal(d) => {
                let kind = self.plans[o].sends[p];
                let before = self.parties[p].dkg.clone();
                let dk = &mut self.parties[p].dkg;
                let r = nopanic("process_deal", || dk.process_deal(d))?;
                match r {
                    Err(x) => {
                        ensure!(whole == Whole::Threshold, "deal-error", "deal of {} to {} ({:?}): {:?}", o, p, kind, x);
                        ensure!(before == self.parties[p].dkg, "refused-deal-effect", "a refused deal changed the participant");
                        c.ev("deal-refused");
                    }
                    Ok(r) => {
                        ensure!(whole != Whole::Threshold, "threshold-accepted", "deal of another threshold accepted");
                        let st = r.response.approved;
                        ensure!(st == (kind == Send::Good && whole == Whole::Normal), "deal-judgement", "deal of {} to {} ({:?} {:?}) answered {}", o, p, kind, whole, st);
                        let sid = self.sids[o].clone().unwrap();
                        ensure!(r.index as usize == o && r.response.index as usize == p && r.response.session_id == sid, "response-header", "response of {} to {} ({:?})", p, o, kind);
                        ensure!(
                            schnorr::verify(MonSuite {}, &self.parties[p].pubk, &spec_resp_hash(&sid, p as u32, st), &r.response.signature).is_ok(),
                            "response-signature",
                            "response of {} to {} is not signed over its content",
                            p,
                            o
                        );
                        c.ev(if st { "deal-approved" } else { "deal-complained" });
                        self.got.insert((o, p));
                        self.broadcast_resp(c, o, p, st, r)?;
                    }
                }
            }
            Body::Resp(k, st, r) => {
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_response", || dk.process_response(r))?;
                self.seen.insert((p, o, *k));
                let want = self.got.contains(&(o, p));
                match x {
                    Err(x) => ensure!(!want, "response-refused", "answer {} of {} about {} refused by {}: {:?}", st, k, o, p, x),
                    Ok(None) => ensure!(want && (o != p || *st), "no-justification", "dealer {} does not justify the complaint of {}", o, k),
                    Ok(Some(j)) => {
                        ensure!(o == p && !*st && j.index as usize == o, "spurious-justification", "party {} justifies for {}", p, o);
                        c.ev("justification");
                        self.broadcast_just(o, *k, true, j);
                    }
                }
                c.ev("response-counted");
            }
            Body::Just(k, j) => {
                let good = self.justified[&(o, *k)];
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_justification", || dk.process_justification(j))?;
                if self.got.contains(&(o, p)) {
                    ensure!(x.is_ok() == good, "justification-judgement", "{} justification of {} for {}: {:?}", good, o, k, x.err());
                    c.ev(if good { "justified" } else { "bad-justification" });
                } else {
                    ensure!(x.is_err(), "justification-without-deal", "justification without a deal accepted");
                }
            }
            Body::Sc(s) => {
                let inq = self.qualified(o, self.timeout);
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_secret_commits", || dk.process_secret_commits(s))?;
                self.sc_seen.insert((p, o));
                let valid = matches!(self.plans[o].publish, Publish::Good | Publish::Fits(_)) && whole == Whole::Normal && inq && self.holds(o, p);
                let fits = !self.true_complaint(o, p);
                match x {
                    Err(x) => {
                        ensure!(!valid, "secret-commits-refused", "commitments of {} ({:?}) refused by {}: {:?}", o, self.plans[o].publish, p, x);
                        c.ev("secret-commits-refused");
                    }
                    Ok(None) => {
                        ensure!(valid && fits, "secret-commits-accepted", "commitments of {} ({:?} {:?}) accepted by {}", o, self.plans[o].publish, whole, p);
                        c.ev("secret-commits-accepted");
                    }
                    Ok(Some(cc)) => {
                        ensure!(valid && !fits, "false-complaint", "{} complains about the commitments of {} ({:?})", p, o, self.plans[o].publish);
                        ensure!(cc.index as usize == p && cc.dealer_index as usize == o, "complaint-header", "wrong indices in a complaint");
                        ensure!(
                            schnorr::verify(MonSuite {}, &self.parties[p].pubk, &cc.hash(&MonSuite {}).unwrap(), &cc.signature).is_ok(),
                            "complaint-signature",
                            "complaint not signed by its issuer"
                        );
                        c.ev("commit-complaint");
                        self.accused.insert(o);
                        self.dropped.insert((o, p));
                        self.cc_seen.insert((p, o, p));
                        self.transcript.extend(serde_json::to_vec(&js(&cc)).unwrap());
                        let own = self.self_complaint;
                        self.push_all(p, own, o, Body::Cc(p, cc));
                    }
                }
            }
            Body::Cc(k, m) => {
                let inq = self.qualified(o, self.timeout) && self.qualified(*k, self.timeout);
                let just = self.true_complaint(o, *k);
                let had = self.parties[p].dkg.reconstructed.contains_key(&(o as u32));
                let before = self.parties[p].dkg.clone();
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_complaint_commits", || dk.process_complaint_commits(m))?;
                self.cc_seen.insert((p, o, *k));
                let want = inq && just && o != p && self.holds(o, p);
                match x {
                    Ok(rc) => {
                        ensure!(want || (had && inq && just), "false-complaint-accepted", "complaint of {} about {} ({:?}) accepted by {}", k, o, self.plans[o].publish, p);
                        ensure!(
                            rc.index as usize == p && rc.dealer_index as usize == o && rc.share.i == p && Some(&rc.session_id) == self.sids[o].as_ref(),
                            "reconstruct-header",
                            "wrong reconstruction message"
                        );
                        ensure!(red(&sbytes(&rc.share.v)?) == poly_at(self.coeffs[o].as_ref().unwrap(), p), "reconstruct-share", "{} reveals a wrong share of {}", p, o);
                        c.ev("share-revealed");
                        self.accused.insert(o);
                        self.dropped.insert((o, p));
                        if self.revealed.insert((o, p)) {
                            self.transcript.extend(serde_json::to_vec(&js(&rc)).unwrap());
                            self.push_all(p, false, o, Body::Rc(p, *k, rc));
                            self.byz_reveals(o, *k)?;
                        }
                    }
                    Err(x) => {
                        ensure!(!want || had, "complaint-refused", "complaint of {} about {} refused by {}: {:?}", k, o, p, x);
                        ensure!(before == self.parties[p].dkg, "refused-complaint-effect", "a refused complaint changed the participant");
                        c.ev("commit-complaint-refused");
                    }
                }
            }
            Body::Rc(_, _, m) => {
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_reconstruct_commits", || dk.process_reconstruct_commits(m))?;
                if let Err(x) = x {
                    ensure!(!(self.got.contains(&(o, p))), "reconstruct-refused", "share of {} revealed for {} refused by {}: {:?}", m.index, o, p, x);
                }
                c.ev("reconstruct-share");
            }
        }
        if let Some(h) = hook.as_mut() {
            h(c, p, &mut self.parties[p], None)?;
        }
        self.delivered.push(e);
        Ok(())
    }
    fn byz_reveals(&mut self, o: usize, k: usize) -> Res {
        for b in self.reveals.clone() {
            if b == o || !self.revealed.insert((o, b)) {
                continue;
            }
            let v = poly_at(self.coeffs[o].as_ref().unwrap(), b);
            let mut rc = Rc { session_id: self.sids[o].clone().unwrap(), index: b as u32, dealer_index: o as u32, share: PriShare { i: b, v: ks(&v)? }, signature: vec![] };
            rc.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[b].long, &rc.hash(&MonSuite {}).unwrap()), "sign")?;
            self.push_all(b, false, o, Body::Rc(b, k, rc));
        }
        Ok(())
    }

    /// a signed complaint against the commitments of a dealer, with a deal that does
    /// not prove anything
    fn false_complaint(&mut self, c: &mut Case) -> Res {
        let n = self.n;
        let honest = self.honest();
        let p = *c.rng.choose(&honest);
        let (k, o) = (c.rng.below(n), c.rng.below(n));
        if self.plans[o].whole != Whole::Normal && c.rng.chance(3, 4) {
            return Ok(());
        }
        let who = c.rng.below(n);
        let d = if self.parties[o].byz {
            match self.dealers[o].as_mut() {
                Some(vd) => Rab::plain(vd, who).map(|x| x.clone()),
                None => return Ok(()),
            }
        } else {
            Rab::plain(&mut self.parties[o].dkg.dealer, who).map(|x| x.clone())
        };
        let Ok(deal) = d else { return Ok(()) };
        let honest_dealer = !self.parties[o].byz;
        let rnd = red(&c.rng.arr::<32>());
        let v = serde_json::to_value(ks(&rnd)?).unwrap();
        let pt = serde_json::to_value(kp(&denc(&imul(&rnd, &dbase())))?).unwrap();
        let what = c.rng.below(if honest_dealer { 7 } else { 6 });
        let bit = c.rng.below(32);
        let deal = edit(&deal, |j| match what {
            0 => j["sec_share"]["v"] = v,
            1 => j["rnd_share"]["v"] = v,
            2 => {
                let i = ((who + 1) % n) as u64;
                j["sec_share"]["i"] = i.into();
                j["rnd_share"]["i"] = i.into();
            }
            3 => {
                let x = j["session_id"][bit].as_u64().unwrap() ^ 1;
                j["session_id"][bit] = x.into();
            }
            4 => j["commitments"][0] = pt,
            5 => {
                j["sec_share"]["v"] = v.clone();
                j["rnd_share"]["v"] = v;
            }
            _ => (),
        });
        let mut cc = Cc { index: k as u32, dealer_index: o as u32, deal, signature: vec![] };
        cc.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[k].long, &cc.hash(&MonSuite {}).unwrap()), "sign")?;
        let before = self.parties[p].dkg.clone();
        let dk = &mut self.parties[p].dkg;
        let r = nopanic("process_complaint_commits", || dk.process_complaint_commits(&cc))?;
        ensure!(r.is_err(), "unfounded-complaint", "complaint of {} against dealer {} (honest {}) with a deal altered in way {} accepted by {}", k, o, honest_dealer, what, p);
        ensure!(before == self.parties[p].dkg, "unfounded-complaint-effect", "a refused complaint changed party {}", p);
        c.ev("unfounded-complaint-refused");
        Ok(())
    }
    fn noise(&mut self, c: &mut Case) -> Res {
        if c.rng.chance(1, 4) {
            self.false_complaint(c)?;
        }
        if self.delivered.is_empty() {
            return Ok(());
        }
        let mut e = c.rng.choose(&self.delivered).clone();
        // shares revealed while the commitments are not there yet are rare: prefer them
        let mut early = false;
        if c.rng.bool() {
            let open = |e: &&Ev| matches!(e.body, Body::Rc(..)) && !self.parties[e.to].dkg.reconstructed.contains_key(&(e.o as u32));
            let done: Vec<&Ev> = self.delivered.iter().filter(open).collect();
            let coming: Vec<&Ev> = self.queue.iter().filter(open).collect();
            if !coming.is_empty() && (done.is_empty() || c.rng.bool()) {
                e = (*c.rng.choose(&coming)).clone();
                early = true;
            } else if !done.is_empty() {
                e = (*c.rng.choose(&done)).clone();
            }
        }
        let p = e.to;
        if self.parties[p].byz {
            return Ok(());
        }
        let n = self.n;
        let other = c.rng.below(n);
        let r = &mut c.rng;
        let oob = *r.choose(&[n as u32, u32::MAX, 1 << 31]);
        let flip = |s: &mut Vec<u8>, r: &mut Rng| {
            if s.is_empty() {
                s.push(1);
            } else {
                let i = r.below(s.len());
                s[i] ^= 1 << r.below(8);
            }
        };
        let mut name = "replay";
        let mut must_fail = true;
        match &mut e.body {
            Body::Start => return Ok(()),
            Body::Deal(d) => match r.below(3) {
                0 => must_fail = self.plans[e.o].whole == Whole::Threshold || self.got.contains(&(e.o, p)),
                1 => {
                    name = "deal-out-of-range";
                    d.index = oob;
                }
                _ => {
                    name = "deal-other-dealer";
                    d.index = (d.index + 1) % n as u32;
                }
            },
            Body::Resp(k, st, x) => match r.below(7) {
                0 => (),
                1 => {
                    name = "response-signature";
                    let mut s = x.response.signature.clone();
                    flip(&mut s, r);
                    x.response.signature = s;
                }
                2 => {
                    name = "response-flipped";
                    x.response.approved = !*st;
                }
                3 => {
                    name = "response-out-of-range";
                    if r.bool() {
                        x.index = oob
                    } else {
                        x.response.index = oob
                    }
                }
                4 => {
                    name = "response-second";
                    x.response = sign_response::<Rab>(&self.parties[*k].long, &x.response.session_id, *k as u32, !*st)?;
                }
                5 => {
                    name = "response-impersonated";
                    let k2 = (*k + 1) % n;
                    x.response = sign_response::<Rab>(&self.parties[*k].long, &x.response.session_id, k2 as u32, r.bool())?;
                }
                _ => {
                    name = "response-other-session";
                    let mut sid = x.response.session_id.clone();
                    flip(&mut sid, r);
                    x.response = sign_response::<Rab>(&self.parties[other].long, &sid, other as u32, r.bool())?;
                }
            },
            Body::Just(k, j) => {
                if !self.justified[&(e.o, *k)] {
                    return Ok(());
                }
                if r.bool() {
                    name = "justification-unknown-dealer";
                    j.index = oob;
                }
            }
            Body::Sc(s) => match r.below(5) {
                0 => must_fail = false,
                1 => {
                    name = "commits-signature";
                    flip(&mut s.signature, r);
                }
                2 => {
                    name = "commits-changed";
                    s.commitments[0] = kp(&denc(&imul(&red(&r.arr::<32>()), &dbase())))?;
                }
                3 => {
                    name = "commits-impersonated";
                    let o2 = (e.o + 1) % n;
                    s.index = o2 as u32;
                    s.session_id = self.sids[o2].clone().unwrap_or_default();
                    s.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[e.o].long, &s.hash(&MonSuite {}).unwrap()), "sign")?;
                }
                _ => {
                    name = "commits-out-of-range";
                    s.index = oob;
                }
            },
            Body::Cc(k, m) => match r.below(4) {
                0 => must_fail = false,
                1 => {
                    name = "complaint-signature";
                    flip(&mut m.signature, r);
                }
                2 => {
                    name = "complaint-out-of-range";
                    if r.bool() {
                        m.index = oob
                    } else {
                        m.dealer_index = oob
                    }
                }
                _ => {
                    // about another dealer, signed
                    name = "complaint-other-dealer";
                    let o2 = (e.o + 1) % n;
                    m.dealer_index = o2 as u32;
                    m.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[*k].long, &m.hash(&MonSuite {}).unwrap()), "sign")?;
                }
            },
            Body::Rc(k, _, m) => {
                // anything goes (unchanged) once the commitments are there
                let done = self.parties[p].dkg.reconstructed.contains_key(&(e.o as u32));
                must_fail = !done;
                match if early { 1 + r.below(4) } else { r.below(5) } {
                    0 => must_fail = false,
                    1 => {
                        name = "reconstruct-signature";
                        flip(&mut m.signature, r);
                    }
                    2 => {
                        name = "reconstruct-other-index";
                        m.share.i = (m.share.i + 1) % n;
                        m.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[*k].long, &m.hash(&MonSuite {}).unwrap()), "sign")?;
                    }
                    3 => {
                        name = "reconstruct-other-session";
                        flip(&mut m.session_id, r);
                        m.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[*k].long, &m.hash(&MonSuite {}).unwrap()), "sign")?;
                    }
                    _ => {
                        name = "reconstruct-valid-dealer";
                        // nobody complained about an honest dealer
                        let Some(h) = (0..n).find(|h| !self.parties[*h].byz && self.sc_seen.contains(&(p, *h)) && self.holds(*h, p) && self.qualified(*h, self.timeout)) else {
                            return Ok(());
                        };
                        must_fail = true;
                        m.dealer_index = h as u32;
                        m.session_id = self.sids[h].clone().unwrap();
                        m.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[*k].long, &m.hash(&MonSuite {}).unwrap()), "sign")?;
                    }
                }
            }
        }
        let before = self.parties[p].dkg.clone();
        let dk = &mut self.parties[p].dkg;
        let okd = match &e.body {
            Body::Start => false,
            Body::Deal(d) => nopanic("process_deal", || dk.process_deal(d))?.is_ok(),
            Body::Resp(_, _, x) => nopanic("process_response", || dk.process_response(x))?.is_ok(),
            Body::Just(_, j) => nopanic("process_justification", || dk.process_justification(j))?.is_ok(),
            Body::Sc(s) => nopanic("process_secret_commits", || dk.process_secret_commits(s))?.is_ok(),
            Body::Cc(_, m) => nopanic("process_complaint_commits", || dk.process_complaint_commits(m))?.is_ok(),
            Body::Rc(_, _, m) => nopanic("process_reconstruct_commits", || dk.process_reconstruct_commits(m))?.is_ok(),
        };
        ensure!(!(okd && must_fail), &format!("noise:{}", name), "{} accepted by party {}", name, p);
        ensure!(before == self.parties[p].dkg, &format!("noise-effect:{}", name), "{} changed party {}", name, p);
        c.ev(&format!("noise:{}", name));
        Ok(())
    }

    fn drain(&mut self, c: &mut Case, hook: &mut Option<Hook>) -> Res {
        let mood = c.rng.below(3);
        loop {
            // messages that never become deliverable are refused anyway
            let ready: Vec<usize> = (0..self.queue.len()).filter(|i| self.ready(&self.queue[*i])).collect();
            if ready.is_empty() {
                return Ok(());
            }
            let i = match mood {
                0 => *c.rng.choose(&ready),
                1 => ready[ready.len() - 1 - c.rng.below(ready.len().min(3))],
                _ => ready[c.rng.below(ready.len().min(4))],
            };
            let e = self.queue.swap_remove(i);
            let p = e.to;
            let rc = matches!(e.body, Body::Rc(..) | Body::Cc(..));
            self.deliver(c, e, hook)?;
            if self.noise && c.rng.chance(if rc { 3 } else { 1 }, 5) {
                self.noise(c)?;
            }
            // a member may move on as soon as every deal is certified
            if !self.timeout && !self.parties[p].byz && c.rng.chance(1, 8) && self.parties[p].dkg.qual().len() == self.n && self.qualified(p, false) && !self.published.contains(&p) {
                self.publish(c, p)?;
                c.ev("early-reveal");
            }
        }
    }

    pub fn run(&mut self, c: &mut Case, mut hook: Option<Hook>) -> Res {
        let bad: Vec<usize> = (0..self.n).filter(|p| self.parties[*p].byz).collect();
        c.log(format!("rabin dkg n={} t={} byz={:?}", self.n, self.t, bad));
        for o in &bad {
            let p = &self.plans[*o];
            c.log(format!("dealer {} {:?} deals={} {:?} {:?} {:?}", o, p.whole, p.deals, p.sends, p.answers, p.publish));
        }
        for o in 0..self.n {
            self.queue.push(Ev { to: o, o, body: Body::Start });
        }
        self.drain(c, &mut hook)?;
        // sharing phase over
        let full = (0..self.n).all(|o| self.qualified(o, false));
        for p in self.honest() {
            let want: Vec<usize> = (0..self.n).filter(|o| self.qualified(*o, false)).collect();
            let mut q = nopanic("qual", || self.parties[p].dkg.qual())?;
            q.sort();
            ensure!(q == want, "qual-early", "party {}: qualified {:?} before the timeout, expected {:?}", p, q, want);
        }
        if bad.is_empty() {
            ensure!(full, "fault-free", "not all deals certified in a fault-free run");
        }
        if !full || c.rng.bool() {
            self.timeout = true;
            for p in self.honest() {
                self.parties[p].dkg.set_timeout();
                if let Some(h) = hook.as_mut() {
                    h(c, p, &mut self.parties[p], None)?;
                }
            }
            c.ev("timeout");
        }
        let qual: Vec<usize> = (0..self.n).filter(|o| self.qualified(*o, self.timeout)).collect();
        for p in self.honest() {
            let dk = &self.parties[p].dkg;
            let mut q = nopanic("qual", || dk.qual())?;
            q.sort();
            ensure!(q == qual, "qual", "party {}: qualified {:?}, expected {:?}", p, q, qual);
            ensure!(dk.certified() == (qual.len() >= self.t), "certified", "certified()={} with {} of {}", dk.certified(), qual.len(), self.t);
            for o in 0..self.n {
                ensure!(dk.is_in_qual(o as u32) == qual.contains(&o), "is-in-qual", "is_in_qual({})", o);
            }
        }
        let mut order: Vec<usize> = (0..self.n).collect();
        c.rng.shuffle(&mut order);
        for o in order {
            self.publish(c, o)?;
            if c.rng.chance(1, 3) {
                self.drain(c, &mut hook)?;
            }
        }
        self.drain(c, &mut hook)?;
        self.judge(c, &qual)
    }

    fn judge(&mut self, c: &mut Case, qual: &[usize]) -> Res {
        // what everybody ends up with for each qualified dealer
        let mut sum = vec![BigUint::from(0u8); self.t];
        let mut known = true;
        let mut plain = true;
        let mut missing = BTreeSet::new();
        for o in qual {
            let mut co = self.coeffs[*o].clone().unwrap();
            match &self.plans[*o].publish {
                Publish::Good if self.plans[*o].whole == Whole::Normal => (),
                Publish::Fits(_) if self.plans[*o].whole == Whole::Normal => {
                    if self.accused.contains(o) {
                        let k = self.revealed.iter().filter(|(d, _)| d == o).count();
                        if k >= self.t {
                            c.ev("reconstructed-dealer");
                        } else {
                            // those that did not see a complaint they could
                            // believe go on with the wrong ones
                            plain = false;
                            co = vec![];
                            missing.insert(*o);
                            c.ev("stalled-reconstruction");
                        }
                    } else {
                        // wrong, but nobody honest can tell
                        plain = false;
                        co = vec![];
                    }
                }
                _ => {
                    known = false;
                    missing.insert(*o);
                    c.ev("silent-dealer");
                }
            }
            if co.len() == self.t {
                for (a, b) in sum.iter_mut().zip(&co) {
                    *a = modl(&(&*a + from_le(b)));
                }
            } else {
                plain = false;
            }
        }
        let mut first: Option<(usize, Share)> = None;
        let mut sh = vec![];
        for p in self.honest() {
            let dk = &self.parties[p].dkg;
            let holds = qual.iter().all(|o| self.holds(*o, p));
            let lacks = qual.iter().any(|o| self.dropped.contains(&(*o, p)) && self.revealed.iter().filter(|(d, _)| d == o).count() < self.t);
            let want = qual.len() >= self.t && holds && known && !lacks;
            let f = nopanic("finished", || dk.finished())?;
            match nopanic("dist_key_share", || dk.dist_key_share())? {
                Err(e) => {
                    ensure!(!want, "no-output", "party {} cannot finish: {:?} (qual {:?})", p, e, qual);
                    if qual.len() < self.t {
                        ensure!(!f, "finished", "finished() is true but party {} cannot finish: {:?} (qual {:?})", p, e, qual);
                        c.ev("too-few-qualified");
                    }
                    c.ev("unfinished");
                }
                Ok(s) => {
                    ensure!(want, "premature-output", "party {} outputs (qual {:?}, missing {:?}, holds {})", p, qual, missing, holds);
                    ensure!(f, "finished", "finished() is false but the share is there");
                    ensure!(s.share.i == p && s.commits.len() == self.t, "share-shape", "index {} commitments {}", s.share.i, s.commits.len());
                    let v = red(&sbytes(&s.share.v)?);
                    let mut cs = vec![];
                    for x in &s.commits {
                        cs.push(dalek_of(x)?);
                    }
                    ensure!(imul(&v, &dbase()) == commit_at(&cs, p), "share-mismatch", "share of {} does not match the commitments (qual {:?})", p, qual);
                    if plain {
                        for (a, b) in sum.iter().zip(&cs) {
                            ensure!(imul(&le32(a), &dbase()) == *b, "not-the-sum", "commitments are not the sum of the qualified dealers' {:?}", qual);
                        }
                        c.ev("key-predicted");
                    }
                    if let Some((q, f)) = &first {
                        ensure!(f.commits == s.commits && f.public() == s.public(), "agreement", "parties {} and {} disagree", q, p);
                        c.ev("agreement-compared");
                    } else {
                        first = Some((p, s.clone()));
                    }
                    sh.push((p, v));
                    c.ev("finished");
                    self.outputs[p] = Some(s);
                }
            }
        }
        if sh.len() >= self.t {
            let secret = le32(&sum[0]);
            for _ in 0..2 {
                let m = c.rng.range(self.t, sh.len());
                let mut pick = c.rng.subset(sh.len(), m);
                c.rng.shuffle(&mut pick);
                let pts: Vec<_> = pick.iter().map(|i| sh[*i]).collect();
                ensure!(lagrange0(&pts) == secret, "reconstruct", "shares {:?} give another key", pick);
                let mut l = vec![];
                for (i, v) in &pts {
                    l.push(Some(PriShare { i: *i, v: ks(v)? }));
                }
                let r = ok(nopanic("recover_secret", || kyber_rs::share::poly::recover_secret(MonSuite {}, &l, self.t, self.n))?, "recover")?;
                ensure!(red(&sbytes(&r)?) == secret, "reconstruct", "recover_secret gives another key");
                c.ev("key-reconstructed");
            }
        }
        Ok(())
    }
}
