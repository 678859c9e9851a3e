//! A simulated network running the library's Pedersen key generation and
//! resharing: random schedules, lost deals, dishonest dealers and responders,
//! with the outcome predicted from the messages alone.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::MonSuite;
use crate::vss::*;
use curve25519_dalek::edwards::EdwardsPoint;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::dkg::pedersen::{self as dkg, structs};
use kyber_rs::share::poly::PriShare;
use kyber_rs::share::vss::pedersen::vss;
use kyber_rs::sign::schnorr;
use num_bigint_dig::BigUint;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// a user supplied entropy source
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rd {
    pub seed: Vec<u8>,
    pub pos: u64,
}
impl std::io::Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut x = blake3::Hasher::new().update(&self.seed).finalize_xof();
        x.set_position(self.pos);
        x.fill(b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
}
pub type Dkg = dkg::DistKeyGenerator<MonSuite, Rd>;
pub type Share = structs::DistKeyShare<MonSuite>;
pub type Deal = structs::Deal<Point>;
pub type Just = structs::Justification<MonSuite>;

pub fn poly_at(co: &[[u8; 32]], i: usize) -> [u8; 32] {
    let x = BigUint::from(i as u64 + 1);
    let mut acc = BigUint::from(0u8);
    for k in co.iter().rev() {
        acc = modl(&(acc * &x + from_le(k)));
    }
    le32(&acc)
}
pub fn commit_at(cs: &[EdwardsPoint], i: usize) -> EdwardsPoint {
    let x = le32(&BigUint::from(i as u64 + 1));
    let mut acc = EdwardsPoint::default();
    for c in cs.iter().rev() {
        acc = imul(&x, &acc) + c;
    }
    acc
}
/// value at zero of the polynomial through the points (index, value)
pub fn lagrange0(pts: &[(usize, [u8; 32])]) -> [u8; 32] {
    let l = ell();
    let mut acc = BigUint::from(0u8);
    for (i, v) in pts {
        let xi = BigUint::from(*i as u64 + 1);
        let mut num = BigUint::from(1u8);
        let mut den = BigUint::from(1u8);
        for (j, _) in pts {
            if j != i {
                let xj = BigUint::from(*j as u64 + 1);
                num = modl(&(num * &xj));
                den = modl(&(den * modl(&(&l + &xj - &xi))));
            }
        }
        let inv = den.modpow(&(&l - BigUint::from(2u8)), &l);
        acc = modl(&(acc + from_le(v) * num * inv));
    }
    le32(&acc)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Whole {
    Normal,
    /// announces (and uses) another threshold
    Threshold,
    /// commits to more coefficients than announced
    Length,
    /// resharing: shares something else than its share
    Secret,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Send {
    Good,
    BadShare,
    BadSid,
    BadCipher,
    BadSig,
    None,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer {
    Good,
    Bad,
    None,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Reply {
    Approve,
    Complain,
    Silent,
}
pub struct Party {
    pub long: Scalar,
    pub pubk: Point,
    pub old: Option<usize>,
    pub new: Option<usize>,
    pub byz: bool,
    pub dkg: Dkg,
    pub share: Option<Share>,
}
/// the old sharing
#[derive(Clone)]
pub struct Old {
    pub t: usize,
    pub commits: Vec<Point>,
    pub secret: [u8; 32],
    pub shares: Vec<Option<[u8; 32]>>,
}
pub struct Spec {
    pub fresh: bool,
    pub t: usize,
    pub longs: Vec<Scalar>,
    pub pubs: Vec<Point>,
    /// party of each old / new index
    pub olds: Vec<usize>,
    pub news: Vec<usize>,
    pub old: Option<Old>,
    pub byz: BTreeSet<usize>,
    pub lossy: bool,
    pub noise: bool,
    /// threshold left to the default
    pub default_t: bool,
}
#[derive(Clone, Debug)]
pub enum Body {
    Start,
    Deal(Deal),
    Resp(usize, bool, structs::Response),
    Just(usize, Just),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub to: usize,
    pub o: usize,
    pub body: Body,
}
pub struct DealerPlan {
    pub whole: Whole,
    pub sends: Vec<Send>,
    pub answers: Vec<Answer>,
}
pub type Hook<'a> = &'a mut dyn FnMut(&mut Case, &mut Party, Option<&Ev>) -> Res;

pub struct Sim {
    pub spec: Spec,
    pub parties: Vec<Party>,
    pub plans: Vec<DealerPlan>,
    pub replies: BTreeMap<(usize, usize), Reply>,
    /// coefficients and commitments of every dealer that dealt
    pub polys: Vec<Option<Vec<[u8; 32]>>>,
    pub dealers: Vec<Option<vss::Dealer<MonSuite>>>,
    pub sids: Vec<Option<Vec<u8>>>,
    pub queue: Vec<Ev>,
    pub delivered: Vec<Ev>,
    /// honest answers, as broadcast: (dealer, responder) -> approval
    pub said: BTreeMap<(usize, usize), bool>,
    pub seen: BTreeSet<(usize, usize, usize)>,
    pub justified: BTreeMap<(usize, usize), bool>,
    pub got: BTreeSet<(usize, usize)>,
    pub outputs: Vec<Option<Share>>,
    pub early: Vec<Option<Share>>,
    pub transcript: Vec<u8>,
}

pub fn fresh_spec(r: &mut Rng, max: usize) -> Res<Spec> {
    let n = r.range(2, max);
    let t = if r.chance(1, 3) { (n / 2 + 1).max(2) } else { r.range(2, n) };
    let (longs, pubs) = keys(r, n)?;
    let f = if r.chance(1, 3) { 0 } else { r.range(0, n - 1) };
    let byz = r.subset(n, f).into_iter().collect();
    Ok(Spec {
        fresh: true,
        t,
        longs,
        pubs,
        olds: (0..n).collect(),
        news: (0..n).collect(),
        old: None,
        byz,
        lossy: r.chance(1, 3),
        noise: r.chance(1, 2),
        default_t: false,
    })
}

/// a sharing made by hand
pub fn make_old(r: &mut Rng, n: usize, t: usize) -> Res<Old> {
    let co: Vec<[u8; 32]> = (0..t)
        .map(|_| loop {
            let b = if r.chance(1, 10) { nasty_canon(r) } else { red(&r.arr::<32>()) };
            if b != [0; 32] {
                return b;
            }
        })
        .collect();
    let mut commits = vec![];
    for k in &co {
        commits.push(kp(&denc(&imul(k, &dbase())))?);
    }
    Ok(Old { t, commits, secret: co[0], shares: (0..n).map(|i| Some(poly_at(&co, i))).collect() })
}
pub fn reshare_spec(r: &mut Rng, old: Old, olong: Vec<Scalar>, opub: Vec<Point>, max: usize) -> Res<Spec> {
    let n_old = olong.len();
    let (mut longs, mut pubs) = (olong, opub);
    let n_new = r.range(2, max);
    let t = r.range(2, n_new);
    // overlap: same, disjoint or mixed
    let stay = match r.below(4) {
        0 => 0,
        1 => n_old.min(n_new),
        _ => r.range(0, n_old.min(n_new)),
    };
    let mut news = r.subset(n_old, stay);
    while news.len() < n_new {
        let (l, p) = keys(r, 1)?;
        if pubs.contains(&p[0]) {
            continue;
        }
        news.push(longs.len());
        longs.extend(l);
        pubs.extend(p);
    }
    r.shuffle(&mut news);
    let m = longs.len();
    let mut byz: BTreeSet<usize> = Default::default();
    if !r.chance(1, 3) {
        let f = r.range(0, m - 1);
        byz = r.subset(m, f).into_iter().collect();
        // keep enough honest dealers most of the time
        if !r.chance(1, 4) {
            let holders: Vec<usize> = (0..n_old).filter(|i| old.shares[*i].is_some()).collect();
            while holders.iter().filter(|i| !byz.contains(i)).count() < old.t.min(holders.len()) {
                let k = *r.choose(&holders);
                byz.remove(&k);
            }
        }
    }
    Ok(Spec {
        fresh: false,
        t,
        longs,
        pubs,
        olds: (0..n_old).collect(),
        news,
        old: Some(old),
        byz,
        lossy: r.chance(1, 4),
        noise: r.chance(1, 2),
        default_t: false,
    })
}

impl Sim {
    pub fn n(&self) -> usize {
        self.spec.news.len()
    }
    fn new_pubs(&self) -> Vec<Point> {
        self.spec.news.iter().map(|p| self.spec.pubs[*p]).collect()
    }
    pub fn honest_new(&self) -> Vec<usize> {
        self.spec.news.iter().copied().filter(|p| !self.parties[*p].byz).collect()
    }

    pub fn new(c: &mut Case, mut spec: Spec) -> Res<Sim> {
        let new_pubs: Vec<Point> = spec.news.iter().map(|p| spec.pubs[*p]).collect();
        let old_pubs: Vec<Point> = spec.olds.iter().map(|p| spec.pubs[*p]).collect();
        let mut parties = vec![];
        spec.default_t = spec.news.len() > 2 && c.rng.chance(1, 6);
        if spec.default_t {
            spec.t = vss::minimum_t(spec.news.len());
        }
        for p in 0..spec.longs.len() {
            let old = spec.olds.iter().position(|x| *x == p);
            let new = spec.news.iter().position(|x| *x == p);
            let rd = Rd { seed: c.rng.bytes(32), pos: 0 };
            let threshold = if spec.default_t { 0 } else { spec.t };
            let cfg = if spec.fresh {
                dkg::Config {
                    suite: MonSuite {},
                    longterm: spec.longs[p].clone(),
                    new_nodes: new_pubs.clone(),
                    threshold,
                    reader: Some(rd),
                    user_reader_only: true,
                    ..Default::default()
                }
            } else {
                let o = spec.old.as_ref().unwrap();
                let share = match old.and_then(|i| o.shares[i].map(|v| (i, v))) {
                    Some((i, v)) => Some(Share { commits: o.commits.clone(), share: PriShare { i, v: ks(&v)? }, private_poly: vec![] }),
                    None => None,
                };
                dkg::Config {
                    suite: MonSuite {},
                    longterm: spec.longs[p].clone(),
                    old_nodes: old_pubs.clone(),
                    new_nodes: new_pubs.clone(),
                    public_coeffs: if share.is_none() || c.rng.bool() { Some(o.commits.clone()) } else { None },
                    share,
                    threshold,
                    old_threshold: o.t,
                    reader: Some(rd),
                    user_reader_only: true,
                }
            };
            let share = cfg.share.clone();
            let d = ok(nopanic("new_dist_key_handler", || dkg::new_dist_key_handler(cfg))?, "new-dkg")?;
            parties.push(Party { long: spec.longs[p].clone(), pubk: spec.pubs[p], old, new, byz: spec.byz.contains(&p), dkg: d, share });
        }
        let (no, nn) = (spec.olds.len(), spec.news.len());
        let mut sim = Sim {
            plans: vec![],
            replies: Default::default(),
            polys: vec![None; no],
            dealers: vec![None; no],
            sids: vec![None; no],
            queue: vec![],
            delivered: vec![],
            said: Default::default(),
            seen: Default::default(),
            justified: Default::default(),
            got: Default::default(),
            outputs: (0..parties.len()).map(|_| None).collect(),
            early: (0..parties.len()).map(|_| None).collect(),
            transcript: vec![],
            parties,
            spec,
        };
        for o in 0..no {
            let byz = sim.parties[sim.spec.olds[o]].byz;
            let r = &mut c.rng;
            let mood = r.below(6);
            let whole = if byz && mood == 0 {
                match r.below(if sim.spec.fresh { 2 } else { 4 }) {
                    0 => Whole::Threshold,
                    1 => Whole::Length,
                    _ => Whole::Secret,
                }
            } else {
                Whole::Normal
            };
            let mut sends = vec![];
            let mut answers = vec![];
            for k in 0..nn {
                let own = sim.spec.news[k] == sim.spec.olds[o];
                let s = if own {
                    Send::Good
                } else if byz {
                    match (mood, r.below(8)) {
                        (1, _) => Send::None,
                        (0, 0) => Send::None,
                        (0, _) => Send::Good,
                        (2, _) => Send::Good,
                        (_, 0) | (_, 1) => Send::BadShare,
                        (_, 2) => Send::BadSid,
                        (_, 3) if r.bool() => Send::BadCipher,
                        (_, 4) if r.bool() => Send::BadSig,
                        (_, 5) if r.bool() => Send::None,
                        _ => Send::Good,
                    }
                } else if sim.spec.lossy && r.chance(1, 6) {
                    Send::None
                } else {
                    Send::Good
                };
                sends.push(s);
                answers.push(match r.below(6) {
                    0 => Answer::Bad,
                    1 => Answer::None,
                    _ => Answer::Good,
                });
            }
            sim.plans.push(DealerPlan { whole, sends, answers });
        }
        for k in 0..nn {
            if !sim.parties[sim.spec.news[k]].byz {
                continue;
            }
            let mood = c.rng.below(4);
            for o in 0..no {
                let q = match (mood, c.rng.below(4)) {
                    (0, _) => Reply::Silent,
                    (1, _) => Reply::Approve,
                    (_, 0) => Reply::Silent,
                    (_, 1) => Reply::Complain,
                    _ => Reply::Approve,
                };
                sim.replies.insert((o, k), q);
            }
        }
        Ok(sim)
    }

    /// deals and answers start flowing
    fn start(&mut self, c: &mut Case, o: usize) -> Res {
        let p = self.spec.olds[o];
        let nn = self.n();
        let mut out: Vec<(usize, Deal)> = vec![];
        if !self.parties[p].byz {
            let party = &mut self.parties[p];
            let m = ok(nopanic("deals", || party.dkg.deals())?, "deals")?;
            if party.dkg.can_issue {
                let d = &party.dkg.dealer;
                let co = d.private_poly().coefficients();
                let mut v = vec![];
                for k in &co {
                    v.push(sbytes(k)?);
                }
                ensure!(v.len() == self.spec.t, "degree", "dealer {} uses {} coefficients, t={}", o, v.len(), self.spec.t);
                if let Some(s) = &party.share {
                    ensure!(red(&v[0]) == red(&sbytes(&s.share.v)?), "reshared-secret", "old member {} does not share its share", o);
                }
                self.polys[o] = Some(v);
                self.sids[o] = Some(d.session_id());
                let cnt = if self.spec.fresh { nn - 1 } else { nn };
                ensure!(m.len() == cnt, "deal-count", "{} deals for {} members", m.len(), nn);
            } else {
                ensure!(m.is_empty(), "deal-count", "deals without a share");
            }
            if self.spec.fresh {
                self.got.insert((o, p));
            }
            let mut ks: Vec<usize> = m.keys().copied().collect();
            ks.sort();
            for k in ks {
                out.push((k, m[&k].clone()));
            }
            self.transcript.extend(serde_json::to_vec(&out).unwrap());
        } else {
            let plan = &self.plans[o];
            let pubs = self.new_pubs();
            let t = if plan.whole == Whole::Threshold {
                loop {
                    let t = c.rng.range(2, nn.max(3));
                    if t != self.spec.t {
                        break t.min(nn);
                    }
                }
            } else {
                self.spec.t
            };
            if t == self.spec.t && plan.whole == Whole::Threshold {
                self.plans[o].whole = Whole::Normal;
            }
            let plan = &self.plans[o];
            let secret = match (&self.parties[p].share, plan.whole) {
                (Some(s), w) if w != Whole::Secret => s.share.v.clone(),
                (None, _) if !self.spec.fresh => return Ok(()),
                _ => scalar(&mut c.rng)?,
            };
            let mut vd = ok(Ped::dealer(&self.parties[p].long, &secret, &pubs, t), "byz-dealer")?;
            let co = vd.private_poly().coefficients();
            let mut v = vec![];
            for k in &co {
                v.push(sbytes(k)?);
            }
            let mut sid = vd.session_id();
            if plan.whole == Whole::Length {
                let (_, dpub) = (0, self.parties[p].pubk);
                let mut first = view::<Ped>(vd.plaintext_deal(0).map_err(|e| Fail { key: "plain".into(), msg: format!("{:?}", e) })?)?;
                let extra = kp(&denc(&imul(&red(&c.rng.arr::<32>()), &dbase())))?;
                first.commits.push(extra);
                sid = spec_sid(&dpub, &pubs, &first.commits, t)?;
                for k in 0..nn {
                    let d = ok(Ped::plain(&mut vd, k), "plain")?;
                    let mut w = view::<Ped>(d)?;
                    w.commits = first.commits.clone();
                    w.sid = sid.clone();
                    *d = deal_from::<Ped>(&w)?;
                }
            }
            for k in 0..nn {
                if self.spec.fresh && self.spec.news[k] == p {
                    continue;
                }
                let kind = plan.sends[k];
                if kind == Send::None {
                    continue;
                }
                let good = ok(Ped::plain(&mut vd, k), "plain")?.clone();
                let mut w = view::<Ped>(&good)?;
                match kind {
                    Send::BadShare => {
                        let x = from_le(&w.f) + BigUint::from(1 + c.rng.below(5) as u64);
                        w.f = le32(&modl(&x));
                    }
                    Send::BadSid => {
                        let i = c.rng.below(w.sid.len());
                        w.sid[i] ^= 1 << c.rng.below(8);
                    }
                    _ => (),
                }
                *ok(Ped::plain(&mut vd, k), "plain")? = deal_from::<Ped>(&w)?;
                let mut e = ok(Ped::enc(&vd, k), "enc")?;
                *ok(Ped::plain(&mut vd, k), "plain")? = good;
                if kind == Send::BadCipher {
                    e = edit(&e, |v| {
                        let mut b = jb(&v["cipher"]);
                        let i = c.rng.below(b.len());
                        b[i] ^= 1 << c.rng.below(8);
                        v["cipher"] = js(&b);
                    });
                }
                let mut d = Deal { index: o as u32, deal: e, signature: vec![] };
                d.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[p].long, &d.marshal_binary().unwrap()), "sign")?;
                if kind == Send::BadSig {
                    let i = c.rng.below(d.signature.len());
                    d.signature[i] ^= 1 << c.rng.below(8);
                }
                out.push((k, d));
            }
            self.polys[o] = Some(v);
            self.sids[o] = Some(sid);
            self.dealers[o] = Some(vd);
        }
        for (k, d) in out {
            let to = self.spec.news[k];
            if self.parties[to].byz || self.plans[o].sends[k] == Send::None {
                continue;
            }
            self.queue.push(Ev { to, o, body: Body::Deal(d) });
        }
        // dishonest answers about this dealer
        if let Some(sid) = self.sids[o].clone() {
            for k in 0..nn {
                let who = self.spec.news[k];
                if !self.parties[who].byz || (self.spec.fresh && who == p) {
                    continue;
                }
                let st = match self.replies[&(o, k)] {
                    Reply::Silent => continue,
                    Reply::Approve => true,
                    Reply::Complain => false,
                };
                let r = sign_response::<Ped>(&self.parties[who].long, &sid, k as u32, st)?;
                self.broadcast_resp(c, o, k, st, structs::Response { index: o as u32, response: r })?;
            }
        }
        Ok(())
    }

    fn broadcast_resp(&mut self, c: &mut Case, o: usize, k: usize, st: bool, r: structs::Response) -> Res {
        let from = self.spec.news[k];
        self.said.insert((o, k), st);
        self.seen.insert((from, o, k));
        self.transcript.extend(serde_json::to_vec(&js(&r)).unwrap());
        for to in 0..self.parties.len() {
            let idle = self.parties[to].new.is_none() && !self.parties[to].dkg.can_issue;
            if to != from && !self.parties[to].byz && !idle {
                self.queue.push(Ev { to, o, body: Body::Resp(k, st, r.clone()) });
            }
        }
        let dp = self.spec.olds[o];
        let n = self.n();
        if !st && self.parties[dp].byz {
            // the dishonest dealer's reaction
            let plan = &self.plans[o];
            let mut a = plan.answers[k];
            if a == Answer::None {
                return Ok(());
            }
            let Some(vd) = self.dealers[o].as_mut() else { return Ok(()) };
            let good = ok(Ped::plain(vd, k), "plain")?.clone();
            let mut w = view::<Ped>(&good)?;
            if a == Answer::Bad {
                match c.rng.below(3) {
                    0 => w.f = le32(&modl(&(from_le(&w.f) + BigUint::from(1u8)))),
                    1 if n > 1 => {
                        // somebody else's share
                        let z = (k + 1) % n;
                        w = view::<Ped>(ok(Ped::plain(vd, z), "plain")?)?;
                    }
                    _ => w.t += 1,
                }
            }
            if plan.whole != Whole::Normal {
                a = Answer::Bad;
            }
            let sid = self.sids[o].clone().unwrap();
            let j = make_just::<Ped>(&self.parties[dp].long, &sid, k as u32, &deal_from::<Ped>(&w)?)?;
            self.broadcast_just(o, k, a == Answer::Good, Just { index: o as u32, justification: j });
        }
        Ok(())
    }
    fn broadcast_just(&mut self, o: usize, k: usize, good: bool, j: Just) {
        let from = self.spec.olds[o];
        self.justified.insert((o, k), good);
        self.transcript.extend(serde_json::to_vec(&js(&j)).unwrap());
        for to in 0..self.parties.len() {
            if to != from && !self.parties[to].byz && self.parties[to].new.is_some() {
                self.queue.push(Ev { to, o, body: Body::Just(k, j.clone()) });
            }
        }
    }

    /// what every honest member must think of dealer `o` (absent answers allowed or not)
    pub fn dealer_certified(&self, o: usize, timeout: bool) -> bool {
        let n = self.n();
        let mut app = 0;
        let mut absent = 0;
        let mut any = false;
        for k in 0..n {
            any |= self.said.contains_key(&(o, k));
        }
        for k in 0..n {
            let own = self.spec.news[k] == self.spec.olds[o];
            match self.said.get(&(o, k)) {
                _ if own && self.spec.fresh => {
                    if any {
                        app += 1
                    } else {
                        absent += 1
                    }
                }
                None => absent += 1,
                Some(true) => app += 1,
                Some(false) => match self.justified.get(&(o, k)) {
                    Some(true) => app += 1,
                    _ => return false,
                },
            }
        }
        app >= self.spec.t && absent <= if timeout { n - self.spec.t } else { 0 }
    }

    fn ready(&self, e: &Ev) -> bool {
        match &e.body {
            Body::Just(k, _) => self.seen.contains(&(e.to, e.o, *k)),
            _ => true,
        }
    }

    fn deliver(&mut self, c: &mut Case, e: Ev, hook: &mut Option<Hook>) -> Res {
        let o = e.o;
        if let Body::Start = e.body {
            self.start(c, o)?;
        } else if let Some(h) = hook.as_mut() {
            h(c, &mut self.parties[e.to], Some(&e))?;
        }
        let p = e.to;
        match &e.body {
            Body::Start => (),
            Body::Deal(d) => {
                let k = self.parties[p].new.unwrap();
                let kind = self.plans[o].sends[k];
                let whole = self.plans[o].whole;
                let before = if matches!(kind, Send::BadCipher | Send::BadSig) { Some(self.parties[p].dkg.clone()) } else { None };
                let dk = &mut self.parties[p].dkg;
                let r = nopanic("process_deal", || dk.process_deal(d))?;
                match (kind, r) {
                    (Send::BadCipher | Send::BadSig, Err(_)) => {
                        ensure!(before.as_ref() == Some(&self.parties[p].dkg), "refused-deal-effect", "a refused deal changed the participant");
                        c.ev("deal-refused");
                    }
                    (Send::BadCipher | Send::BadSig, Ok(_)) => return fail("bad-deal-accepted", format!("{:?} deal accepted", kind)),
                    (_, Err(x)) => return fail("deal-error", format!("deal of {} to {} ({:?} {:?}): {:?}", o, k, kind, whole, x)),
                    (_, Ok(r)) => {
                        let st = r.response.status;
                        let good = kind == Send::Good && whole == Whole::Normal;
                        ensure!(st == good, "deal-judgement", "deal of {} to {} ({:?} {:?}) answered {}", o, k, kind, whole, st);
                        ensure!(r.index as usize == o && r.response.index as usize == k, "response-index", "response carries the wrong indices");
                        let sid = self.sids[o].clone().unwrap();
                        ensure!(r.response.session_id == sid, "response-session", "response of {} to {} names another session ({:?} {:?})", k, o, kind, whole);
                        ensure!(
                            schnorr::verify(MonSuite {}, &self.parties[p].pubk, &spec_resp_hash(&sid, k as u32, st), &r.response.signature).is_ok(),
                            "response-signature",
                            "response of {} to {} is not signed over its content ({:?} {:?})",
                            k,
                            o,
                            kind,
                            whole
                        );
                        // the answer given is the answer this node counts
                        let mine = self.parties[p].dkg.verifiers()[&(o as u32)].responses().get(&(k as u32)).map(|r| r.status);
                        ensure!(mine == Some(st), "own-answer", "{} answered {} about {} and counts {:?}", k, st, o, mine);
                        c.ev(if st { "deal-approved" } else { "deal-complained" });
                        self.got.insert((o, p));
                        self.broadcast_resp(c, o, k, st, r)?;
                    }
                }
            }
            Body::Resp(k, st, r) => {
                let dealer = self.spec.olds[o] == p;
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_response", || dk.process_response(r))?;
                self.seen.insert((p, o, *k));
                // a dealer caught in a resharing answers for itself in vain
                let own_vain = !self.spec.fresh && self.plans[o].whole == Whole::Secret && self.spec.news[*k] == self.spec.olds[o];
                match x {
                    Err(x) if !own_vain => return fail("response-refused", format!("answer {} of {} about {} refused by party {}: {:?}", st, k, o, p, x)),
                    Err(_) => (),
                    Ok(None) => ensure!(!dealer || *st, "no-justification", "dealer {} does not justify the complaint of {}", o, k),
                    Ok(Some(j)) => {
                        ensure!(dealer && !*st, "spurious-justification", "party {} justifies for {}", p, o);
                        ensure!(j.index as usize == o, "justification-index", "wrong dealer index");
                        c.ev("justification");
                        self.broadcast_just(o, *k, true, j);
                    }
                }
                if !dealer && !own_vain {
                    if let Some(v) = self.parties[p].dkg.verifiers().get(&(o as u32)) {
                        let kept = v.responses().get(&(*k as u32)).map(|r| r.status);
                        ensure!(kept == Some(*st), "answer-kept", "party {} counts {:?} for the answer {} of {} about {}", p, kept, st, k, o);
                    }
                }
                c.ev("response-counted");
            }
            Body::Just(k, j) => {
                let good = self.justified[&(o, *k)];
                let dk = &mut self.parties[p].dkg;
                let x = nopanic("process_justification", || dk.process_justification(j))?;
                ensure!(
                    x.is_ok() == good,
                    "justification-judgement",
                    "{} justification of {} for {} ({:?}): {:?}",
                    if good { "good" } else { "bad" },
                    o,
                    k,
                    self.plans[o].whole,
                    x.err()
                );
                c.ev(if good { "justified" } else { "bad-justification" });
            }
        }
        if let Some(h) = hook.as_mut() {
            h(c, &mut self.parties[p], None)?;
        }
        self.delivered.push(e);
        Ok(())
    }

    /// messages nobody may act on
    fn noise(&mut self, c: &mut Case) -> Res {
        if self.delivered.is_empty() {
            return Ok(());
        }
        let mut e = c.rng.choose(&self.delivered).clone();
        let p = e.to;
        if self.parties[p].byz || matches!(e.body, Body::Start) || self.parties[p].new.is_none() {
            return Ok(());
        }
        let any = c.rng.below(self.parties.len());
        let r = &mut c.rng;
        let mut name = "replay";
        match &mut e.body {
            Body::Start => (),
            Body::Deal(d) => match r.below(6) {
                0 => (),
                1 => {
                    name = "deal-signature";
                    let i = r.below(d.signature.len());
                    d.signature[i] ^= 1 << r.below(8);
                }
                2 => {
                    name = "deal-other-dealer";
                    d.index = d.index.wrapping_add(1 + r.below(self.spec.olds.len().max(2) - 1) as u32);
                }
                3 => {
                    name = "deal-out-of-range";
                    d.index = *r.choose(&[self.spec.olds.len() as u32, u32::MAX, 1 << 31]);
                }
                4 => {
                    // relayed under another dealer's name and signature
                    name = "deal-stolen";
                    let who = self.parties[any].old;
                    let Some(o2) = who else { return Ok(()) };
                    if o2 as u32 == d.index {
                        return Ok(());
                    }
                    d.index = o2 as u32;
                    d.signature = vec![];
                    let m = d.marshal_binary().unwrap();
                    d.signature = ok(schnorr::sign(&MonSuite {}, &self.parties[any].long, &m), "sign")?;
                }
                _ => {
                    // sent to somebody else
                    name = "deal-misdelivered";
                    d.signature.truncate(r.below(64));
                }
            },
            Body::Resp(k, st, x) => match r.below(8) {
                0 => (),
                1 => {
                    name = "response-signature";
                    let i = r.below(x.response.signature.len());
                    x.response.signature[i] ^= 1 << r.below(8);
                }
                2 => {
                    name = "response-flipped";
                    x.response.status = !*st;
                }
                3 => {
                    name = "response-unknown-dealer";
                    x.index = *r.choose(&[self.spec.olds.len() as u32, u32::MAX]);
                }
                4 => {
                    name = "response-out-of-range";
                    x.response.index = *r.choose(&[self.spec.news.len() as u32, u32::MAX, 1 << 31]);
                }
                5 => {
                    // genuine signature, changed mind
                    name = "response-second";
                    let who = self.spec.news[*k];
                    let s2 = !*st;
                    x.response = sign_response::<Ped>(&self.parties[who].long, &x.response.session_id, *k as u32, s2)?;
                }
                6 => {
                    // signed by somebody else
                    name = "response-impersonated";
                    let k2 = (*k + 1) % self.spec.news.len();
                    x.response = sign_response::<Ped>(&self.parties[self.spec.news[*k]].long, &x.response.session_id, k2 as u32, r.bool())?;
                }
                _ => {
                    name = "response-other-session";
                    if !self.got.contains(&(e.o, p)) {
                        return Ok(());
                    }
                    let k2 = r.below(self.spec.news.len());
                    let mut sid = x.response.session_id.clone();
                    let i = r.below(sid.len());
                    sid[i] ^= 1;
                    x.response = sign_response::<Ped>(&self.parties[self.spec.news[k2]].long, &sid, k2 as u32, r.bool())?;
                }
            },
            Body::Just(_, j) => {
                // a refused justification condemns its dealer: only replay it
                if !self.justified[&(e.o, unjs::<u32>(js(j)["justification"]["index"].clone()) as usize)] {
                    return Ok(());
                }
                if r.bool() {
                    name = "justification-unknown-dealer";
                    j.index = *r.choose(&[self.spec.olds.len() as u32, u32::MAX]);
                }
            }
        }
        let before = self.parties[p].dkg.clone();
        let dk = &mut self.parties[p].dkg;
        let okd = match &e.body {
            Body::Start => false,
            Body::Deal(d) => nopanic("process_deal", || dk.process_deal(d))?.is_ok(),
            Body::Resp(_, _, x) => nopanic("process_response", || dk.process_response(x))?.is_ok(),
            Body::Just(_, j) => nopanic("process_justification", || dk.process_justification(j))?.is_ok(),
        };
        ensure!(!okd, &format!("noise:{}", name), "{} accepted by party {}", name, p);
        ensure!(before == self.parties[p].dkg, &format!("noise-effect:{}", name), "a refused {} changed party {}", name, p);
        c.ev(&format!("noise-refused:{}", name));
        Ok(())
    }

    /// is the participant done before the timeout?
    fn early(&mut self, c: &mut Case, p: usize) -> Res {
        let dk = &self.parties[p].dkg;
        if self.parties[p].new.is_none() || !nopanic("certified", || dk.certified())? {
            return Ok(());
        }
        c.ev("early-certified");
        if let Ok(s) = nopanic("dist_key_share", || dk.dist_key_share())? {
            if let Some(x) = &self.early[p] {
                ensure!(*x == s, "early-output-changed", "party {} changed its output", p);
            }
            self.early[p] = Some(s);
            c.ev("early-output");
        }
        Ok(())
    }

    pub fn run(&mut self, c: &mut Case, mut hook: Option<Hook>) -> Res {
        let s = &self.spec;
        c.log(format!(
            "{} n={} t={} parties={} byz={:?} lossy={} old={:?}",
            if s.fresh { "dkg" } else { "reshare" },
            s.news.len(),
            s.t,
            s.longs.len(),
            s.byz,
            s.lossy,
            s.old.as_ref().map(|o| (o.t, o.shares.len()))
        ));
        for (o, p) in self.plans.iter().enumerate() {
            if self.parties[self.spec.olds[o]].byz {
                c.log(format!("dealer {} {:?} {:?} {:?}", o, p.whole, p.sends, p.answers));
            }
        }
        for o in 0..self.spec.olds.len() {
            let p = self.spec.olds[o];
            self.queue.push(Ev { to: p, o, body: Body::Start });
        }
        // bursty, skewed or uniform scheduling
        let mood = c.rng.below(3);
        while !self.queue.is_empty() {
            let mut i = match mood {
                0 => c.rng.below(self.queue.len()),
                1 => self.queue.len() - 1 - c.rng.below(self.queue.len().min(3)),
                _ => c.rng.below(self.queue.len().min(4)),
            };
            let mut tries = 0;
            while !self.ready(&self.queue[i]) {
                i = c.rng.below(self.queue.len());
                tries += 1;
                ensure!(tries < 100000, "stuck", "harness: no deliverable message");
            }
            let e = self.queue.swap_remove(i);
            let p = e.to;
            if !matches!(e.body, Body::Start) && self.parties[p].byz {
                continue;
            }
            self.deliver(c, e, &mut hook)?;
            if self.spec.noise && c.rng.chance(1, 5) {
                self.noise(c)?;
            }
            if c.rng.chance(1, 4) && !self.parties[p].byz {
                self.early(c, p)?;
                self.told(c, p)?;
            }
        }
        for p in 0..self.parties.len() {
            if !self.parties[p].byz {
                self.early(c, p)?;
            }
        }
        self.judge(c, &mut hook)
    }

    /// what a participant tells about its progress, against the answers it recorded
    fn told(&self, c: &mut Case, p: usize) -> Res {
        let dk = &self.parties[p].dkg;
        let n = self.n();
        let mut out = vec![false; n];
        for v in dk.verifiers().values() {
            let r = v.responses();
            if r.is_empty() || r.values().any(|r| !r.status) {
                continue;
            }
            for (k, o) in out.iter_mut().enumerate() {
                *o |= !r.contains_key(&(k as u32));
            }
        }
        let q = nopanic("qualified_shares", || dk.qualified_shares())?;
        let want: Vec<usize> = (0..n).filter(|k| !out[*k]).collect();
        ensure!(q == want, "qualified-shares", "party {}: share holders {:?} reported, {:?} answered every deal left", p, q, want);
        c.ev(if q.len() == n { "all-holders" } else { "some-holders" });
        let new = self.parties[p].new.is_some();
        let others = self.spec.olds.iter().filter(|o| **o != p).count();
        let e = nopanic("expected_deals", || dk.expected_deals())?;
        ensure!(e == if new { others } else { 0 }, "expected-deals", "party {} expects {} deals of {} others", p, e, others);
        Ok(())
    }

    fn judge(&mut self, c: &mut Case, hook: &mut Option<Hook>) -> Res {
        for p in 0..self.parties.len() {
            if !self.parties[p].byz {
                self.told(c, p)?;
            }
        }
        let no = self.spec.olds.len();
        // everyone happy before the timeout?
        let all_early = (0..no).all(|o| self.dealer_certified(o, false));
        for p in self.honest_new() {
            let dk = &self.parties[p].dkg;
            ensure!(dk.certified() == all_early, "certified", "party {} reports certified={} expected {}", p, dk.certified(), all_early);
        }
        if self.spec.byz.is_empty() && !self.spec.lossy && self.spec.old.as_ref().map_or(true, |o| o.shares.iter().all(|s| s.is_some())) {
            ensure!(all_early, "harness", "reference: fault-free run not certified");
            for p in 0..self.parties.len() {
                ensure!(self.parties[p].dkg.certified(), "fault-free", "party {} not certified in a fault-free run", p);
                if self.parties[p].new.is_some() {
                    ensure!(self.early[p].is_some(), "fault-free", "party {} has no output in a fault-free run", p);
                    let q = self.parties[p].dkg.qualified_shares();
                    ensure!(q == (0..self.n()).collect::<Vec<_>>(), "qualified-shares", "fault-free: {:?}", q);
                }
                c.ev("fault-free-participant");
            }
        }
        for p in 0..self.parties.len() {
            if !self.parties[p].byz {
                self.parties[p].dkg.set_timeout();
                if let Some(h) = hook.as_mut() {
                    h(c, &mut self.parties[p], None)?;
                }
            }
        }
        let qual: Vec<usize> = (0..no).filter(|o| self.dealer_certified(*o, true)).collect();
        let need = if self.spec.fresh { self.spec.t } else { self.spec.old.as_ref().unwrap().t };
        let mut first: Option<(usize, Share)> = None;
        for p in self.honest_new() {
            let dk = &self.parties[p].dkg;
            let mut q = nopanic("qual", || dk.qual())?;
            q.sort();
            ensure!(q == qual, "qual", "party {}: qualified dealers {:?}, expected {:?}", p, q, qual);
            for o in 0..no {
                ensure!(dk.is_in_qual(o as u32) == qual.contains(&o), "is-in-qual", "is_in_qual({}) differs", o);
            }
            ensure!(dk.threshold_certified() == (qual.len() >= need), "threshold-certified", "{} qualified, {} needed", qual.len(), need);
            let can = qual.len() >= need && qual.iter().all(|o| self.got.contains(&(*o, p)));
            let r = nopanic("dist_key_share", || dk.dist_key_share())?;
            match r {
                Err(e) => {
                    ensure!(!can, "no-output", "party {} cannot finish: {:?} (qual {:?})", p, e, qual);
                    c.ev("unfinished");
                    if let Some(_) = self.early[p] {
                        return fail("early-output-lost", "output before the timeout, none after it");
                    }
                }
                Ok(s) => {
                    ensure!(can, "output-without-deals", "party {} outputs although it cannot know its share (qual {:?})", p, qual);
                    c.ev("finished");
                    if let Some(x) = &self.early[p] {
                        ensure!(*x == s, "early-output-differs", "party {} output changed at the timeout", p);
                    }
                    self.check_share(p, &s, &qual)?;
                    if let Some((q, f)) = &first {
                        ensure!(f.commits == s.commits, "agreement", "parties {} and {} hold different commitments", q, p);
                        ensure!(f.public() == s.public(), "agreement", "parties {} and {} hold different keys", q, p);
                        c.ev("agreement-compared");
                    } else {
                        first = Some((p, s.clone()));
                    }
                    self.outputs[p] = Some(s);
                }
            }
        }
        for p in 0..self.parties.len() {
            if !self.parties[p].byz && self.parties[p].new.is_none() {
                let dk = &self.parties[p].dkg;
                ensure!(nopanic("dist_key_share", || dk.dist_key_share())?.is_err(), "leaver-output", "a leaving member outputs a share");
            }
        }
        self.reconstruct(c, &qual)
    }

    fn check_share(&self, p: usize, s: &Share, qual: &[usize]) -> Res {
        let k = self.parties[p].new.unwrap();
        ensure!(s.share.i == k, "share-index", "share index {} of member {}", s.share.i, k);
        ensure!(s.commits.len() == self.spec.t, "commit-count", "{} commitments, t={}", s.commits.len(), self.spec.t);
        let v = red(&sbytes(&s.share.v)?);
        let mut cs = vec![];
        for x in &s.commits {
            cs.push(dalek_of(x)?);
        }
        ensure!(imul(&v, &dbase()) == commit_at(&cs, k), "share-mismatch", "share of {} does not match the commitments", k);
        let own: Vec<[u8; 32]> = s.private_poly.iter().map(|x| Ok(red(&sbytes(x)?))).collect::<Res<_>>()?;
        if self.spec.fresh {
            // the polynomial this node dealt
            let o = self.spec.olds.iter().position(|o| *o == p).unwrap();
            let dealt: Vec<[u8; 32]> = self.polys[o].as_ref().unwrap().iter().map(|x| red(x)).collect();
            ensure!(own == dealt, "private-poly", "the polynomial of the share of {} is not the one it dealt", k);
            let mut co = vec![BigUint::from(0u8); self.spec.t];
            for o in qual {
                for (a, b) in co.iter_mut().zip(self.polys[*o].as_ref().unwrap()) {
                    *a = modl(&(&*a + from_le(b)));
                }
            }
            for (a, b) in co.iter().zip(&cs) {
                ensure!(imul(&le32(a), &dbase()) == *b, "not-the-sum", "commitments are not the sum of the qualified dealers' ({:?})", qual);
            }
        } else {
            let o = self.spec.old.as_ref().unwrap();
            ensure!(s.public() == o.commits[0], "key-changed", "resharing changed the public key (qual {:?})", qual);
            ensure!(imul(&o.secret, &dbase()) == cs[0], "key-changed", "resharing changed the public key");
        }
        Ok(())
    }

    fn reconstruct(&mut self, c: &mut Case, qual: &[usize]) -> Res {
        let mut sh = vec![];
        for s in self.outputs.iter().flatten() {
            sh.push((s.share.i, red(&sbytes(&s.share.v)?)));
        }
        let secret = if self.spec.fresh {
            let mut x = BigUint::from(0u8);
            for o in qual {
                x = modl(&(x + from_le(&self.polys[*o].as_ref().unwrap()[0])));
            }
            le32(&x)
        } else {
            red(&self.spec.old.as_ref().unwrap().secret)
        };
        let t = self.spec.t;
        if sh.len() < t {
            return Ok(());
        }
        for _ in 0..2 {
            let m = c.rng.range(t, sh.len());
            let mut pick = c.rng.subset(sh.len(), m);
            c.rng.shuffle(&mut pick);
            let pts: Vec<_> = pick.iter().map(|i| sh[*i]).collect();
            ensure!(lagrange0(&pts) == secret, "reconstruct", "shares {:?} give another key", pick);
            let mut l: Vec<Option<PriShare<Scalar>>> = vec![];
            for (i, v) in &pts {
                l.push(Some(PriShare { i: *i, v: ks(v)? }));
            }
            let r = ok(nopanic("recover_secret", || kyber_rs::share::poly::recover_secret(MonSuite {}, &l, t, self.n()))?, "recover")?;
            ensure!(red(&sbytes(&r)?) == secret, "reconstruct", "recover_secret gives another key");
            c.ev("key-reconstructed");
        }
        if let Some(o) = &self.spec.old {
            // mixing generations below the thresholds gives nothing
            let few = c.rng.subset(sh.len(), t - 1);
            let mut pts: Vec<_> = few.iter().map(|i| sh[*i]).collect();
            let used: Vec<usize> = pts.iter().map(|x| x.0).collect();
            for (i, v) in o.shares.iter().enumerate() {
                if let (Some(v), false) = (v, used.contains(&i)) {
                    if pts.iter().filter(|x| !used.contains(&x.0)).count() + 1 < o.t {
                        pts.push((i, red(v)));
                    }
                }
            }
            if pts.len() > used.len() || pts.len() < t {
                if !pts.is_empty() {
                    ensure!(lagrange0(&pts) != secret, "mixed-generations", "old and new shares below the thresholds give the key");
                    c.ev("mixed-generations-useless");
                }
            }
        }
        Ok(())
    }
}
