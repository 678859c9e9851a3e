//! One face for the two verifiable secret sharing schemes, plus what the
//! harness needs to play dishonest parties: messages are edited through their
//! serialised form.
use crate::core::*;
use crate::oracle::*;
use crate::suite::MonSuite;
use kyber_rs::group::edwards25519::{Point, Scalar};
use kyber_rs::share::vss::{pedersen, rabin};
use kyber_rs::XOFFactory;
use kyber_rs::{Group, Point as _};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use sha2::{Digest, Sha256};

pub fn js<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("serialise")
}
pub fn unjs<T: DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v).expect("deserialise")
}
pub fn edit<T: Serialize + DeserializeOwned>(t: &T, f: impl FnOnce(&mut Value)) -> T {
    let mut v = js(t);
    f(&mut v);
    unjs(v)
}
pub fn jb(v: &Value) -> Vec<u8> {
    unjs(v.clone())
}

pub trait Vss: 'static {
    const NAME: &'static str;
    const RABIN: bool;
    type D: Clone + PartialEq + Serialize + DeserializeOwned + core::fmt::Debug + core::fmt::Display;
    type V: Clone + PartialEq + Serialize + DeserializeOwned + core::fmt::Debug + core::fmt::Display;
    type Dl: Clone + PartialEq + Serialize + DeserializeOwned + core::fmt::Debug + core::fmt::Display;
    type E: Clone + PartialEq + Serialize + DeserializeOwned + core::fmt::Debug;
    type R: Clone + PartialEq + Serialize + DeserializeOwned + core::fmt::Debug;
    type J: Clone + PartialEq + Serialize + DeserializeOwned + core::fmt::Debug;
    fn dealer(long: &Scalar, sec: &Scalar, pubs: &[Point], t: usize) -> Result<Self::D, String>;
    fn verifier(long: &Scalar, dealer: &Point, pubs: &[Point]) -> Result<Self::V, String>;
    fn plain(d: &mut Self::D, i: usize) -> Result<&mut Self::Dl, String>;
    fn enc(d: &Self::D, i: usize) -> Result<Self::E, String>;
    fn enc_all(d: &Self::D) -> Result<Vec<Self::E>, String>;
    fn open(v: &Self::V, e: &Self::E) -> Result<Self::Dl, String>;
    fn take(v: &mut Self::V, e: &Self::E) -> Result<Self::R, String>;
    fn d_resp(d: &mut Self::D, r: &Self::R) -> Result<Option<Self::J>, String>;
    fn v_resp(v: &mut Self::V, r: &Self::R) -> Result<(), String>;
    fn v_just(v: &mut Self::V, j: &Self::J) -> Result<(), String>;
    fn d_timeout(d: &mut Self::D);
    fn v_timeout(v: &mut Self::V);
    fn d_cert(d: &Self::D) -> bool;
    fn v_cert(v: &Self::V) -> bool;
    fn v_deal(v: &Self::V) -> Option<Self::Dl>;
    fn v_index(v: &Self::V) -> usize;
    fn v_sid(v: &Self::V) -> Vec<u8>;
    fn d_sid(d: &Self::D) -> Vec<u8>;
    fn d_commit(d: &Self::D) -> Option<Point>;
    /// the commitments the dealer shows
    fn d_commits(d: &Self::D) -> Option<Vec<Point>>;
    fn recover(deals: Vec<Self::Dl>, n: usize, t: usize) -> Result<Scalar, String>;
    fn status(r: &Self::R) -> bool;
    fn r_hash(r: &Self::R) -> Vec<u8>;
    fn min_t(n: usize) -> usize;
    const STATUS_FIELD: &'static str;
}
fn e<T, E: core::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{:?}", x))
}

pub struct Ped;
pub struct Rab;
macro_rules! common {
    ($m:ident) => {
        type D = $m::vss::Dealer<MonSuite>;
        type V = $m::vss::Verifier<MonSuite>;
        type Dl = $m::vss::Deal<MonSuite>;
        type E = $m::vss::EncryptedDeal<Point>;
        type R = $m::vss::Response;
        type J = $m::vss::Justification<MonSuite>;
        fn dealer(long: &Scalar, sec: &Scalar, pubs: &[Point], t: usize) -> Result<Self::D, String> {
            e($m::vss::new_dealer(MonSuite {}, long.clone(), sec.clone(), pubs, t))
        }
        fn plain(d: &mut Self::D, i: usize) -> Result<&mut Self::Dl, String> {
            e(d.plaintext_deal(i))
        }
        fn enc(d: &Self::D, i: usize) -> Result<Self::E, String> {
            e(d.encrypted_deal(i))
        }
        fn enc_all(d: &Self::D) -> Result<Vec<Self::E>, String> {
            e(d.encrypted_deals())
        }
        fn open(v: &Self::V, x: &Self::E) -> Result<Self::Dl, String> {
            e(v.decrypt_deal(x))
        }
        fn take(v: &mut Self::V, x: &Self::E) -> Result<Self::R, String> {
            e(v.process_encrypted_deal(x))
        }
        fn d_resp(d: &mut Self::D, r: &Self::R) -> Result<Option<Self::J>, String> {
            e(d.process_response(r))
        }
        fn v_resp(v: &mut Self::V, r: &Self::R) -> Result<(), String> {
            e(v.process_response(r))
        }
        fn v_just(v: &mut Self::V, j: &Self::J) -> Result<(), String> {
            e(v.process_justification(j))
        }
        fn d_timeout(d: &mut Self::D) {
            d.set_timeout()
        }
        fn v_timeout(v: &mut Self::V) {
            v.set_timeout()
        }
        fn d_cert(d: &Self::D) -> bool {
            d.deal_certified()
        }
        fn v_cert(v: &Self::V) -> bool {
            v.deal_certified()
        }
        fn v_deal(v: &Self::V) -> Option<Self::Dl> {
            v.deal()
        }
        fn v_index(v: &Self::V) -> usize {
            v.index()
        }
        fn v_sid(v: &Self::V) -> Vec<u8> {
            v.session_id()
        }
        fn d_sid(d: &Self::D) -> Vec<u8> {
            d.session_id()
        }
        fn d_commit(d: &Self::D) -> Option<Point> {
            d.secret_commit()
        }
        fn recover(deals: Vec<Self::Dl>, n: usize, t: usize) -> Result<Scalar, String> {
            e($m::vss::recover_secret(MonSuite {}, deals, n, t))
        }
        fn r_hash(r: &Self::R) -> Vec<u8> {
            r.hash(&MonSuite {}).expect("hash")
        }
        fn min_t(n: usize) -> usize {
            $m::vss::minimum_t(n)
        }
    };
}
impl Vss for Ped {
    const NAME: &'static str = "pedersen";
    const RABIN: bool = false;
    const STATUS_FIELD: &'static str = "status";
    common!(pedersen);
    fn d_commits(d: &Self::D) -> Option<Vec<Point>> {
        Some(d.commits())
    }
    fn verifier(long: &Scalar, dealer: &Point, pubs: &[Point]) -> Result<Self::V, String> {
        e(pedersen::vss::new_verifier(MonSuite {}, long, dealer, pubs))
    }
    fn status(r: &Self::R) -> bool {
        r.status
    }
}
impl Vss for Rab {
    const NAME: &'static str = "rabin";
    const RABIN: bool = true;
    const STATUS_FIELD: &'static str = "approved";
    common!(rabin);
    fn d_commits(d: &Self::D) -> Option<Vec<Point>> {
        d.commits()
    }
    fn verifier(long: &Scalar, dealer: &Point, pubs: &[Point]) -> Result<Self::V, String> {
        e(rabin::vss::new_verifier(&MonSuite {}, long, dealer, pubs))
    }
    fn status(r: &Self::R) -> bool {
        r.approved
    }
}

// ------------------------------------------------------------ specification

/// H(dealer, verifiers, commitments, threshold)
pub fn spec_sid(dealer: &Point, pubs: &[Point], commits: &[Point], t: usize) -> Res<Vec<u8>> {
    let mut h = Sha256::new();
    h.update(pbytes(dealer)?);
    for p in pubs.iter().chain(commits) {
        h.update(pbytes(p)?);
    }
    h.update((t as u32).to_le_bytes());
    Ok(h.finalize().to_vec())
}
/// what a verifier signs in its answer
pub fn spec_resp_hash(sid: &[u8], index: u32, status: bool) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"response");
    h.update(sid);
    h.update(index.to_le_bytes());
    h.update((status as u32).to_le_bytes());
    h.finalize().to_vec()
}
/// second base point of the Rabin scheme
pub fn spec_h(pubs: &[Point]) -> Res<Point> {
    let mut b = vec![];
    for p in pubs {
        b.extend(pbytes(p)?);
    }
    let s = MonSuite {};
    Ok(s.point().pick(&mut s.xof(Some(&b))))
}

#[derive(Clone)]
pub struct DealView {
    pub sid: Vec<u8>,
    pub i: usize,
    pub f: [u8; 32],
    pub gi: usize,
    pub g: [u8; 32],
    pub t: usize,
    pub commits: Vec<Point>,
}
pub fn view<S: Vss>(d: &S::Dl) -> Res<DealView> {
    let v = js(d);
    let f: Scalar = unjs(v["sec_share"]["v"].clone());
    let g: Scalar = if S::RABIN { unjs(v["rnd_share"]["v"].clone()) } else { Default::default() };
    Ok(DealView {
        sid: jb(&v["session_id"]),
        i: unjs(v["sec_share"]["i"].clone()),
        f: sbytes(&f)?,
        gi: if S::RABIN { unjs(v["rnd_share"]["i"].clone()) } else { 0 },
        g: sbytes(&g)?,
        t: unjs(v["t"].clone()),
        commits: unjs(v["commitments"].clone()),
    })
}
pub fn deal_from<S: Vss>(w: &DealView) -> Res<S::Dl> {
    let mut v = serde_json::json!({
        "session_id": w.sid,
        "sec_share": {"i": w.i, "v": js(&ks(&w.f)?)},
        "t": w.t,
        "commitments": js(&w.commits),
    });
    if S::RABIN {
        v["rnd_share"] = serde_json::json!({"i": w.gi, "v": js(&ks(&w.g)?)});
    }
    Ok(unjs(v))
}
/// the reference judgement of a deal addressed to `index`
pub fn spec_deal_ok<S: Vss>(w: &DealView, index: usize, dealer: &Point, pubs: &[Point], preset_t: Option<usize>) -> Res<bool> {
    if w.i != index || (S::RABIN && w.gi != index) {
        return Ok(false);
    }
    if w.t < 2 || w.t > pubs.len() || preset_t.map_or(false, |t| t != w.t) || w.commits.len() != w.t {
        return Ok(false);
    }
    if spec_sid(dealer, pubs, &w.commits, w.t)? != w.sid {
        return Ok(false);
    }
    let mut left = imul(&w.f, &dbase());
    if S::RABIN {
        left += imul(&w.g, &dalek_of(&spec_h(pubs)?)?);
    }
    let x = le32(&(num_bigint_dig::BigUint::from(index as u64 + 1)));
    let mut acc = curve25519_dalek::edwards::EdwardsPoint::default();
    for c in w.commits.iter().rev() {
        acc = imul(&x, &acc) + dalek_of(c)?;
    }
    Ok(left == acc)
}

/// the session the parties are in
pub struct Group0 {
    pub n: usize,
    pub t: usize,
    pub longs: Vec<Scalar>,
    pub pubs: Vec<Point>,
    pub dlong: Scalar,
    pub dpub: Point,
    pub secret: Scalar,
}
pub fn scalar(r: &mut Rng) -> Res<Scalar> {
    loop {
        let b = if r.chance(1, 12) { nasty_canon(r) } else { red(&r.arr::<32>()) };
        if b != [0u8; 32] {
            return ks(&b);
        }
    }
}
/// distinct long-term keys
pub fn keys(r: &mut Rng, n: usize) -> Res<(Vec<Scalar>, Vec<Point>)> {
    let mut l = vec![];
    let mut p: Vec<Point> = vec![];
    while l.len() < n {
        let s = scalar(r)?;
        let q = kp(&denc(&imul(&sbytes(&s)?, &dbase())))?;
        if p.contains(&q) {
            continue;
        }
        l.push(s);
        p.push(q);
    }
    Ok((l, p))
}
pub fn setup(r: &mut Rng, max: usize) -> Res<Group0> {
    let n = r.range(2, max);
    let t = if r.chance(1, 3) { ((n + 1) / 2).max(2) } else { r.range(2, n) };
    setup_nt(r, n, t)
}
pub fn setup_nt(r: &mut Rng, n: usize, t: usize) -> Res<Group0> {
    let (mut longs, mut pubs) = keys(r, n + 1)?;
    let dlong = longs.pop().unwrap();
    let dpub = pubs.pop().unwrap();
    let (dlong, dpub) = if r.chance(1, 3) {
        // the dealer is one of the verifiers
        let i = r.below(n);
        (longs[i].clone(), pubs[i])
    } else {
        (dlong, dpub)
    };
    let secret = ks(&if r.chance(1, 4) { nasty_canon(r) } else { red(&r.arr::<32>()) })?;
    Ok(Group0 { n, t, longs, pubs, dlong, dpub, secret })
}
impl Group0 {
    pub fn dealer<S: Vss>(&self) -> Res<S::D> {
        ok(nopanic("new_dealer", || S::dealer(&self.dlong, &self.secret, &self.pubs, self.t))?, "new-dealer")
    }
    pub fn verifier<S: Vss>(&self, i: usize) -> Res<S::V> {
        ok(nopanic("new_verifier", || S::verifier(&self.longs[i], &self.dpub, &self.pubs))?, "new-verifier")
    }
    pub fn verifiers<S: Vss>(&self) -> Res<Vec<S::V>> {
        (0..self.n).map(|i| self.verifier::<S>(i)).collect()
    }
}
/// a response genuinely signed by `long`, whatever it says
pub fn sign_response<S: Vss>(long: &Scalar, sid: &[u8], index: u32, status: bool) -> Res<S::R> {
    let m = spec_resp_hash(sid, index, status);
    let sig = ok(kyber_rs::sign::schnorr::sign(&MonSuite {}, long, &m), "schnorr-sign")?;
    Ok(unjs(serde_json::json!({"session_id": sid, "index": index, S::STATUS_FIELD: status, "signature": sig})))
}
/// what a dealer signs in its justification
pub fn spec_just_hash<S: Vss>(sid: &[u8], index: u32, deal: &S::Dl) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b"justification");
    h.update(sid);
    h.update(index.to_le_bytes());
    h.update(bincode::serialize(deal).expect("bincode"));
    h.finalize().to_vec()
}
pub fn make_just<S: Vss>(long: &Scalar, sid: &[u8], index: u32, deal: &S::Dl) -> Res<S::J> {
    let m = spec_just_hash::<S>(sid, index, deal);
    let sig = ok(kyber_rs::sign::schnorr::sign(&MonSuite {}, long, &m), "schnorr-sign")?;
    Ok(unjs(serde_json::json!({"session_id": sid, "index": index, "deal": js(deal), "signature": sig})))
}
