//! C24 hostile input.
use crate::c_dss::{by_hand, dss_of, Own, Ps};
use crate::c_sig::message;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::{self, fresh_spec, make_old, reshare_spec, Sim};
use crate::sim_rab;
use crate::suite::MonSuite;
use crate::vss::*;
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::{self, BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Curve, Point, Scalar};
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::share::dkg::pedersen::structs as pst;
use kyber_rs::share::dkg::rabin as rdkg;
use kyber_rs::share::poly::{self, PriShare, PubPoly, PubShare};
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::sign::{eddsa, schnorr};
use kyber_rs::{Group, Point as _};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

fn num(r: &mut Rng, old: Option<i64>) -> Value {
    let o = old.unwrap_or(0);
    let v: i128 = match r.below(14) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => 255,
        4 => 256,
        5 => u32::MAX as i128,
        6 => i32::MAX as i128,
        7 => i32::MIN as i128,
        8 => u64::MAX as i128,
        9 => i64::MAX as i128,
        10 => o as i128 + 1,
        11 => o as i128 - 1,
        12 => o as i128 ^ (1 << r.below(31)),
        _ => r.below(300) as i128,
    };
    if v < 0 {
        Value::from(v as i64)
    } else {
        Value::from(v as u64)
    }
}
fn node(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() {
                return;
            }
            let k = r.choose(&keys).clone();
            // all limbs of a field element at once, now and then
            node(r, m.get_mut(&k).unwrap())
        }
        Value::Array(a) => {
            if a.is_empty() {
                match r.below(4) {
                    0 => a.push(Value::from(0u8)),
                    1 => {
                        let n = *r.choose(&[12, 16, 31, 32, 33, 64, 1000]);
                        a.extend((0..n).map(|_| Value::from(r.below(256) as u64)))
                    }
                    _ => (),
                }
                return;
            }
            let flat = a.iter().all(|x| x.is_number());
            match r.below(if flat { 12 } else { 20 }) {
                0 => {
                    a.clear();
                }
                1 => {
                    let n = r.below(a.len());
                    a.truncate(n);
                }
                2 => {
                    let x = r.choose(a).clone();
                    a.push(x);
                }
                3 => {
                    let i = r.below(a.len());
                    a.remove(i);
                }
                4 => {
                    let i = r.below(a.len());
                    let j = r.below(a.len());
                    a.swap(i, j);
                }
                5 => {
                    let x = num(r, None);
                    for y in a.iter_mut() {
                        if y.is_number() {
                            *y = x.clone();
                        }
                    }
                }
                6 => {
                    let n = r.below(200);
                    let x = r.choose(a).clone();
                    for _ in 0..n {
                        a.push(x.clone());
                    }
                }
                7 if flat => {
                    for y in a.iter_mut() {
                        *y = Value::from(r.below(256) as u64);
                    }
                }
                8 if flat => {
                    for y in a.iter_mut() {
                        *y = Value::from(*r.choose(&[i32::MAX as i64, i32::MIN as i64, 1 << 26, -(1 << 26), 0, 1 << 30]));
                    }
                }
                _ => {
                    let i = r.below(a.len());
                    node(r, &mut a[i])
                }
            }
        }
        Value::Number(x) => {
            let o = x.as_i64();
            *v = num(r, o)
        }
        Value::Bool(b) => *b = !*b,
        Value::Null => *v = num(r, None),
        Value::String(s) => {
            if r.bool() {
                s.clear()
            } else {
                s.push('x')
            }
        }
    }
}
/// a structurally altered copy, if it still decodes
pub fn hostile<T: Serialize + DeserializeOwned>(c: &mut Case, t: &T) -> Res<Option<T>> {
    let r = &mut c.rng;
    let out = if r.chance(3, 4) {
        let mut v = js(t);
        for _ in 0..r.range(1, 3) {
            node(r, &mut v);
        }
        nopanic("decode-json", || serde_json::from_value::<T>(v).ok())?
    } else {
        let mut b = nopanic("encode", || encoding::marshal_binary(t))?.expect("encode");
        for _ in 0..r.range(1, 3) {
            match r.below(6) {
                0 => {
                    let n = r.below(b.len() + 1);
                    b.truncate(n)
                }
                1 => {
                    let n = r.below(40);
                    let x = r.bytes(n);
                    b.extend(x)
                }
                2 if b.len() >= 8 => {
                    // length prefixes and integers
                    let i = r.below(b.len() - 7);
                    let x = *r.choose(&[0u64, 1, u64::MAX, 1 << 62, 1 << 32, i32::MAX as u64]);
                    b[i..i + 8].copy_from_slice(&x.to_le_bytes());
                }
                _ if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] ^= 1 << r.below(8);
                }
                _ => (),
            }
        }
        nopanic("decode-binary", || bincode::deserialize::<T>(&b).ok())?
    };
    c.ev(if out.is_some() { "altered" } else { "decoding-refused" });
    Ok(out)
}

// ----------------------------------------------------------------- decoders

fn junk(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => *r.choose(&[31, 32, 33, 63, 64, 65]),
        2 => 32,
        3 => 64,
        _ => r.below(200),
    };
    match r.below(4) {
        0 => vec![*r.choose(&[0u8, 0xff, 0x80, 0x7f, 1]); n],
        1 if n >= 32 => {
            let mut v = r.bytes(n);
            v[..32].copy_from_slice(&nasty32(r));
            v
        }
        2 if n >= 64 => {
            let mut v = r.bytes(n);
            v[..32].copy_from_slice(&denc(&nasty_point(r).0));
            v[32..64].copy_from_slice(&nasty32(r));
            v
        }
        _ => r.bytes(n),
    }
}
fn bytes(c: &mut Case) -> Res {
    let b = junk(&mut c.rng);
    let m = junk(&mut c.rng);
    c.state(&b);
    let bb = &b[..];
    // points and scalars, and what one can do with them
    let mut p = Point::default().base();
    if nopanic("point-decode", || p.unmarshal_binary(bb))?.is_err() {
        c.ev("refused");
    } else {
        nopanic("point-use", || {
            let _ = (p.data(), p.has_small_order(), p.embed_len(), format!("{} {:x} {:X}", p, p, p));
            let q = Point::default().mul(&Scalar { v: [0x7f; 32] }, Some(&p));
            let _ = Point::default().add(&q, &p) == p;
        })?;
        c.ev("point-used");
    }
    let mut q = Point::default();
    let _ = nopanic("point-read", || q.unmarshal_from(&mut &bb[..]))?;
    let _ = nopanic("point-canonical", || q.is_canonical(bb))?;
    let mut s = Scalar::default();
    if nopanic("scalar-decode", || s.unmarshal_binary(bb))?.is_ok() {
        nopanic("scalar-use", || {
            use kyber_rs::Scalar as _;
            let t = s.clone() * s.clone() + s.clone();
            let _ = (t.marshal_binary(), format!("{} {:x} {:X} {:?}", s, s, s, s));
            let z = Scalar::default();
            let _ = z.set(&s).inv(&s);
            // any 32 bytes are a scalar to whoever decodes them
            let _ = Point::default().mul(&s, None);
            let _ = Point::default().mul(&s, Some(&Point::default().base()));
        })?;
        c.ev("scalar-used");
    }
    let mut s = Scalar::default();
    let _ = nopanic("scalar-read", || s.unmarshal_from(&mut &bb[..]))?;
    let _ = nopanic("scalar-canonical", || s.is_canonical(bb))?;
    // keys and signatures
    let mut e = EdDSA::<Curve>::default();
    let _ = nopanic("eddsa-import", || e.unmarshal_binary(bb))?;
    let pk = if c.rng.bool() { p } else { kp(&denc(&nasty_point(&mut c.rng).0))? };
    let _ = nopanic("eddsa-verify", || eddsa::verify(&pk, &m, bb))?;
    let _ = nopanic("schnorr-verify", || schnorr::verify(MonSuite {}, &pk, &m, bb))?;
    let _ = nopanic("eddsa-verify-bytes", || eddsa::verify_with_checks(&m, b"msg", bb))?;
    // ciphertexts
    let k = ks(&nasty255(&mut c.rng))?;
    let _ = nopanic("ecies", || ecies::decrypt(Curve::new(), k, bb))?;
    let nonce: [u8; 12] = c.rng.arr();
    let _ = nopanic("aead", || {
        let mut out = [0u8; 40];
        if let Ok(g) = AEAD::<MonSuite>::new(pk, &m) {
            let _ = g.open(Some(&mut out), &nonce, bb, Some(&m));
            let _ = g.open(None, &nonce, bb, None);
        }
    })?;
    // every message, from raw bytes
    macro_rules! de {
        ($($t:ty),* $(,)?) => { $( {
            if let Ok(Ok(x)) = nopanic("decode-binary", || bincode::deserialize::<$t>(bb)).map(|x| x.map_err(|_| ())) {
                nopanic("reencode", || bincode::serialize(&x).is_ok())?;
                c.ev("message-decoded");
            } else {
                nopanic("decode-binary", || bincode::deserialize::<$t>(bb).is_ok())?;
                c.ev("refused");
            }
        } )* }
    }
    de!(Point, Scalar, <Ped as Vss>::Dl, <Ped as Vss>::E, <Ped as Vss>::R, <Ped as Vss>::J, <Rab as Vss>::Dl, <Rab as Vss>::E, <Rab as Vss>::R, <Rab as Vss>::J);
    de!(sim_ped::Deal, pst::Response, sim_ped::Just, sim_rab::Sc, sim_rab::Cc, sim_rab::Rc, Ps, PubPoly<MonSuite>, PriShare<Scalar>);
    c.ev("bytes-tried");
    Ok(())
}

// ------------------------------------------------------------------ sharing

/// what a participant may be asked afterwards, whatever it swallowed
fn poke<S: Vss>(v: &mut S::V, g: &[S::R], j: &[S::J]) -> Res {
    nopanic("afterwards", || {
        let _ = (S::v_deal(v), S::v_cert(v), S::v_sid(v), S::v_index(v));
        let _ = format!("{:?} {}", v, v);
        for r in g {
            let _ = S::v_resp(v, r);
        }
        for x in j {
            let _ = S::v_just(v, x);
        }
        S::v_timeout(v);
        let _ = (S::v_cert(v), bincode::serialize(v).is_ok());
    })
}
fn vss_case<S: Vss>(c: &mut Case) -> Res {
    let max = if c.thorough() { 7 } else { 5 };
    let g = setup(&mut c.rng, max)?;
    let n = g.n;
    let mut d = g.dealer::<S>()?;
    let mut vs = g.verifiers::<S>()?;
    let es = ok(S::enc_all(&d), "encrypted-deals")?;
    let mut st = vec![n as u8, g.t as u8];
    let mut rs: Vec<S::R> = vec![];
    let complain = if n > g.t && c.rng.bool() { Some(c.rng.below(n)) } else { None };
    let mut js_: Vec<S::J> = vec![];
    c.log(format!("vss {} n={} t={}", S::NAME, n, g.t));
    for i in 0..n {
        for _ in 0..4 {
            // a hostile dealer, or a hostile network
            let x = if c.rng.chance(2, 3) {
                let mut d2 = d.clone();
                let plain = ok(S::plain(&mut d2, i), "plain")?.clone();
                let Some(h) = hostile(c, &plain)? else { continue };
                *ok(S::plain(&mut d2, i), "plain")? = h;
                match nopanic("encrypt-deal", || S::enc(&d2, i))? {
                    Ok(x) => x,
                    Err(_) => continue,
                }
            } else {
                let Some(h) = hostile(c, &es[i])? else { continue };
                h
            };
            let _ = nopanic("decrypt_deal", || S::open(&vs[i], &x))?;
            let mut w = vs[i].clone();
            match nopanic("process_encrypted_deal", || S::take(&mut w, &x))? {
                Err(_) => {
                    let _ = nopanic("process_encrypted_deal", || S::take(&mut vs[i], &x))?;
                    c.ev("refused");
                    st.push(0);
                }
                Ok(r) => {
                    st.push(1 + S::status(&r) as u8);
                    c.ev(if S::status(&r) { "approved" } else { "complained" });
                    let mut more = rs.clone();
                    more.push(r.clone());
                    poke::<S>(&mut w, &more, &js_)?;
                    // the dealer and everybody else hear of it
                    let mut d2 = d.clone();
                    let _ = nopanic("dealer-process-response", || S::d_resp(&mut d2, &r))?;
                }
            }
        }
        let e = &es[i];
        let mut r = ok(nopanic("process_encrypted_deal", || S::take(&mut vs[i], e))?, "after-hostile-deals")?;
        ensure!(S::status(&r), "after-hostile-deals", "genuine deal refused after hostile ones");
        if complain == Some(i) {
            r = sign_response::<S>(&g.longs[i], &S::d_sid(&d), i as u32, false)?;
            // a verifier of the same index that never saw the deal right
            let mut d2 = d.clone();
            let pl = ok(S::plain(&mut d2, i), "plain")?;
            let mut x = view::<S>(pl)?;
            x.f[0] ^= 1;
            *pl = deal_from::<S>(&x)?;
            let bad = ok(S::enc(&d2, i), "enc")?;
            vs[i] = g.verifier::<S>(i)?;
            let r2 = ok(nopanic("process_encrypted_deal", || S::take(&mut vs[i], &bad))?, "bad-deal")?;
            ensure!(!S::status(&r2), "harness", "bad deal approved");
            if S::r_hash(&r2) == S::r_hash(&r) {
                r = r2;
            }
        }
        rs.push(r);
    }
    // answers
    for (i, r) in rs.iter().enumerate() {
        for at in 0..=n {
            for _ in 0..2 {
                let Some(mut h) = hostile(c, r)? else { continue };
                if c.rng.bool() {
                    // signed by somebody of the group
                    let who = c.rng.below(n);
                    let m = nopanic("response-hash", || S::r_hash(&h))?;
                    let sig = ok(schnorr::sign(&MonSuite {}, &g.longs[who], &m), "sign")?;
                    h = edit(&h, |v| v["signature"] = js(&sig));
                }
                if at == n {
                    let mut d2 = d.clone();
                    if nopanic("dealer-process-response", || S::d_resp(&mut d2, &h))?.is_err() {
                        let _ = S::d_resp(&mut d, &h);
                        c.ev("refused");
                    } else {
                        let _ = nopanic("afterwards", || S::d_cert(&d2))?;
                    }
                } else {
                    let mut w = vs[at].clone();
                    if nopanic("process_response", || S::v_resp(&mut w, &h))?.is_err() {
                        let _ = S::v_resp(&mut vs[at], &h);
                        c.ev("refused");
                        st.push(3);
                    } else {
                        poke::<S>(&mut w, &rs, &js_)?;
                        st.push(4);
                    }
                }
            }
            if at == n {
                if let Some(j) = ok(nopanic("dealer-process-response", || S::d_resp(&mut d, r))?, "after-hostile-responses")? {
                    js_.push(j);
                }
            } else if at != i {
                ok(nopanic("process_response", || S::v_resp(&mut vs[at], r))?, "after-hostile-responses")?;
            }
        }
    }
    // justifications
    let mut all = js_.clone();
    if all.is_empty() {
        let i = c.rng.below(n);
        let pl = ok(S::plain(&mut d, i), "plain")?.clone();
        all.push(make_just::<S>(&g.dlong, &S::d_sid(&d), i as u32, &pl)?);
    }
    for j in &all {
        for at in 0..n {
            for _ in 0..3 {
                let Some(h) = hostile(c, j)? else { continue };
                let mut w = vs[at].clone();
                let _ = nopanic("process_justification", || S::v_just(&mut w, &h))?;
                poke::<S>(&mut w, &rs, &js_)?;
                c.ev("hostile-justification");
            }
        }
    }
    for j in &js_ {
        for v in vs.iter_mut() {
            ok(nopanic("process_justification", || S::v_just(v, j))?, "after-hostile-justifications")?;
        }
    }
    let mut deals = vec![];
    for (i, v) in vs.iter_mut().enumerate() {
        ensure!(nopanic("deal_certified", || S::v_cert(v))?, "after-hostile", "verifier {} does not certify an honest deal (complaint of {:?})", i, complain);
        deals.push(some(S::v_deal(v), "deal")?);
    }
    // reconstruction from hostile deals
    for _ in 0..6 {
        let mut l = deals.clone();
        c.rng.shuffle(&mut l);
        for _ in 0..c.rng.range(1, 2) {
            let i = c.rng.below(l.len());
            if let Some(h) = hostile(c, &l[i])? {
                // share indices beyond 2^62 are outside of what the sharing handles
                if !view::<S>(&h).is_ok_and(|x| x.i > 1 << 62) {
                    l[i] = h;
                }
            }
        }
        let (a, b) = (*c.rng.choose(&[n, n, n, 0, 1]), *c.rng.choose(&[g.t, g.t, 1]));
        let _ = nopanic("recover_secret", || S::recover(l, a, b))?;
        c.ev("hostile-recovery");
    }
    let s = ok(nopanic("recover_secret", || S::recover(deals, n, g.t))?, "recover")?;
    ensure!(red(&sbytes(&s)?) == red(&sbytes(&g.secret)?), "after-hostile", "another secret recovered");
    c.ev("honest-run-completed");
    c.state(&st);
    Ok(())
}

// ----------------------------------------------------------- key generation

fn ped_poke(dk: &mut sim_ped::Dkg, seen: &[sim_ped::Body]) -> Res {
    nopanic("afterwards", || {
        let _ = (dk.certified(), dk.threshold_certified(), dk.qual(), dk.qualified_shares(), dk.is_in_qual(u32::MAX), dk.expected_deals());
        for b in seen {
            match b {
                sim_ped::Body::Deal(d) => drop(dk.process_deal(d)),
                sim_ped::Body::Resp(_, _, r) => drop(dk.process_response(r)),
                sim_ped::Body::Just(_, j) => drop(dk.process_justification(j)),
                _ => (),
            }
        }
        dk.set_timeout();
        let _ = (dk.certified(), dk.qual(), dk.dist_key_share().is_ok(), bincode::serialize(dk).is_ok());
    })
}
fn ped_case(c: &mut Case, reshare: bool) -> Res {
    let spec = if reshare {
        let n = c.rng.range(2, 5);
        let t = c.rng.range(1, n);
        let (longs, pubs) = keys(&mut c.rng, n)?;
        let old = make_old(&mut c.rng, n, t)?;
        reshare_spec(&mut c.rng, old, longs, pubs, 5)?
    } else {
        fresh_spec(&mut c.rng, 5)?
    };
    let byz = spec.byz.clone();
    let (longs, pubs, olds, news, t) = (spec.longs.clone(), spec.pubs.clone(), spec.olds.clone(), spec.news.clone(), spec.t);
    let mut sim = Sim::new(c, spec)?;
    let new_pubs: Vec<Point> = news.iter().map(|p| pubs[*p]).collect();
    let mut stash: Vec<sim_ped::Body> = vec![];
    let mut st = vec![];
    let mut hook = |c: &mut Case, p: &mut sim_ped::Party, e: Option<&sim_ped::Ev>| -> Res {
        if let Some(e) = e {
            stash.push(e.body.clone());
        }
        if stash.is_empty() || c.rng.chance(1, 2) {
            return Ok(());
        }
        use sim_ped::Body::*;
        let pick = if let (Some(e), true) = (e, c.rng.chance(2, 3)) { e.body.clone() } else { c.rng.choose(&stash).clone() };
        let sign = c.rng.chance(2, 3);
        // whose key, of the honest ones, was used: such messages do not exist outside of a copy
        let mut real = true;
        let mut w = p.dkg.clone();
        let (accepted, apply): (bool, sim_ped::Body) = match pick {
            Start => return Ok(()),
            Deal(d) => {
                let o = d.index as usize;
                let mut h = if c.rng.bool() && p.new.is_some() && o < olds.len() {
                    // a deal hostile inside
                    let k = p.new.unwrap();
                    let mut vd = ok(Ped::dealer(&longs[olds[o]], &longs[0], &new_pubs, t.min(news.len()).max(2)), "hostile-dealer")?;
                    let plain = ok(Ped::plain(&mut vd, k), "plain")?.clone();
                    if let Some(x) = hostile(c, &plain)? {
                        *ok(Ped::plain(&mut vd, k), "plain")? = x;
                    }
                    match nopanic("encrypt-deal", || Ped::enc(&vd, k))? {
                        Ok(e) => sim_ped::Deal { index: o as u32, deal: e, signature: vec![] },
                        Err(_) => return Ok(()),
                    }
                } else {
                    let Some(h) = maybe(c, &d)? else { return Ok(()) };
                    h
                };
                if sign && o < olds.len() {
                    real = byz.contains(&olds[o]);
                    let m = nopanic("deal-encode", || h.marshal_binary())?.unwrap_or_default();
                    h.signature = ok(schnorr::sign(&MonSuite {}, &longs[olds[o]], &m), "sign")?;
                }
                let r = nopanic("process_deal", || w.process_deal(&h))?;
                c.ev(match &r {
                    Ok(r) if r.response.status => "approved",
                    Ok(_) => "complained",
                    Err(_) => "refused",
                });
                (r.is_ok(), Deal(h))
            }
            Resp(a, b, r) => {
                let Some(mut h) = maybe(c, &r)? else { return Ok(()) };
                if sign {
                    let m = nopanic("response-hash", || Ped::r_hash(&h.response))?;
                    let who = *c.rng.choose(&news);
                    let who = if c.rng.bool() { who } else { news[a] };
                    real = byz.contains(&who);
                    h.response.signature = ok(schnorr::sign(&MonSuite {}, &longs[who], &m), "sign")?;
                }
                let r = nopanic("process_response", || w.process_response(&h))?;
                c.ev(if r.is_ok() { "response-accepted" } else { "refused" });
                (r.is_ok(), Resp(a, b, h))
            }
            Just(a, j) => {
                let Some(h) = maybe(c, &j)? else { return Ok(()) };
                let r = nopanic("process_justification", || w.process_justification(&h))?;
                c.ev("hostile-justification");
                st.push(r.is_ok() as u8);
                // whoever sends a wrong one is condemned: not for real
                (true, Just(a, h))
            }
        };
        st.push(accepted as u8);
        if accepted {
            ped_poke(&mut w, &stash)?;
        } else if real {
            c.ev("refused-for-real");
            match &apply {
                Deal(d) => drop(p.dkg.process_deal(d)),
                Resp(_, _, r) => drop(p.dkg.process_response(r)),
                _ => (),
            }
        }
        Ok(())
    };
    sim.run(c, Some(&mut hook))?;
    c.ev("honest-run-completed");
    c.state(&st);
    Ok(())
}

fn rab_poke(dk: &mut sim_rab::Dkg, seen: &[sim_rab::Body]) -> Res {
    nopanic("afterwards", || {
        let _ = (dk.certified(), dk.qual(), dk.is_in_qual(u32::MAX), dk.finished());
        for b in seen {
            use sim_rab::Body::*;
            match b {
                Deal(d) => drop(dk.process_deal(d)),
                Resp(_, _, r) => drop(dk.process_response(r)),
                Just(_, j) => drop(dk.process_justification(j)),
                Sc(x) => drop(dk.process_secret_commits(x)),
                Cc(_, x) => drop(dk.process_complaint_commits(x)),
                Rc(_, _, x) => drop(dk.process_reconstruct_commits(x)),
                Start => (),
            }
        }
        dk.set_timeout();
        let _ = (dk.secret_commits().is_ok(), dk.certified(), dk.finished(), dk.dist_key_share().is_ok(), bincode::serialize(dk).is_ok());
    })
}
fn field<T: Serialize, U: DeserializeOwned>(t: &T, name: &str) -> U {
    serde_json::from_value(js(t)[name].clone()).expect("field")
}
/// altered, or as it is (at the wrong place or time)
fn maybe<T: Serialize + DeserializeOwned + Clone>(c: &mut Case, t: &T) -> Res<Option<T>> {
    if c.rng.chance(1, 4) {
        c.ev("unaltered");
        return Ok(Some(t.clone()));
    }
    hostile(c, t)
}
fn rab_case(c: &mut Case) -> Res {
    let mut sim = sim_rab::Sim::new(c, 5, true)?;
    let (n, t) = (sim.n, sim.t);
    let longs: Vec<Scalar> = sim.parties.iter().map(|p| p.long.clone()).collect();
    let pubs = sim.pubs.clone();
    let byz: Vec<bool> = sim.parties.iter().map(|p| p.byz).collect();
    let mut stash: Vec<sim_rab::Body> = vec![];
    let mut plains: Vec<kyber_rs::share::vss::rabin::vss::Deal<MonSuite>> = vec![];
    let mut st = vec![];
    let mut hook = |c: &mut Case, me: usize, p: &mut sim_rab::Party, e: Option<&sim_rab::Ev>| -> Res {
        if let Some(e) = e {
            stash.push(e.body.clone());
        }
        if stash.is_empty() || c.rng.chance(1, 2) {
            return Ok(());
        }
        use sim_rab::Body::*;
        if plains.len() < 12 {
            plains.extend(p.dkg.verifiers.values().filter_map(|v| v.deal()));
        }
        let pick = if !plains.is_empty() && c.rng.chance(1, 4) {
            // complaints and revealed shares nobody has a reason to send: about any
            // dealer, also one whose deal or commitments have not come
            let (k, o) = (c.rng.below(n), c.rng.below(n));
            let deal = c.rng.choose(&plains).clone();
            c.ev("made-up-message");
            if c.rng.bool() {
                Cc(k, sim_rab::Cc { index: k as u32, dealer_index: o as u32, deal, signature: vec![] })
            } else {
                Rc(k, o, sim_rab::Rc { session_id: field(&deal, "session_id"), index: k as u32, dealer_index: o as u32, share: field(&deal, "sec_share"), signature: vec![] })
            }
        } else if let (Some(e), true) = (e, c.rng.chance(2, 3)) {
            e.body.clone()
        } else {
            c.rng.choose(&stash).clone()
        };
        let sign = c.rng.chance(2, 3);
        let mut real = true;
        let mut w = p.dkg.clone();
        let su = MonSuite {};
        macro_rules! resign {
            ($h:expr, $i:expr) => {
                if sign {
                    let who = if c.rng.chance(1, 4) { c.rng.below(n) } else { ($i as usize) % n };
                    real = byz[who];
                    if let Ok(m) = nopanic("message-hash", || $h.hash(&su))? {
                        $h.signature = ok(schnorr::sign(&su, &longs[who], &m), "sign")?;
                    }
                }
            };
        }
        let accepted = match pick {
            Start => return Ok(()),
            Deal(d) => {
                let h = if c.rng.chance(2, 3) {
                    let o = d.index as usize % n;
                    real = byz[o];
                    let mut vd = ok(Rab::dealer(&longs[o], &longs[0], &pubs, t), "hostile-dealer")?;
                    let plain = ok(Rab::plain(&mut vd, me), "plain")?.clone();
                    if let Some(x) = hostile(c, &plain)? {
                        *ok(Rab::plain(&mut vd, me), "plain")? = x;
                    }
                    match nopanic("encrypt-deal", || Rab::enc(&vd, me))? {
                        Ok(e) => rdkg::Deal { index: o as u32, deal: e },
                        Err(_) => return Ok(()),
                    }
                } else {
                    let Some(h) = maybe(c, &d)? else { return Ok(()) };
                    h
                };
                let r = nopanic("process_deal", || w.process_deal(&h))?;
                if r.is_err() && real {
                    c.ev("refused-for-real");
                    drop(p.dkg.process_deal(&h));
                }
                r.is_ok()
            }
            Resp(_, _, r) => {
                let Some(mut h) = maybe(c, &r)? else { return Ok(()) };
                if sign {
                    let who = if c.rng.bool() { c.rng.below(n) } else { r.response.index as usize % n };
                    real = byz[who];
                    let m = nopanic("response-hash", || Rab::r_hash(&h.response))?;
                    h.response.signature = ok(schnorr::sign(&su, &longs[who], &m), "sign")?;
                }
                let r = nopanic("process_response", || w.process_response(&h))?;
                if r.is_err() && real {
                    c.ev("refused-for-real");
                    drop(p.dkg.process_response(&h));
                }
                r.is_ok()
            }
            Just(_, j) => {
                let Some(h) = maybe(c, &j)? else { return Ok(()) };
                let _ = nopanic("process_justification", || w.process_justification(&h))?;
                c.ev("hostile-justification");
                true
            }
            Sc(s) => {
                let Some(mut h) = maybe(c, &s)? else { return Ok(()) };
                resign!(h, s.index);
                let r = nopanic("process_secret_commits", || w.process_secret_commits(&h))?;
                if r.is_err() && real {
                    c.ev("refused-for-real");
                    drop(p.dkg.process_secret_commits(&h));
                }
                r.is_ok()
            }
            Cc(_, s) => {
                let Some(mut h) = maybe(c, &s)? else { return Ok(()) };
                resign!(h, s.index);
                let r = nopanic("process_complaint_commits", || w.process_complaint_commits(&h))?;
                if r.is_err() && real {
                    c.ev("refused-for-real");
                    drop(p.dkg.process_complaint_commits(&h));
                }
                r.is_ok()
            }
            Rc(_, _, s) => {
                let Some(mut h) = maybe(c, &s)? else { return Ok(()) };
                resign!(h, s.index);
                let r = nopanic("process_reconstruct_commits", || w.process_reconstruct_commits(&h))?;
                if r.is_err() && real {
                    c.ev("refused-for-real");
                    drop(p.dkg.process_reconstruct_commits(&h));
                }
                r.is_ok()
            }
        };
        c.ev(if accepted { "accepted" } else { "refused" });
        st.push(accepted as u8);
        if accepted {
            rab_poke(&mut w, &stash)?;
        }
        Ok(())
    };
    sim.run(c, Some(&mut hook))?;
    c.ev("honest-run-completed");
    c.state(&st);
    Ok(())
}

// ------------------------------------------------------- signing, combining

fn dss_case(c: &mut Case) -> Res {
    let (k, t) = by_hand::<Own>(&mut c.rng, 5)?;
    let m = message(&mut c.rng);
    let mut gen = vec![];
    for i in 0..k.n {
        gen.push(ok(dss_of(&k, i, &m, t)?.partial_sig(), "partial")?);
    }
    let at = c.rng.below(k.n);
    let mut d = dss_of(&k, at, &m, t)?;
    let mut st = vec![];
    for g in &gen {
        for _ in 0..8 {
            let Some(mut h) = hostile(c, g)? else { continue };
            if c.rng.bool() {
                if let Ok(x) = nopanic("partial-hash", || h.hash(MonSuite {}))? {
                    h.signature = ok(schnorr::sign(&MonSuite {}, &k.longs[g.partial.i], &x), "sign")?;
                }
            }
            let mut w = d.clone();
            let r = nopanic("process_partial_sig", || w.process_partial_sig(h.clone()))?;
            st.push(r.is_ok() as u8);
            if r.is_err() {
                let _ = d.process_partial_sig(h);
                c.ev("refused");
            } else {
                let s = nopanic("signature", || w.signature().ok())?;
                if let Some(s) = s {
                    ensure!(s == crate::c_dss::expected(&k, &m)?, "signature", "a hostile partial spoiled the signature");
                }
                c.ev("accepted");
            }
        }
        ok(nopanic("process_partial_sig", || d.process_partial_sig(g.clone()))?, "after-hostile-partials")?;
    }
    let s = ok(nopanic("signature", || d.signature())?, "signature")?;
    ensure!(s == crate::c_dss::expected(&k, &m)?, "signature", "wrong signature after hostile partials");
    c.ev("honest-run-completed");
    c.state(&st);
    Ok(())
}
fn poly_case(c: &mut Case) -> Res {
    let n = c.rng.range(1, 6);
    let t = c.rng.range(1, n);
    let old = make_old(&mut c.rng, n, t)?;
    let mut l = vec![];
    for i in 0..n {
        l.push(Some(PriShare { i, v: ks(&old.shares[i].unwrap())? }));
    }
    let su = MonSuite {};
    let pp = PubPoly::new(&su, Some(su.point().base()), &old.commits);
    let pl: Vec<Option<PubShare<Point>>> = pp.shares(n);
    for _ in 0..6 {
        if let Some(x) = hostile(c, &l)? {
            let big = x.iter().flatten().any(|s| s.i > (1 << 62));
            if !big {
                let _ = nopanic("recover_secret", || poly::recover_secret(su, &x, t, n).is_ok())?;
                let _ = nopanic("recover_pri_poly", || poly::recover_pri_poly(&su, &x, t, n).is_ok())?;
                for s in x.iter().flatten() {
                    let _ = nopanic("check", || pp.check(s))?;
                    let _ = nopanic("hash", || s.hash(su).is_ok())?;
                }
                c.ev("hostile-shares");
            }
        }
        if let Some(x) = hostile(c, &pl)? {
            if !x.iter().flatten().any(|s| s.i > (1 << 62)) {
                let _ = nopanic("recover_commit", || poly::recover_commit(su, &x, t, n).is_ok())?;
                let _ = nopanic("recover_pub_poly", || poly::recover_pub_poly(su, &x, t, n).is_ok())?;
                c.ev("hostile-shares");
            }
        }
        if let Some(x) = hostile(c, &pp)? {
            let _ = nopanic("pub-poly", || {
                let _ = (x.eval(3), x.add(&pp).is_ok(), x.equal(&pp).is_ok(), pp.equal(&x).is_ok(), x.shares(3), x.info(), x.threshold());
                if let Some(Some(s)) = l.first() {
                    let _ = x.check(s);
                }
            })?;
        }
    }
    Ok(())
}

pub fn run_c24(ctx: &Ctx) {
    ctx.rule("every decoding, verification, decryption and protocol call under a panic/overflow/CPU monitor on altered input; what was refused is then given to the real participant, whose honest run must complete; non-trivial = distinct inputs / outcome sequences");
    ctx.assume("altered justifications are tried on a copy only: a wrong justification condemns its dealer; share indices up to 2^62");
    ctx.family("bytes", ctx.n(4000, 80000), bytes);
    ctx.family("pedersen-vss", ctx.n(250, 4000), vss_case::<Ped>);
    ctx.family("rabin-vss", ctx.n(250, 4000), vss_case::<Rab>);
    ctx.family("pedersen-dkg", ctx.n(150, 2500), |c| ped_case(c, false));
    ctx.family("resharing", ctx.n(150, 2500), |c| ped_case(c, true));
    ctx.family("rabin-dkg", ctx.n(200, 3000), rab_case);
    ctx.family("dss", ctx.n(200, 3000), dss_case);
    ctx.family("poly", ctx.n(400, 6000), poly_case);
    for (e, k) in [("refused", 5000), ("honest-run-completed", 700), ("altered", 5000), ("approved", 20), ("complained", 100), ("accepted", 50), ("hostile-justification", 300), ("hostile-recovery", 500), ("hostile-shares", 300), ("refused-for-real", 300)] {
        ctx.require(e, k);
    }
}
