//! C17 sharing and recovery, C18 certification histories, C19 addressing and
//! binding of verifiable-secret-sharing messages.
use crate::c_sig::spec_verify;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::MonSuite;
use crate::vss::*;
use kyber_rs::group::edwards25519::Point;
use serde_json::Value;
use std::collections::BTreeMap;

fn flip(r: &mut Rng, v: &mut [u8]) {
    if !v.is_empty() {
        let i = r.below(v.len());
        v[i] ^= 1 << r.below(8);
    }
}
fn rnd_scalar32(r: &mut Rng) -> [u8; 32] {
    red(&r.arr::<32>())
}
fn snap<S: Vss>(v: &S::V) -> Value {
    js(v)
}

/// the answer is signed by its issuer over its content
fn check_response<S: Vss>(g: &Group0, r: &S::R, i: usize) -> Res {
    let j = js(r);
    let idx: u32 = unjs(j["index"].clone());
    ensure!(idx as usize == i, "response-index", "{} verifier {} answers as {}", S::NAME, i, idx);
    let sig = jb(&j["signature"]);
    ensure!(
        spec_verify(&pbytes(&g.pubs[i])?, &S::r_hash(r), &sig).is_ok(),
        "response-signature",
        "{} answer of verifier {} does not verify under its key",
        S::NAME,
        i
    );
    Ok(())
}

/// every selection of at least t of these deals gives the same secret
fn check_recovery<S: Vss>(c: &mut Case, g: &Group0, deals: &[S::Dl], expect: Option<[u8; 32]>, t: usize) -> Res {
    let n = g.n;
    if deals.len() < t {
        return Ok(());
    }
    let mut first: Option<[u8; 32]> = expect;
    let tries = if c.thorough() { 8 } else { 4 };
    for k in 0..tries {
        let m = if k == 0 { deals.len() } else { c.rng.range(t, deals.len()) };
        let mut pick = c.rng.subset(deals.len(), m);
        c.rng.shuffle(&mut pick);
        let sel: Vec<S::Dl> = pick.iter().map(|i| deals[*i].clone()).collect();
        let s = ok(nopanic("recover", || S::recover(sel, n, t))?, "recover")?;
        let b = red(&sbytes(&s)?);
        match first {
            Some(x) => ensure!(x == b, "recovered-secret", "{} shares {:?} (t={}) recover another secret", S::NAME, pick, t),
            None => first = Some(b),
        }
        c.ev("recovered");
    }
    if t > 1 {
        let few = c.rng.subset(deals.len(), t - 1);
        let sel: Vec<S::Dl> = few.iter().map(|i| deals[*i].clone()).collect();
        ensure!(nopanic("recover", || S::recover(sel, n, t))?.is_err(), "below-threshold", "{} secret recovered from t-1 deals", S::NAME);
        c.ev("below-threshold-refused");
        // the same deal repeated does not count twice
        let mut sel: Vec<S::Dl> = few.iter().map(|i| deals[*i].clone()).collect();
        sel.push(sel[0].clone());
        sel.push(sel[0].clone());
        match nopanic("recover", || S::recover(sel, n, t))? {
            Err(_) => c.ev("repeated-deal-refused"),
            Ok(_) => return fail("below-threshold", format!("{} secret recovered from t-1 distinct deals", S::NAME)),
        }
    }
    Ok(())
}

fn honest<S: Vss>(c: &mut Case) -> Res {
    let max = if c.thorough() { 12 } else { 7 };
    let g = setup(&mut c.rng, max)?;
    let mut d = g.dealer::<S>()?;
    let mut vs = g.verifiers::<S>()?;
    c.log(format!("{} n={} t={}", S::NAME, g.n, g.t));
    let encs = ok(nopanic("encrypted_deals", || S::enc_all(&d))?, "encrypted-deals")?;
    ensure!(encs.len() == g.n, "deal-count", "{} deals for {} verifiers", encs.len(), g.n);
    ensure!(!S::d_cert(&d) && S::d_commit(&d).is_none(), "early-certified", "certified before any answer");
    c.state(&S::d_sid(&d));
    let mut rs = vec![];
    for i in 0..g.n {
        let r = ok(nopanic("process_deal", || S::take(&mut vs[i], &encs[i]))?, "process-deal")?;
        ensure!(S::status(&r), "honest-complaint", "{} verifier {} complains about an honest deal (n={} t={})", S::NAME, i, g.n, g.t);
        check_response::<S>(&g, &r, i)?;
        let w = view::<S>(&S::open(&vs[i], &encs[i]).map_err(|e| Fail { key: "decrypt".into(), msg: e })?)?;
        ensure!(spec_deal_ok::<S>(&w, i, &g.dpub, &g.pubs, Some(g.t))?, "honest-deal-inconsistent", "{} deal {} is not a consistent share", S::NAME, i);
        if !S::RABIN {
            let sc = denc(&imul(&sbytes(&g.secret)?, &dbase()));
            ensure!(pbytes(&w.commits[0])? == sc, "commitment", "first commitment is not the secret's");
        }
        c.ev("honest-approval");
        rs.push(r);
        // a repeated deal changes nothing
        let before = snap::<S>(&vs[i]);
        ensure!(nopanic("process_deal", || S::take(&mut vs[i], &encs[i]))?.is_err(), "repeated-deal", "{} repeated deal accepted", S::NAME);
        let again = ok(S::enc(&d, i), "encrypted-deal")?;
        ensure!(nopanic("process_deal", || S::take(&mut vs[i], &again))?.is_err(), "repeated-deal", "{} repeated deal accepted", S::NAME);
        ensure!(before == snap::<S>(&vs[i]), "repeated-deal-effect", "{} repeated deal changed the verifier", S::NAME);
        c.ev("repeat-refused");
    }
    // answers in any order
    let mut order: Vec<(usize, usize)> = vec![];
    for i in 0..g.n {
        for j in 0..=g.n {
            if i != j {
                order.push((i, j));
            }
        }
    }
    c.rng.shuffle(&mut order);
    for (i, j) in order {
        if j == g.n {
            let o = ok(nopanic("dealer_response", || S::d_resp(&mut d, &rs[i]))?, "dealer-response")?;
            ensure!(o.is_none(), "justified-approval", "justification for an approval");
        } else {
            ok(nopanic("response", || S::v_resp(&mut vs[j], &rs[i]))?, "verifier-response")?;
        }
    }
    ensure!(S::d_cert(&d), "not-certified", "{} dealer not certified after all approvals", S::NAME);
    let cm = some(S::d_commit(&d), "secret-commit")?;
    ensure!(pbytes(&cm)? == denc(&imul(&sbytes(&g.secret)?, &dbase())), "secret-commit", "{} secret commitment wrong", S::NAME);
    let mut deals = vec![];
    for v in &vs {
        ensure!(S::v_cert(v), "not-certified", "{} verifier not certified after all approvals", S::NAME);
        ensure!(S::v_sid(v) == S::d_sid(&d), "session-id", "session ids differ");
        deals.push(some(S::v_deal(v), "no-deal")?);
    }
    check_recovery::<S>(c, &g, &deals, Some(red(&sbytes(&g.secret)?)), g.t)?;
    // deals of different sessions do not mix
    let d2 = g.dealer::<S>()?;
    let mut d2 = d2;
    let foreign = ok(S::plain(&mut d2, 0), "plain")?.clone();
    let mut mix = deals.clone();
    mix[0] = foreign;
    c.rng.shuffle(&mut mix);
    ensure!(nopanic("recover", || S::recover(mix, g.n, g.t))?.is_err(), "mixed-sessions", "{} deals of two sessions combined", S::NAME);
    c.ev("mixed-refused");
    Ok(())
}

/// an inconsistent (or not) deal as a dishonest dealer could send it
fn corrupt<S: Vss>(r: &mut Rng, g: &Group0, w: &DealView, kind: usize) -> Res<(DealView, &'static str)> {
    let mut w = w.clone();
    let resid = |w: &mut DealView| -> Res {
        w.sid = spec_sid(&g.dpub, &g.pubs, &w.commits, w.t)?;
        Ok(())
    };
    let rp = |r: &mut Rng| -> Res<Point> { kp(&denc(&prime_point(r))) };
    let name = match kind {
        0 => "consistent",
        1 => {
            w.f = match r.below(4) {
                0 => [0; 32],
                1 => {
                    let mut one = [0u8; 32];
                    one[0] = 1;
                    le32(&modl(&(from_le(&w.f) + from_le(&one))))
                }
                2 => {
                    let mut x = w.f;
                    flip(r, &mut x[..31]);
                    x
                }
                _ => rnd_scalar32(r),
            };
            "share"
        }
        2 => {
            if S::RABIN {
                w.g = rnd_scalar32(r);
                "random-share"
            } else {
                std::mem::swap(&mut w.f, &mut rnd_scalar32(r));
                "share"
            }
        }
        3 => {
            w.i = *r.choose(&[g.n, g.n + 1, usize::MAX >> 1, (w.i + 1) % g.n]);
            w.gi = w.i;
            "index"
        }
        4 => {
            w.gi = (w.i + 1) % g.n;
            "random-index"
        }
        5 => {
            let k = r.below(w.commits.len());
            w.commits[k] = rp(r)?;
            "commitment-same-session"
        }
        6 => {
            let k = r.below(w.commits.len());
            w.commits[k] = rp(r)?;
            resid(&mut w)?;
            "commitment"
        }
        7 => {
            // consistent with a lower or higher announced threshold
            w.t = *r.choose(&[0, 1, g.t.wrapping_sub(1), g.t + 1, g.n + 1, usize::MAX, 1usize << 32]);
            if r.bool() {
                resid(&mut w)?;
            }
            "threshold"
        }
        8 => {
            // polynomial of higher degree than announced
            let extra = if r.bool() { kp(&denc(&curve25519_dalek::edwards::EdwardsPoint::default()))? } else { rp(r)? };
            w.commits.push(extra);
            resid(&mut w)?;
            "extra-commitment"
        }
        9 => {
            // genuinely higher degree, share on the curve, threshold understated
            let cf = rnd_scalar32(r);
            let x = num_bigint_dig::BigUint::from(w.i as u64 + 1);
            let mut p = num_bigint_dig::BigUint::from(1u8);
            for _ in 0..w.commits.len() {
                p = p * &x % ell();
            }
            w.f = le32(&modl(&(from_le(&w.f) + from_le(&cf) * p)));
            w.commits.push(kp(&denc(&imul(&cf, &dbase())))?);
            if r.bool() {
                resid(&mut w)?;
            }
            "degree-understated"
        }
        10 => {
            w.commits.pop();
            if r.bool() {
                w.commits.clear();
            }
            if r.bool() {
                resid(&mut w)?;
            }
            "missing-commitment"
        }
        11 => {
            w.sid = match r.below(3) {
                0 => vec![],
                1 => r.bytes(32),
                _ => {
                    let mut s = w.sid.clone();
                    flip(r, &mut s);
                    s
                }
            };
            "session"
        }
        12 => {
            // share on the polynomial, but at another point
            let x2 = (w.i + 1) % g.n;
            w.gi = x2;
            w.i = x2;
            "other-verifier"
        }
        13 => {
            // consistent constant shift of everything: another secret, honest otherwise
            let dlt = rnd_scalar32(r);
            w.f = le32(&modl(&(from_le(&w.f) + from_le(&dlt))));
            w.commits[0] = kp(&denc(&(dalek_of(&w.commits[0])? + imul(&dlt, &dbase()))))?;
            if r.bool() {
                resid(&mut w)?;
            }
            "other-secret"
        }
        14 => {
            // commitment off by a low-order point
            let k = r.below(w.commits.len());
            let ti = r.range(1, 7);
            w.commits[k] = kp(&denc(&(dalek_of(&w.commits[k])? + torsion(ti))))?;
            resid(&mut w)?;
            "torsion-commitment"
        }
        15 => {
            // in every way consistent, with a threshold out of the allowed range
            let t = *r.choose(&[1, 1, g.n + 1, g.n + 2]);
            let cf: Vec<[u8; 32]> = (0..2 * t).map(|_| rnd_scalar32(r)).collect();
            let x = num_bigint_dig::BigUint::from(w.i as u64 + 1);
            let h = if S::RABIN { Some(dalek_of(&spec_h(&g.pubs)?)?) } else { None };
            let (mut f, mut d) = (num_bigint_dig::BigUint::from(0u8), num_bigint_dig::BigUint::from(0u8));
            w.commits.clear();
            for k in 0..t {
                let mut q = imul(&cf[k], &dbase());
                if let Some(h) = &h {
                    q += imul(&cf[t + k], h);
                }
                w.commits.push(kp(&denc(&q))?);
                let j = t - 1 - k;
                f = modl(&(f * &x + from_le(&cf[j])));
                d = modl(&(d * &x + from_le(&cf[t + j])));
            }
            w.t = t;
            w.f = le32(&f);
            w.g = le32(&d);
            resid(&mut w)?;
            "threshold-out-of-range"
        }
        _ => {
            // negated share: right x coordinate, wrong point
            w.f = le32(&modl(&(ell() - from_le(&red(&w.f)))));
            "negated-share"
        }
    };
    Ok((w, name))
}

/// a dishonest dealer against every verifier
fn byzantine<S: Vss>(c: &mut Case) -> Res {
    let max = if c.thorough() { 10 } else { 6 };
    let g = setup(&mut c.rng, max)?;
    let mut d = g.dealer::<S>()?;
    c.log(format!("{} n={} t={}", S::NAME, g.n, g.t));
    for i in 0..g.n {
        let kind = c.rng.below(17);
        let orig = ok(S::plain(&mut d, i), "plain")?.clone();
        let w0 = view::<S>(&orig)?;
        let (w, name) = corrupt::<S>(&mut c.rng, &g, &w0, kind)?;
        let good = spec_deal_ok::<S>(&w, i, &g.dpub, &g.pubs, None)?;
        *ok(S::plain(&mut d, i), "plain")? = deal_from::<S>(&w)?;
        let e = ok(nopanic("encrypted_deal", || S::enc(&d, i))?, "encrypted-deal")?;
        let mut v = g.verifier::<S>(i)?;
        c.state(&bincode::serialize(&(&w.sid, w.i, &w.f, w.t)).unwrap());
        let r = nopanic("process_deal", || S::take(&mut v, &e))?;
        c.log(format!("verifier {}: {} good={} -> {:?}", i, name, good, r.as_ref().map(|r| S::status(r))));
        match r {
            Ok(r) => {
                check_response::<S>(&g, &r, i)?;
                if good {
                    ensure!(S::status(&r), "consistent-refused", "{} consistent deal ({}) complained about", S::NAME, name);
                    c.ev("consistent-approved");
                } else {
                    ensure!(!S::status(&r), format!("approved:{}", name), "{} verifier {} of {} (t={}) approves an inconsistent deal: {}", S::NAME, i, g.n, g.t, name);
                    c.ev(&format!("complaint:{}", name));
                    S::v_timeout(&mut v);
                    ensure!(S::v_deal(&v).is_none(), "bad-deal-certified", "{} bad deal returned as certified", S::NAME);
                }
            }
            Err(e) => {
                ensure!(!good, "consistent-refused", "{} consistent deal ({}) refused: {}", S::NAME, name, e);
                c.ev(&format!("refused:{}", name));
                ensure!(S::v_deal(&v).is_none(), "bad-deal-certified", "{} refused deal returned as certified", S::NAME);
            }
        }
        *ok(S::plain(&mut d, i), "plain")? = orig;
    }
    Ok(())
}

/// a dishonest dealer against a whole group: whatever gets certified is one secret
fn byz_run<S: Vss>(c: &mut Case) -> Res {
    let max = if c.thorough() { 9 } else { 6 };
    let g = setup(&mut c.rng, max)?;
    let mut d = g.dealer::<S>()?;
    let mut vs = g.verifiers::<S>()?;
    let honest: Vec<S::Dl> = (0..g.n).map(|i| S::plain(&mut d, i).map(|x| x.clone())).collect::<Result<_, _>>().map_err(|e| Fail { key: "plain".into(), msg: e })?;
    let bad_p = c.rng.range(0, 3) as u64;
    let justify = c.rng.chance(2, 3);
    let mut rs = vec![];
    let mut bad = vec![];
    for i in 0..g.n {
        let is_bad = c.rng.chance(bad_p, 5);
        bad.push(is_bad);
        if is_bad {
            let w0 = view::<S>(&honest[i])?;
            let k = *c.rng.choose(&[1usize, 1, 2, 16]);
            let (w, _) = corrupt::<S>(&mut c.rng, &g, &w0, k)?;
            *S::plain(&mut d, i).unwrap() = deal_from::<S>(&w)?;
        }
        let e = ok(S::enc(&d, i), "encrypted-deal")?;
        let r = ok(nopanic("process_deal", || S::take(&mut vs[i], &e))?, "process-deal")?;
        ensure!(S::status(&r) != is_bad, "approval", "{} verifier answers {} to a deal that is {}", S::NAME, S::status(&r), if is_bad { "bad" } else { "good" });
        rs.push(r);
        *S::plain(&mut d, i).unwrap() = honest[i].clone();
    }
    c.state(format!("{:?}{}{}", bad, justify, c.idx).as_bytes());
    let mut js_ = vec![];
    for r in &rs {
        if let Some(j) = ok(nopanic("dealer_response", || S::d_resp(&mut d, r))?, "dealer-response")? {
            js_.push(j);
        }
    }
    let mut order: Vec<(usize, usize)> = (0..g.n).flat_map(|i| (0..g.n).filter(move |j| *j != i).map(move |j| (i, j))).collect();
    c.rng.shuffle(&mut order);
    for (i, j) in order {
        ok(nopanic("response", || S::v_resp(&mut vs[j], &rs[i]))?, "verifier-response")?;
    }
    if justify {
        for v in vs.iter_mut() {
            c.rng.shuffle(&mut js_);
            for j in &js_ {
                ok(nopanic("justification", || S::v_just(v, j))?, "justification")?;
                c.ev("justified");
            }
        }
    }
    let nbad = bad.iter().filter(|b| **b).count();
    let mut deals = vec![];
    for (i, v) in vs.iter_mut().enumerate() {
        if c.rng.bool() {
            S::v_timeout(v);
        }
        if let Some(dl) = S::v_deal(v) {
            let w = view::<S>(&dl)?;
            ensure!(spec_deal_ok::<S>(&w, i, &g.dpub, &g.pubs, Some(g.t))?, "certified-bad-share", "{} verifier {} holds an inconsistent share as certified (bad={} justified={})", S::NAME, i, bad[i], justify);
            c.ev(if bad[i] { "share-replaced" } else { "certified-share" });
            deals.push(dl);
        } else {
            ensure!(nbad > 0, "not-certified", "{} honest deal not certified", S::NAME);
            if justify {
                return fail("not-certified", format!("{} verifier {} does not get its deal though every complaint was justified", S::NAME, i));
            }
        }
    }
    check_recovery::<S>(c, &g, &deals, Some(red(&sbytes(&g.secret)?)), g.t)
}

/// deals altered on their way, or sent to the wrong place
fn transit<S: Vss>(c: &mut Case) -> Res {
    let g = setup(&mut c.rng, 5)?;
    let d = g.dealer::<S>()?;
    let encs = ok(S::enc_all(&d), "encrypted-deals")?;
    // another dealer for the same verifiers, and the same dealer for others
    let mut g2 = Group0 { n: g.n, t: g.t, longs: g.longs.clone(), pubs: g.pubs.clone(), dlong: g.dlong.clone(), dpub: g.dpub, secret: g.secret.clone() };
    let (l2, p2) = keys(&mut c.rng, 2)?;
    g2.dlong = l2[0].clone();
    g2.dpub = p2[0];
    let d2 = g2.dealer::<S>()?;
    let enc2 = ok(S::enc_all(&d2), "encrypted-deals")?;
    let mut g3pubs = g.pubs.clone();
    let k = c.rng.below(g.n);
    g3pubs[k] = p2[1];
    let mut g3 = Group0 { n: g.n, t: g.t, longs: g.longs.clone(), pubs: g3pubs, dlong: g.dlong.clone(), dpub: g.dpub, secret: g.secret.clone() };
    g3.longs[k] = l2[1].clone();
    let enc3 = ok(S::enc_all(&g3.dealer::<S>()?), "encrypted-deals")?;
    let i = c.rng.below(g.n);
    let mut v = g.verifier::<S>(i)?;
    let rounds = if c.thorough() { 24 } else { 12 };
    let start = snap::<S>(&v);
    for _ in 0..rounds {
        let r = &mut c.rng;
        let j = r.below(g.n);
        let kind = r.below(14);
        let (e, name): (S::E, &str) = match kind {
            0 if j != i => (encs[j].clone(), "other-verifier's"),
            1 => (enc2[i].clone(), "other-dealer's"),
            2 if i != k => (enc3[i].clone(), "other-group's"),
            3 => (
                edit(&encs[i], |v| {
                    let mut s = jb(&v["signature"]);
                    flip(r, &mut s);
                    v["signature"] = js(&s);
                }),
                "signature",
            ),
            4 => (
                edit(&encs[i], |v| {
                    let s = jb(&v["signature"]);
                    let n = r.below(64);
                    v["signature"] = js(&s[..n].to_vec());
                }),
                "signature-length",
            ),
            5 => (
                edit(&encs[i], |v| {
                    let mut s = jb(&v["nonce"]);
                    flip(r, &mut s);
                    v["nonce"] = js(&s);
                }),
                "nonce",
            ),
            6 => (
                edit(&encs[i], |v| {
                    let n = *r.choose(&[0usize, 1, 11, 13, 16, 32]);
                    v["nonce"] = js(&vec![0u8; n]);
                }),
                "nonce-length",
            ),
            7 => (
                edit(&encs[i], |v| {
                    let mut s = jb(&v["cipher"]);
                    flip(r, &mut s);
                    v["cipher"] = js(&s);
                }),
                "ciphertext",
            ),
            8 => (
                edit(&encs[i], |v| {
                    let mut s = jb(&v["cipher"]);
                    if r.bool() {
                        let n = r.below(s.len());
                        s.truncate(n);
                    } else {
                        s.extend(r.bytes(3));
                    }
                    v["cipher"] = js(&s);
                }),
                "ciphertext-length",
            ),
            9 => {
                // ephemeral key of an eavesdropper
                let x = rnd_scalar32(r);
                let p = kp(&denc(&imul(&x, &dbase())))?;
                (edit(&encs[i], |v| v["dhkey"] = js(&p)), "ephemeral-key")
            }
            10 => {
                // signed by somebody else than the dealer
                let x = kp(&denc(&imul(&rnd_scalar32(r), &dbase())))?;
                let sig = ok(kyber_rs::sign::schnorr::sign(&MonSuite {}, &g2.dlong, &pbytes(&x)?), "sign")?;
                (
                    edit(&encs[i], |v| {
                        v["dhkey"] = js(&x);
                        v["signature"] = js(&sig);
                    }),
                    "ephemeral-key-signed-by-other",
                )
            }
            11 if j != i => {
                let o = js(&encs[j]);
                (edit(&encs[i], |v| v["cipher"] = o["cipher"].clone()), "swapped-ciphertext")
            }
            12 if j != i => {
                let o = js(&encs[j]);
                (
                    edit(&encs[i], |v| {
                        v["dhkey"] = o["dhkey"].clone();
                        v["signature"] = o["signature"].clone();
                    }),
                    "swapped-key",
                )
            }
            13 => {
                // low-order part added to the ephemeral key
                let jv = js(&encs[i]);
                let p: Point = unjs(jv["dhkey"].clone());
                let q = kp(&denc(&(dalek_of(&p)? + torsion(r.range(1, 7)))))?;
                (edit(&encs[i], |v| v["dhkey"] = js(&q)), "torsion-ephemeral-key")
            }
            _ => continue,
        };
        let o = nopanic("decrypt_deal", || S::open(&v, &e))?;
        ensure!(o.is_err(), format!("opened:{}", name), "{} verifier {} opened a deal with altered {}", S::NAME, i, name);
        let o = nopanic("process_deal", || S::take(&mut v, &e))?;
        ensure!(o.is_err(), format!("accepted:{}", name), "{} verifier {} answered a deal with altered {}", S::NAME, i, name);
        ensure!(start == snap::<S>(&v), "refused-deal-effect", "{} refused deal ({}) changed the verifier", S::NAME, name);
        c.ev(&format!("refused:{}", name));
        c.state(&bincode::serialize(&e).unwrap());
    }
    let r = ok(nopanic("process_deal", || S::take(&mut v, &encs[i]))?, "honest-after-refusals")?;
    ensure!(S::status(&r), "honest-after-refusals", "{} honest deal not approved after refused ones", S::NAME);
    c.ev("honest-after-refusals");
    Ok(())
}

fn params<S: Vss>(c: &mut Case) -> Res {
    let n = c.rng.range(1, 8);
    let (l, p) = keys(&mut c.rng, n + 1)?;
    for t in [0, 1, n + 1, n + 2, usize::MAX, 1usize << 32, 2, n] {
        let valid = t >= 2 && t <= n;
        let d = nopanic("new_dealer", || S::dealer(&l[n], &l[0], &p[..n], t))?;
        ensure!(d.is_ok() == valid, "dealer-threshold", "{} dealer with t={} of n={}: {:?}", S::NAME, t, n, d.err());
        c.ev(if valid { "valid-threshold" } else { "invalid-threshold" });
    }
    ensure!(nopanic("new_verifier", || S::verifier(&l[n], &p[n], &p[..n]))?.is_err(), "outsider", "{} verifier outside the list accepted", S::NAME);
    for i in 0..n {
        let v = ok(S::verifier(&l[i], &p[n], &p[..n]), "new-verifier")?;
        ensure!(S::v_index(&v) == i, "verifier-index", "verifier {} has index {}", i, S::v_index(&v));
        ensure!(!nopanic("deal_certified", || S::v_cert(&v))? && nopanic("deal", || S::v_deal(&v))?.is_none(), "early-certified", "{} certified without a deal", S::NAME);
        nopanic("session_id", || S::v_sid(&v))?;
    }
    ensure!(S::min_t(n) == (n + 1) / 2, "minimum-t", "minimum_t({})", n);
    c.state(&[n as u8, c.idx as u8, (c.idx >> 8) as u8, S::RABIN as u8]);
    // out of range deals
    if n >= 2 {
        let d = ok(S::dealer(&l[n], &l[0], &p[..n], 2), "new-dealer")?;
        for i in [n, n + 1, usize::MAX] {
            ensure!(nopanic("encrypted_deal", || S::enc(&d, i))?.is_err(), "deal-range", "deal {} of {}", i, n);
            let mut d2 = d.clone();
            ensure!(nopanic("plaintext_deal", || S::plain(&mut d2, i).is_err())?, "deal-range", "deal {} of {}", i, n);
        }
        c.ev("deal-range");
    }
    Ok(())
}

/// the Pedersen verifier can be told the threshold in advance
fn preset(c: &mut Case) -> Res {
    let n = c.rng.range(3, 7);
    let t = c.rng.range(2, n);
    let g = setup_nt(&mut c.rng, n, t)?;
    let d = g.dealer::<Ped>()?;
    let i = c.rng.below(n);
    for want in 2..=n {
        let mut v = g.verifier::<Ped>(i)?;
        nopanic("set_threshold", || v.set_threshold(want))?;
        let e = ok(Ped::enc(&d, i), "encrypted-deal")?;
        let r = nopanic("process_deal", || Ped::take(&mut v, &e))?;
        c.state(&[n as u8, t as u8, want as u8, i as u8]);
        if want == t {
            ensure!(r.map(|r| Ped::status(&r)) == Ok(true), "preset-threshold", "deal of the expected threshold refused");
            c.ev("preset-equal");
        } else {
            ensure!(r.map_or(true, |r| !Ped::status(&r)), "preset-threshold", "deal of threshold {} approved though {} was set", t, want);
            c.ev("preset-differs");
        }
    }
    Ok(())
}

pub fn run_c17(ctx: &Ctx) {
    ctx.rule("each verifier's answer equals the reference judgement of the (possibly corrupted) deal; refused deals leave the serialised verifier unchanged; recovered secrets compared with the dealt one; non-trivial = distinct deals and sessions");
    ctx.assume("participants' long-term keys are distinct and non-zero");
    ctx.family("ped-honest", ctx.n(80, 1500), honest::<Ped>);
    ctx.family("rab-honest", ctx.n(80, 1500), honest::<Rab>);
    ctx.family("ped-byzantine", ctx.n(150, 4000), byzantine::<Ped>);
    ctx.family("rab-byzantine", ctx.n(150, 4000), byzantine::<Rab>);
    ctx.family("ped-byzrun", ctx.n(80, 1500), byz_run::<Ped>);
    ctx.family("rab-byzrun", ctx.n(80, 1500), byz_run::<Rab>);
    ctx.family("ped-transit", ctx.n(80, 1500), transit::<Ped>);
    ctx.family("rab-transit", ctx.n(80, 1500), transit::<Rab>);
    ctx.family("ped-params", ctx.n(16, 64), params::<Ped>);
    ctx.family("rab-params", ctx.n(16, 64), params::<Rab>);
    ctx.family("ped-preset", ctx.n(24, 200), preset);
    ctx.require("honest-approval", 300);
    ctx.require("consistent-approved", 20);
    ctx.require("complaint:degree-understated", 5);
    ctx.require("complaint:share", 20);
    ctx.require("recovered", 200);
    ctx.require("honest-after-refusals", 100);
}

// ================================================================= C18

#[derive(Clone, Debug)]
enum Ev {
    Deal { good: bool },
    Resp { idx: u32, sid: u8, status: bool, signer: usize, tamper: bool },
    Just { idx: u32, kind: u8 },
    Timeout,
}
/// reference state machine of one participant's view
struct Model {
    rabin: bool,
    n: usize,
    t: usize,
    t_known: bool,
    me: Option<u32>,
    sid: Option<Vec<u8>>,
    have: bool,
    own_bad: bool,
    resp: BTreeMap<u32, (bool, Vec<u8>)>,
    bad: bool,
    timeout: bool,
}
impl Model {
    fn certified(&self) -> bool {
        if self.rabin && self.sid.is_none() {
            return false;
        }
        if !self.t_known {
            return false;
        }
        let app = self.resp.values().filter(|r| r.0).count();
        let comp = self.resp.values().filter(|r| !r.0).count();
        let miss = self.n - self.resp.len();
        if self.bad || app < self.t {
            return false;
        }
        if self.rabin {
            miss == 0
        } else {
            comp == 0 && if self.timeout { miss <= self.n - self.t } else { miss == 0 }
        }
    }
    fn response(&mut self, idx: u32, sid: &[u8], status: bool, genuine: bool) -> bool {
        if idx as usize >= self.n || !genuine || self.resp.contains_key(&idx) {
            return false;
        }
        match &self.sid {
            Some(s) => {
                if s.as_slice() != sid {
                    return false;
                }
            }
            None => {
                if self.rabin || sid.is_empty() {
                    return false;
                }
            }
        }
        self.resp.insert(idx, (status, sid.to_vec()));
        true
    }
}

struct World<S: Vss> {
    g: Group0,
    sid: Vec<u8>,
    other_sid: Vec<u8>,
    deals: Vec<S::Dl>,
    other: Vec<S::Dl>,
}
impl<S: Vss> World<S> {
    fn sid(&self, k: u8) -> Vec<u8> {
        match k {
            0 => self.sid.clone(),
            1 => self.other_sid.clone(),
            2 => vec![],
            _ => vec![7; 32],
        }
    }
    fn just(&self, r: &mut Rng, idx: u32, kind: u8) -> Res<S::J> {
        let i = (idx as usize).min(self.g.n - 1);
        let mut w = view::<S>(&self.deals[i])?;
        match kind {
            0 => {}
            1 => {
                let x = rnd_scalar32(r);
                w.f = x
            }
            2 => {
                // somebody else's right share
                w = view::<S>(&self.deals[(i + 1) % self.g.n])?
            }
            3 => w = view::<S>(&self.other[i])?,
            4 => w.t = self.g.t - 1,
            5 => {
                w.commits.push(w.commits[0]);
                w.sid = spec_sid(&self.g.dpub, &self.g.pubs, &w.commits, w.t)?;
            }
            _ => {
                let k = w.commits.len() - 1;
                w.commits[k] = kp(&denc(&prime_point(r)))?;
            }
        }
        make_just::<S>(&self.g.dlong, &self.sid, idx, &deal_from::<S>(&w)?)
    }
}

fn script(c: &mut Case, n: usize, me: Option<u32>) -> Vec<Ev> {
    let r = &mut c.rng;
    let mut ev = vec![];
    let complain = r.below(4);
    let drop = r.below(4);
    let justify = r.below(4);
    let mut evs: Vec<Ev> = vec![];
    let mut late: Vec<Ev> = vec![];
    for i in 0..n as u32 {
        if Some(i) == me {
            continue;
        }
        if r.below(8) < drop {
            continue;
        }
        let comp = r.below(10) < complain;
        evs.push(Ev::Resp { idx: i, sid: 0, status: !comp, signer: i as usize, tamper: false });
        if comp && r.below(4) < justify + 1 {
            late.push(Ev::Just { idx: i, kind: if r.chance(1, 6) { r.range(1, 6) as u8 } else { 0 } });
        }
    }
    r.shuffle(&mut evs);
    // hostile noise
    let noise = r.below(12);
    for _ in 0..noise {
        let idx = if r.chance(1, 8) { *r.choose(&[n as u32, n as u32 + 1, u32::MAX, 1 << 31]) } else { r.below(n) as u32 };
        let e = match r.below(7) {
            0 => Ev::Resp { idx, sid: r.range(1, 3) as u8, status: r.bool(), signer: idx as usize, tamper: false },
            1 => Ev::Resp { idx, sid: 0, status: r.bool(), signer: r.below(n + 1), tamper: false },
            2 => Ev::Resp { idx, sid: 0, status: r.bool(), signer: idx as usize, tamper: true },
            3 | 4 => Ev::Resp { idx, sid: 0, status: r.bool(), signer: idx as usize, tamper: false },
            _ => Ev::Just { idx, kind: if r.chance(2, 3) { 0 } else { r.range(1, 6) as u8 } },
        };
        let at = r.below(evs.len() + 1);
        evs.insert(at, e);
    }
    for e in late {
        let at = if r.chance(1, 4) { r.below(evs.len() + 1) } else { evs.len() };
        evs.insert(at, e);
    }
    if r.chance(2, 3) {
        let at = if r.bool() { evs.len() } else { r.below(evs.len() + 1) };
        evs.insert(at, Ev::Timeout);
    }
    if me.is_some() && !r.chance(1, 10) {
        let at = if r.bool() { 0 } else { r.below(evs.len() + 1) };
        evs.insert(at, Ev::Deal { good: !r.chance(1, 5) });
        if r.chance(1, 4) {
            let at = r.below(evs.len() + 1);
            evs.insert(at, Ev::Deal { good: r.bool() });
        }
    }
    ev.append(&mut evs);
    ev
}

fn history<S: Vss>(c: &mut Case) -> Res {
    let max = if c.thorough() { 8 } else { 6 };
    let g = setup(&mut c.rng, max)?;
    let (n, t) = (g.n, g.t);
    let mut d = g.dealer::<S>()?;
    let mut d_other = g.dealer::<S>()?;
    let deals: Vec<S::Dl> = (0..n).map(|i| S::plain(&mut d, i).unwrap().clone()).collect();
    let other: Vec<S::Dl> = (0..n).map(|i| S::plain(&mut d_other, i).unwrap().clone()).collect();
    let w = World::<S> { sid: S::d_sid(&d), other_sid: S::d_sid(&d_other), g, deals, other };
    let (dl, dp_) = keys(&mut c.rng, 1)?;
    let _ = dp_;
    let as_dealer = c.rng.chance(1, 4);
    let me = if as_dealer { None } else { Some(c.rng.below(n) as u32) };
    let mut v = match me {
        Some(i) => Some(w.g.verifier::<S>(i as usize)?),
        None => None,
    };
    let preset = !S::RABIN && me.is_some() && c.rng.chance(1, 3);
    if preset {
        if let Some(x) = v.as_mut() {
            // only the Pedersen scheme has this call
            let any: &mut dyn std::any::Any = x;
            if let Some(p) = any.downcast_mut::<<Ped as Vss>::V>() {
                p.set_threshold(t);
            }
        }
    }
    let mut m = Model {
        rabin: S::RABIN,
        n,
        t,
        t_known: as_dealer || preset,
        me,
        sid: if as_dealer { Some(w.sid.clone()) } else { None },
        have: false,
        own_bad: false,
        resp: BTreeMap::new(),
        bad: false,
        timeout: false,
    };
    let evs = script(c, n, me);
    c.log(format!("{} n={} t={} me={:?} preset={}", S::NAME, n, t, me, preset));
    let mut seen_cert = false;
    let mut trail = vec![];
    for ev in &evs {
        c.log(format!("{:?}", ev));
        let (got, want): (Result<(), String>, bool) = match ev {
            Ev::Deal { good } => {
                let i = me.unwrap() as usize;
                let dl = if *good {
                    w.deals[i].clone()
                } else {
                    let mut x = view::<S>(&w.deals[i])?;
                    x.f = rnd_scalar32(&mut c.rng);
                    deal_from::<S>(&x)?
                };
                let mut dd = d.clone();
                *S::plain(&mut dd, i).unwrap() = dl;
                let e = ok(S::enc(&dd, i), "encrypted-deal")?;
                let r = nopanic("process_deal", || S::take(v.as_mut().unwrap(), &e))?;
                let mut want = false;
                if !m.have {
                    want = true;
                    m.have = true;
                    m.sid = Some(w.sid.clone());
                    m.t_known = true;
                    m.own_bad = !*good;
                    let s = w.sid.clone();
                    m.resp.retain(|_, r| r.1 == s);
                    m.resp.insert(i as u32, (*good, s));
                }
                if let Ok(r) = &r {
                    ensure!(S::status(r) == *good, "answer", "{} deal that is {} answered with {}", S::NAME, good, S::status(r));
                }
                c.ev("deal");
                (r.map(|_| ()), want)
            }
            Ev::Resp { idx, sid, status, signer, tamper } => {
                // nobody speaks for this verifier before it has spoken
                if me == Some(*idx) && !m.have {
                    continue;
                }
                let key = if *signer < n { &w.g.longs[*signer] } else { &dl[0] };
                let s = w.sid(*sid);
                let mut r = sign_response::<S>(key, &s, *idx, *status)?;
                if *tamper {
                    r = match c.rng.below(4) {
                        0 => edit(&r, |v| {
                            let b: bool = unjs(v[S::STATUS_FIELD].clone());
                            v[S::STATUS_FIELD] = js(&!b);
                        }),
                        1 => edit(&r, |v| v["signature"] = js(&Vec::<u8>::new())),
                        2 => edit(&r, |v| {
                            let mut s = jb(&v["signature"]);
                            flip(&mut c.rng, &mut s);
                            v["signature"] = js(&s);
                        }),
                        _ => {
                            // somebody else's answer under this index
                            let o = (*idx as usize + 1) % n;
                            edit(&sign_response::<S>(&w.g.longs[o], &s, o as u32, *status)?, |v| v["index"] = js(idx))
                        }
                    };
                }
                let jv = js(&r);
                let st: bool = unjs(jv[S::STATUS_FIELD].clone());
                let genuine = (*idx as usize) < n && *signer == *idx as usize && !*tamper;
                let want = m.response(*idx, &s, st, genuine);
                let got = if as_dealer {
                    match nopanic("dealer_response", || S::d_resp(&mut d, &r))? {
                        Ok(j) => {
                            ensure!(j.is_some() != st, "justification-issued", "{} dealer: answer {} gives justification {}", S::NAME, st, j.is_some());
                            if !st {
                                // the dealer's own justification counts for itself too
                                m.resp.get_mut(idx).unwrap().0 = true;
                                let j = js(&j.unwrap());
                                let wv = view::<S>(&unjs(j["deal"].clone()))?;
                                ensure!(spec_deal_ok::<S>(&wv, *idx as usize, &w.g.dpub, &w.g.pubs, Some(t))?, "justification-content", "{} justification reveals something else than the complainer's share", S::NAME);
                                c.ev("justification-issued");
                            }
                            Ok(())
                        }
                        Err(e) => Err(e),
                    }
                } else {
                    nopanic("response", || S::v_resp(v.as_mut().unwrap(), &r))?
                };
                c.ev(if want { "response-counted" } else { "response-refused" });
                (got, want)
            }
            Ev::Just { idx, kind } => {
                if as_dealer {
                    continue;
                }
                let j = w.just(&mut c.rng, *idx, *kind)?;
                let mut want = false;
                if let Some((false, s)) = m.resp.get(idx).cloned() {
                    // kind 4 and 6 announce this session with other contents
                    let jsid = if *kind == 3 { w.other_sid.clone() } else { w.sid.clone() };
                    let about = if *kind == 5 { vec![0xff] } else { jsid };
                    if m.sid.is_none() && about != s {
                        // not about this complaint, which was not in this session
                    } else if *kind == 3 && m.sid.is_none() {
                        want = true;
                        m.resp.get_mut(idx).unwrap().0 = true;
                    } else if *kind == 0 {
                        want = true;
                        m.resp.get_mut(idx).unwrap().0 = true;
                        if me == Some(*idx) {
                            m.own_bad = false;
                        }
                    } else {
                        m.bad = true;
                    }
                }
                let got = nopanic("justification", || S::v_just(v.as_mut().unwrap(), &j))?;
                c.ev(if want { "justified" } else { "justification-refused" });
                (got, want)
            }
            Ev::Timeout => {
                m.timeout = true;
                if as_dealer {
                    S::d_timeout(&mut d)
                } else {
                    S::v_timeout(v.as_mut().unwrap())
                }
                if S::RABIN {
                    if let Some(s) = m.sid.clone() {
                        for i in 0..n as u32 {
                            m.resp.entry(i).or_insert((false, s.clone()));
                        }
                    }
                }
                c.ev("timeout");
                (Ok(()), true)
            }
        };
        ensure!(got.is_ok() == want, format!("acceptance:{}", match ev { Ev::Deal{..} => "deal", Ev::Resp{..} => "response", Ev::Just{..} => "justification", _ => "timeout" }),
            "{} {:?}: expected {}, got {:?}", S::NAME, ev, if want { "acceptance" } else { "refusal" }, got);
        let cert = if as_dealer { S::d_cert(&d) } else { nopanic("deal_certified", || S::v_cert(v.as_ref().unwrap()))? };
        ensure!(
            cert == m.certified(),
            "certification",
            "{} n={} t={}: reported {} but the history says {} (answers {:?}, bad dealer {}, timeout {})",
            S::NAME, n, t, cert, m.certified(), m.resp.iter().map(|(k, r)| (*k, r.0)).collect::<Vec<_>>(), m.bad, m.timeout
        );
        trail.push((m.resp.iter().map(|(k, r)| (*k, r.0)).collect::<Vec<_>>(), m.bad, m.timeout, m.have));
        c.ev(if cert { "certified-state" } else { "uncertified-state" });
        if as_dealer {
            let cm = S::d_commit(&d);
            ensure!(cm.is_some() == cert, "secret-commit", "secret commitment {} while certified={}", cm.is_some(), cert);
            // in the Rabin scheme the commitments hide the secret until then
            let cs = S::d_commits(&d);
            ensure!(cs.is_some() == (cert || !S::RABIN), "commits-shown", "{} commitments shown: {}, certified={}", S::NAME, cs.is_some(), cert);
            if let Some(cs) = cs {
                ensure!(cs.len() == t, "commits-shown", "{} commitments for threshold {}", cs.len(), t);
                ensure!(dalek_of(&cs[0])? == imul(&sbytes(&w.g.secret)?, &dbase()), "commits-shown", "first commitment is not the one of the secret");
                if let Some(cm) = cm {
                    ensure!(cm == cs[0], "secret-commit", "secret commitment differs from the first commitment");
                }
                c.ev("commits-shown");
            }
        } else {
            let dl = nopanic("deal", || S::v_deal(v.as_ref().unwrap()))?;
            let own_ok = me.map_or(false, |i| m.resp.get(&i).map_or(!S::RABIN, |r| r.0));
            let exp = cert && m.have && own_ok && !m.own_bad;
            ensure!(dl.is_some() == exp, "deal-returned", "{} deal returned: {}, certified {}, held {}, own share bad {}", S::NAME, dl.is_some(), cert, m.have, m.own_bad);
            // the recorded answers, where the scheme shows them
            let any: &dyn std::any::Any = v.as_ref().unwrap();
            if let Some(p) = any.downcast_ref::<<Ped as Vss>::V>() {
                let miss = nopanic("missing_responses", || p.missing_responses())?;
                let want: Vec<usize> = (0..n).filter(|i| !m.resp.contains_key(&(*i as u32))).collect();
                ensure!(miss == want, "missing-responses", "missing answers {:?} but {:?} are", miss, want);
                let got: BTreeMap<u32, bool> = p.responses().iter().map(|(k, r)| (*k, r.status)).collect();
                let want: BTreeMap<u32, bool> = m.resp.iter().map(|(k, r)| (*k, r.0)).collect();
                ensure!(got == want, "recorded-answers", "answers recorded {:?} but {:?} were given", got, want);
                ensure!(S::v_sid(v.as_ref().unwrap()) == m.sid.clone().unwrap_or_default(), "session", "session id without, or other than the one of, the deal");
                c.ev("answers-shown");
            }
            if let Some(dl) = dl {
                let wv = view::<S>(&dl)?;
                ensure!(spec_deal_ok::<S>(&wv, me.unwrap() as usize, &w.g.dpub, &w.g.pubs, Some(t))?, "deal-content", "{} certified deal is inconsistent", S::NAME);
                c.ev("certified-deal");
            }
        }
        if seen_cert && !cert {
            c.ev("certification-withdrawn");
        }
        seen_cert |= cert;
    }
    let _ = m.me;
    c.state(format!("{}{}{}{:?}{:?}", S::NAME, n, t, me, trail).as_bytes());
    Ok(())
}

/// a justification nobody's dealer signed: the library does not check the
/// signature (and its tests require that an altered one condemns the dealer)
fn forged_just<S: Vss>(c: &mut Case) -> Res {
    let g = setup_nt(&mut c.rng, 4, 3)?;
    let mut d = g.dealer::<S>()?;
    let mut v = g.verifier::<S>(0)?;
    let e = ok(S::enc(&d, 0), "enc")?;
    ok(S::take(&mut v, &e), "take")?;
    // a genuine complaint of verifier 1
    let r = sign_response::<S>(&g.longs[1], &S::d_sid(&d), 1, false)?;
    ok(S::v_resp(&mut v, &r), "resp")?;
    let mut w = view::<S>(S::plain(&mut d, 1).unwrap())?;
    let good = deal_from::<S>(&w)?;
    w.f = rnd_scalar32(&mut c.rng);
    // signed by verifier 1, not by the dealer
    let j = make_just::<S>(&g.longs[1], &S::d_sid(&d), 1, &deal_from::<S>(&w)?)?;
    let _ = nopanic("justification", || S::v_just(&mut v, &j))?;
    for i in 2..4 {
        let r = sign_response::<S>(&g.longs[i], &S::d_sid(&d), i as u32, true)?;
        ok(S::v_resp(&mut v, &r), "resp")?;
    }
    let j = make_just::<S>(&g.dlong, &S::d_sid(&d), 1, &good)?;
    let _ = nopanic("justification", || S::v_just(&mut v, &j))?;
    c.ev("forged-probe");
    c.state(&S::d_sid(&d));
    ensure!(S::v_cert(&v), format!("forged-justification:{}", S::NAME), "a justification not signed by the dealer condemned it ({})", S::NAME);
    Ok(())
}

pub fn run_c18(ctx: &Ctx) {
    ctx.rule("acceptance of every event, certification status and returned deal compared with a reference state machine after every event; non-trivial = distinct (configuration, trajectory) pairs");
    ctx.assume("nobody else holds this verifier's key; a verifier that never received its deal cannot tell sessions apart");
    ctx.family("ped-history", ctx.n(700, 20000), history::<Ped>);
    ctx.family("rab-history", ctx.n(700, 20000), history::<Rab>);
    ctx.family("ped-forged", 1, forged_just::<Ped>);
    ctx.family("rab-forged", 1, forged_just::<Rab>);
    ctx.require("certified-state", 300);
    ctx.require("response-refused", 500);
    ctx.require("justified", 50);
    ctx.require("justification-refused", 100);
    ctx.require("certified-deal", 100);
}

// ================================================================= C19

fn matrix<S: Vss>(c: &mut Case) -> Res {
    let g = setup(&mut c.rng, 6)?;
    let mut d = g.dealer::<S>()?;
    let vs = g.verifiers::<S>()?;
    // verifiers with another idea of the group or dealer
    let (l2, p2) = keys(&mut c.rng, 1)?;
    let mut perm: Vec<usize> = (0..g.n).collect();
    c.rng.shuffle(&mut perm);
    let pperm: Vec<Point> = perm.iter().map(|i| g.pubs[*i]).collect();
    let same = perm.windows(2).all(|w| w[0] < w[1]);
    let encs = ok(S::enc_all(&d), "enc")?;
    for i in 0..g.n {
        let plain = S::plain(&mut d, i).unwrap().clone();
        for (j, v) in vs.iter().enumerate() {
            let o = nopanic("decrypt_deal", || S::open(v, &encs[i]))?;
            if i == j {
                ensure!(o.as_ref() == Ok(&plain), "addressee", "{} verifier {} cannot open its own deal: {:?}", S::NAME, i, o.err());
                c.ev("opened-by-addressee");
            } else {
                ensure!(o.is_err(), "opened-by-other", "{} verifier {} opened the deal of {}", S::NAME, j, i);
                c.ev("closed-to-others");
            }
        }
        let wrong_dealer = ok(S::verifier(&g.longs[i], &p2[0], &g.pubs), "new-verifier")?;
        ensure!(nopanic("decrypt_deal", || S::open(&wrong_dealer, &encs[i]))?.is_err(), "other-dealer", "{} deal opened by a verifier expecting another dealer", S::NAME);
        if !same {
            let wrong_group = ok(S::verifier(&g.longs[i], &g.dpub, &pperm), "new-verifier")?;
            ensure!(nopanic("decrypt_deal", || S::open(&wrong_group, &encs[i]))?.is_err(), "other-group", "{} deal opened by a verifier of a reordered group", S::NAME);
            c.ev("closed-to-other-group");
        }
        let mut more = g.pubs.clone();
        more.push(p2[0]);
        let wrong_group = ok(S::verifier(&g.longs[i], &g.dpub, &more), "new-verifier")?;
        ensure!(nopanic("decrypt_deal", || S::open(&wrong_group, &encs[i]))?.is_err(), "other-group", "{} deal opened by a verifier of a larger group", S::NAME);
        // the dealer itself cannot be impersonated
        let fake = Group0 { n: g.n, t: g.t, longs: g.longs.clone(), pubs: g.pubs.clone(), dlong: l2[0].clone(), dpub: g.dpub, secret: g.secret.clone() };
        let fd = ok(S::dealer(&fake.dlong, &fake.secret, &fake.pubs, fake.t), "dealer")?;
        let fe = ok(S::enc(&fd, i), "enc")?;
        ensure!(nopanic("decrypt_deal", || S::open(&vs[i], &fe))?.is_err(), "impersonated-dealer", "{} deal of another dealer opened", S::NAME);
        c.ev("impersonation-refused");
    }
    c.state(&S::d_sid(&d));
    // confidentiality of the wire form
    for i in 0..g.n {
        let wire = bincode::serialize(&encs[i]).unwrap();
        let w = view::<S>(S::plain(&mut d, i).unwrap())?;
        for s in [&w.f, &w.g, &sbytes(&g.secret)?, &sbytes(&g.dlong)?] {
            if s.iter().filter(|b| **b != 0).count() < 8 {
                continue;
            }
            ensure!(!wire.windows(16).any(|x| x == &s[..16]), "secret-on-wire", "{} a secret appears in the encrypted deal", S::NAME);
            c.ev("wire-clean");
        }
    }
    Ok(())
}

/// repeated encryption: fresh ephemeral keys, signed by the dealer
fn fresh<S: Vss>(c: &mut Case) -> Res {
    let g = setup(&mut c.rng, 5)?;
    let d = g.dealer::<S>()?;
    let mut seen = std::collections::HashSet::new();
    let mut boxes = std::collections::HashSet::new();
    for round in 0..3 {
        let encs = if round == 0 { ok(S::enc_all(&d), "enc")? } else { (0..g.n).map(|i| S::enc(&d, i)).collect::<Result<Vec<_>, _>>().map_err(|e| Fail { key: "enc".into(), msg: e })? };
        for (i, e) in encs.iter().enumerate() {
            let j = js(e);
            let p: Point = unjs(j["dhkey"].clone());
            let pb = pbytes(&p)?;
            ensure!(seen.insert(pb), "ephemeral-reuse", "{} ephemeral key reused (round {}, verifier {})", S::NAME, round, i);
            ensure!(!dalek_of(&p)?.is_small_order(), "ephemeral-trivial", "{} ephemeral key of small order", S::NAME);
            ensure!(spec_verify(&pbytes(&g.dpub)?, &pb, &jb(&j["signature"])).is_ok(), "ephemeral-signature", "{} ephemeral key not signed by the dealer", S::NAME);
            ensure!(boxes.insert(jb(&j["cipher"])), "ciphertext-reuse", "{} identical ciphertexts", S::NAME);
            for q in &g.pubs {
                ensure!(pbytes(q)? != pb, "ephemeral-is-longterm", "ephemeral key is a long-term key");
            }
            c.ev("fresh-key");
            c.state(&pb);
        }
    }
    Ok(())
}

/// every field of an answer or justification is covered by its signature
fn bound<S: Vss>(c: &mut Case) -> Res {
    let g = setup(&mut c.rng, 5)?;
    let mut d = g.dealer::<S>()?;
    let i = c.rng.below(g.n);
    let bad = c.rng.bool();
    let honest = S::plain(&mut d, i).unwrap().clone();
    if bad {
        let mut w = view::<S>(&honest)?;
        w.f = rnd_scalar32(&mut c.rng);
        *S::plain(&mut d, i).unwrap() = deal_from::<S>(&w)?;
    }
    let mut v = g.verifier::<S>(i)?;
    let e = ok(S::enc(&d, i), "enc")?;
    *S::plain(&mut d, i).unwrap() = honest;
    let r = ok(nopanic("process_deal", || S::take(&mut v, &e))?, "process-deal")?;
    check_response::<S>(&g, &r, i)?;
    ensure!(S::status(&r) != bad, "answer", "wrong answer");
    let rj = js(&r);
    let sig = jb(&rj["signature"]);
    let pk = pbytes(&g.pubs[i])?;
    // reader: another verifier, or the dealer
    let o = (i + 1) % g.n;
    let mut reader = g.verifier::<S>(o)?;
    let e = ok(S::enc(&d, o), "enc")?;
    ok(nopanic("process_deal", || S::take(&mut reader, &e))?, "process-deal")?;
    let base_v = snap::<S>(&reader);
    let base_d = js(&d);
    for k in 0..6 {
        let rng = &mut c.rng;
        let (x, name) = match k {
            0 => (edit(&r, |v| {
                let b: bool = unjs(v[S::STATUS_FIELD].clone());
                v[S::STATUS_FIELD] = js(&!b);
            }), "status"),
            1 => (edit(&r, |v| {
                let mut s = jb(&v["session_id"]);
                flip(rng, &mut s);
                v["session_id"] = js(&s);
            }), "session"),
            2 => (edit(&r, |v| {
                let mut q = rng.below(g.n);
                if q == i {
                    q = (q + 1) % g.n
                }
                v["index"] = js(&(q as u32));
            }), "index"),
            3 => (edit(&r, |v| {
                let mut s = jb(&v["signature"]);
                flip(rng, &mut s);
                v["signature"] = js(&s);
            }), "signature"),
            4 => (edit(&r, |v| v["signature"] = js(&Vec::<u8>::new())), "no-signature"),
            _ => {
                // signed by the dealer or a peer instead
                let key = if rng.bool() { &g.dlong } else { &g.longs[o] };
                if pbytes(&kp(&denc(&imul(&sbytes(key)?, &dbase())))?)? == pk {
                    continue;
                }
                (sign_response::<S>(key, &jb(&rj["session_id"]), i as u32, S::status(&r))?, "signer")
            }
        };
        if k < 3 {
            ensure!(spec_verify(&pk, &S::r_hash(&x), &sig).is_err(), format!("unbound:{}", name), "{} the signature of an answer does not cover its {}", S::NAME, name);
        }
        ensure!(nopanic("response", || S::v_resp(&mut reader, &x))?.is_err(), format!("accepted:{}", name), "{} verifier accepted an answer with altered {}", S::NAME, name);
        ensure!(nopanic("dealer_response", || S::d_resp(&mut d, &x))?.is_err(), format!("accepted:{}", name), "{} dealer accepted an answer with altered {}", S::NAME, name);
        ensure!(base_v == snap::<S>(&reader) && base_d == js(&d), "refused-effect", "{} a refused answer changed the reader", S::NAME);
        c.ev(&format!("refused:{}", name));
    }
    ok(nopanic("response", || S::v_resp(&mut reader, &r))?, "genuine-response")?;
    let j = ok(nopanic("dealer_response", || S::d_resp(&mut d, &r))?, "genuine-response")?;
    ensure!(j.is_some() == bad, "justification-issued", "justification {} for status {}", j.is_some(), !bad);
    if let Some(j) = j {
        let v = js(&j);
        let dl: S::Dl = unjs(v["deal"].clone());
        let idx: u32 = unjs(v["index"].clone());
        ensure!(idx as usize == i, "justification-index", "justification for {} instead of {}", idx, i);
        let h = spec_just_hash::<S>(&jb(&v["session_id"]), idx, &dl);
        ensure!(spec_verify(&pbytes(&g.dpub)?, &h, &jb(&v["signature"])).is_ok(), "justification-signature", "{} justification signature does not verify", S::NAME);
        ensure!(jb(&v["session_id"]) == S::d_sid(&d), "justification-session", "justification of another session");
        c.ev("justification-signed");
    }
    c.state(&sig);
    Ok(())
}

/// groups which differ in a single member, in any position, are other groups
fn members<S: Vss>(c: &mut Case) -> Res {
    let most = if c.rng.chance(1, 4) { 40 } else { 14 };
    let n = c.rng.range(3, most);
    let t = c.rng.range(2, n);
    let g = setup_nt(&mut c.rng, n, t)?;
    let mut d = g.dealer::<S>()?;
    let i = c.rng.below(n);
    let e = ok(S::enc(&d, i), "enc")?;
    let plain = S::plain(&mut d, i).unwrap().clone();
    let v = g.verifier::<S>(i)?;
    ensure!(nopanic("decrypt_deal", || S::open(&v, &e))?.as_ref() == Ok(&plain), "addressee", "{} verifier {} of {} cannot open its own deal", S::NAME, i, n);
    let (_, other) = keys(&mut c.rng, 1)?;
    for p in 0..n {
        if p == i {
            continue;
        }
        let mut pubs = g.pubs.clone();
        let how = match c.rng.below(4) {
            0 => {
                pubs.remove(p);
                "without"
            }
            1 => {
                // another member in twice
                let q = (p + 1) % n;
                pubs[p] = g.pubs[if q == i { (q + 1) % n } else { q }];
                "with a repeated member instead of"
            }
            2 if p != (i + 1) % n => {
                pubs.swap(p, (i + 1) % n);
                "with another place for"
            }
            _ => {
                pubs[p] = other[0];
                "with another member instead of"
            }
        };
        if pubs == g.pubs || pubs.len() < 2 {
            continue;
        }
        let v = ok(S::verifier(&g.longs[i], &g.dpub, &pubs), "new-verifier")?;
        ensure!(nopanic("decrypt_deal", || S::open(&v, &e))?.is_err(), "other-group", "{} deal for {} of {} opened by a verifier of a group {} member {}", S::NAME, i, n, how, p);
        c.ev("closed-to-neighbour-group");
    }
    c.state(&S::d_sid(&d));
    Ok(())
}

pub fn run_c19(ctx: &Ctx) {
    ctx.rule("full cross-delivery matrix of encrypted deals, all transport fields altered, answers verified with an independent verifier; non-trivial = distinct ephemeral keys, sessions and signatures");
    ctx.assume("independent implementation of the signature equation (curve25519-dalek) for signatures");
    ctx.family("ped-matrix", ctx.n(50, 1200), matrix::<Ped>);
    ctx.family("rab-matrix", ctx.n(50, 1200), matrix::<Rab>);
    ctx.family("ped-fresh", ctx.n(50, 1200), fresh::<Ped>);
    ctx.family("rab-fresh", ctx.n(50, 1200), fresh::<Rab>);
    ctx.family("ped-bound", ctx.n(120, 3000), bound::<Ped>);
    ctx.family("rab-bound", ctx.n(120, 3000), bound::<Rab>);
    ctx.family("ped-transit", ctx.n(60, 1500), transit::<Ped>);
    ctx.family("rab-transit", ctx.n(60, 1500), transit::<Rab>);
    ctx.family("ped-members", ctx.n(40, 1200), members::<Ped>);
    ctx.family("rab-members", ctx.n(40, 1200), members::<Rab>);
    ctx.require("closed-to-others", 300);
    ctx.require("closed-to-neighbour-group", 300);
    ctx.require("fresh-key", 300);
    ctx.require("justification-signed", 50);
    ctx.require("refused:status", 100);
}
