//! C25 saving and restoring at any point.
use crate::c_dss::{by_hand, dss_of, Keys, Mk, Own, Ps};
use crate::c_sig::message;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::{self, fresh_spec, make_old, reshare_spec};
use crate::sim_rab;
use crate::suite::{seed_thread, MonSuite, MonStream};
use crate::vss::*;
use core::fmt::Debug;
use kyber_rs::encoding::{self, BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::share::poly::{self, PriShare, PubPoly, PubShare};
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::sign::schnorr;
use kyber_rs::util::key::{new_key_pair, Pair};
use kyber_rs::{Group, Point as _, Scalar as _};
use serde::{de::DeserializeOwned, Serialize};

const WAYS: usize = 5;
/// write down and read back, in one of the usual ways
fn through<T: Serialize + DeserializeOwned>(way: usize, t: &T) -> Res<T> {
    match way {
        0 => {
            let s = ok(nopanic("encode", || serde_json::to_string(t))?, "encode-json")?;
            ok(nopanic("decode", || serde_json::from_str(&s))?, "decode-json")
        }
        1 => {
            let s = ok(nopanic("encode", || serde_json::to_value(t))?, "encode-json")?;
            ok(nopanic("decode", || serde_json::from_value(s))?, "decode-json")
        }
        2 => {
            let s = ok(nopanic("encode", || serde_json::to_vec_pretty(t))?, "encode-json")?;
            ok(nopanic("decode", || serde_json::from_reader(&s[..]))?, "decode-json")
        }
        3 => {
            let s = ok(nopanic("encode", || encoding::marshal_binary(t))?, "encode-binary")?;
            ok(nopanic("decode", || bincode::deserialize(&s))?, "decode-binary")
        }
        _ => {
            let s = ok(nopanic("encode", || bincode::serialize(t))?, "encode-binary")?;
            let mut r = std::io::Cursor::new(s);
            ok(nopanic("decode", || bincode::deserialize_from(&mut r))?, "decode-binary")
        }
    }
}
fn same<T: Serialize>(what: &str, a: &T, b: &T) -> Res {
    ensure!(js(a) == js(b), &format!("not-the-same:{}", what), "{} differs after being restored", what);
    Ok(())
}
fn save<T: Serialize + DeserializeOwned + PartialEq>(c: &mut Case, r: &mut Rng, what: &str, t: &T) -> Res<T> {
    let x = through(r.below(WAYS), t)?;
    ensure!(x == *t, &format!("not-equal:{}", what), "{} is not equal to itself after being restored", what);
    same(what, t, &x)?;
    c.ev("restored");
    c.ev(&format!("restored-{}", what));
    Ok(x)
}
/// for types that do not compare
fn save0<T: Serialize + DeserializeOwned>(c: &mut Case, r: &mut Rng, what: &str, t: &T) -> Res<T> {
    let x = through(r.below(WAYS), t)?;
    same(what, t, &x)?;
    c.ev("restored");
    c.ev(&format!("restored-{}", what));
    Ok(x)
}

// ------------------------------------------------------------------- values

fn values(c: &mut Case) -> Res {
    let mut r = Rng::from_label(&format!("save/{}", c.rng.u64()));
    let su = MonSuite {};
    let r = &mut r;
    // group elements, in whatever representation the arithmetic left them
    let (e, _) = nasty_point(&mut c.rng);
    let p = kp(&denc(&e))?;
    let k = ks(&nasty255(&mut c.rng))?;
    let q = Point::default().mul(&k, Some(&p));
    let s = Point::default().add(&p, &q);
    let d = Point::default().sub(&s, &q);
    let id = Point::default().null();
    for x in [p, q, s, d, id, Point::default().neg(&p), Point::default().base()] {
        let y = save(c, r, "point", &x)?;
        ensure!(pbytes(&x)? == pbytes(&y)?, "point-bytes", "encoding changed");
        ensure!(Point::default().add(&y, &p) == Point::default().add(&x, &p), "point-use", "sum differs");
        ensure!(Point::default().mul(&k, Some(&y)) == Point::default().mul(&k, Some(&x)), "point-use", "product differs");
    }
    let raw: [u8; 32] = nasty32(&mut c.rng);
    let a = Scalar { v: raw };
    let b = ks(&red(&raw))?;
    for x in [a, b.clone(), b.clone() * b.clone(), Scalar::default(), Scalar::default().one()] {
        let y = save(c, r, "scalar", &x)?;
        ensure!(y.v == x.v, "scalar-bytes", "bytes changed");
        ensure!(y.clone() + b.clone() == x.clone() + b.clone(), "scalar-use", "sum differs");
    }
    // integers
    let ml = c.rng.range(1, 40);
    let m = loop {
        let m = c.rng.bytes(ml);
        if m.iter().any(|x| *x > 1) {
            break m;
        }
    };
    let vl = c.rng.range(0, 60);
    let v = c.rng.bytes(vl);
    let bo = if c.rng.bool() { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
    let m = num_bigint_dig::BigInt::from_bytes_be(num_bigint_dig::Sign::Plus, &m);
    let i = Int::new_int_bytes(&v, &m, bo);
    let i2 = i.clone() * i.clone();
    for x in [i.clone(), i2] {
        let y = save(c, r, "int", &x)?;
        ensure!(y.marshal_binary().ok() == x.marshal_binary().ok(), "int-bytes", "encoding changed");
        ensure!(y.clone() + i.clone() == x.clone() + i.clone(), "int-use", "sum differs");
        ensure!(y.to_string() == x.to_string() && y.bo == x.bo, "int-fields", "fields changed");
    }
    // shares and polynomials
    let t = c.rng.range(1, 6);
    let secret = if c.rng.bool() { Some(b.clone()) } else { None };
    let pp = poly::new_pri_poly(su, t, secret, MonStream::open());
    let pp2 = save(c, r, "pri-poly", &pp)?;
    let at = *c.rng.choose(&[0usize, 1, 7, 1000, 1 << 40]);
    let sh = pp.eval(at);
    ensure!(pp2.eval(at) == sh && pp2.secret() == pp.secret() && pp2.threshold() == t, "pri-poly-use", "evaluates differently");
    let sh2 = save(c, r, "pri-share", &sh)?;
    let base = match c.rng.below(3) {
        0 => None,
        1 => Some(Point::default().base()),
        _ => Some(kp(&denc(&prime_point(&mut c.rng)))?),
    };
    let pb = pp.commit(base.as_ref());
    let pb2: PubPoly<MonSuite> = save(c, r, "pub-poly", &pb)?;
    ensure!(pb2.check(&sh2) && pb2.eval(at) == pb.eval(at) && pb2.commit() == pb.commit() && pb2.info() == pb.info(), "pub-poly-use", "evaluates differently");
    let e = pb.eval(at);
    let e2: PubShare<Point> = save(c, r, "pub-share", &e)?;
    ensure!(ok(e2.hash(su), "hash")? == ok(e.hash(su), "hash")?, "pub-share-use", "hash differs");
    let other = poly::new_pri_poly(su, t, None, MonStream::open());
    ensure!(ok(pp2.add(&other), "add")? == ok(pp.add(&other), "add")?, "pri-poly-use", "sum differs");
    ensure!(ok(pb2.equal(&pb), "equal")?, "pub-poly-use", "not equal");
    // keys
    let kp_: Pair<Point> = ok(new_key_pair(&su), "key-pair")?;
    let kp2 = save(c, r, "key-pair", &kp_)?;
    let m = message(&mut c.rng);
    let sig = ok(schnorr::sign(&su, &kp2.private, &m), "sign")?;
    ok(schnorr::verify(su, &kp_.public, &m, &sig), "restored-key-pair")?;
    let ed = ok(EdDSA::<Curve>::new(&mut MonStream::open()), "eddsa")?;
    let from_pair = EdDSA::<Curve>::from(kp2);
    for x in [ed, from_pair] {
        let y = save(c, r, "eddsa", &x)?;
        ensure!(ok(x.sign(&m), "sign")? == ok(y.sign(&m), "sign")?, "eddsa-use", "restored key signs differently");
        if x.seed.len() == 32 {
            let b = ok(x.marshal_binary(), "eddsa-export")?;
            ensure!(ok(y.marshal_binary(), "eddsa-export")? == b, "eddsa-use", "export differs");
            let mut z = EdDSA::<Curve>::default();
            ok(z.unmarshal_binary(&b), "eddsa-import")?;
            ensure!(z == x, "eddsa-import", "imported key differs");
        }
    }
    let su2: SuiteEd25519 = save0(c, r, "suite", &SuiteEd25519::new_blake3_sha256_ed25519())?;
    ensure!(su2.point().base() == su.point().base(), "suite-use", "another suite");
    save0(c, r, "curve", &Curve::new())?;
    for x in [ByteOrder::LittleEndian, ByteOrder::BigEndian] {
        save(c, r, "byte-order", &x)?;
    }
    c.state(&raw);
    Ok(())
}

// ------------------------------------------------------------------ lockstep

/// the same run with and without interruptions; `f` is a pure function of the
/// case randomness and the suite stream
fn lockstep<T: PartialEq + Debug>(c: &mut Case, what: &str, f: impl Fn(&mut Case, Option<&mut Rng>) -> Res<T>) -> Res {
    let label = format!("save/{}/{}", what, c.rng.u64());
    let start = c.rng.clone();
    seed_thread(&label);
    let a = f(c, None)?;
    c.rng = start;
    seed_thread(&label);
    let mut r = Rng::from_label(&label);
    let b = match f(c, Some(&mut r)) {
        Ok(b) => b,
        // a failure of the uninterrupted run is reported as such above
        Err(e) => return fail(format!("interrupted:{}", e.key), format!("only when saved and restored: {}", e.msg)),
    };
    if a != b {
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        let at = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
        return fail(format!("diverged:{}", what), format!("outputs differ from the uninterrupted run at {} of {}", at, x.len()));
    }
    c.state(&bincode::serialize(&format!("{:?}", b)).unwrap());
    c.ev("runs-compared");
    Ok(())
}
fn now(r: &mut Option<&mut Rng>) -> bool {
    match r {
        Some(r) => r.chance(1, 2),
        None => false,
    }
}

fn vss_run<S: Vss>(c: &mut Case, mut sv: Option<&mut Rng>) -> Res<Vec<String>> {
    let max = if c.thorough() { 7 } else { 5 };
    let g = setup(&mut c.rng, max)?;
    let n = g.n;
    let mut out: Vec<String> = vec![];
    let mut d = g.dealer::<S>()?;
    let mut vs = g.verifiers::<S>()?;
    macro_rules! sd {
        () => {
            if now(&mut sv) {
                d = save(c, sv.as_mut().unwrap(), "dealer", &d)?;
            }
        };
    }
    macro_rules! sv {
        ($i:expr) => {
            if now(&mut sv) {
                vs[$i] = save(c, sv.as_mut().unwrap(), "verifier", &vs[$i])?;
            }
        };
    }
    macro_rules! msg {
        ($w:expr, $m:expr) => {
            if now(&mut sv) {
                $m = save(c, sv.as_mut().unwrap(), $w, &$m)?;
            }
        };
    }
    sd!();
    for i in 0..n {
        sv!(i);
    }
    // some get a bad deal, some of those after a good one, some none
    let mut todo: Vec<(usize, u8)> = vec![];
    for i in 0..n {
        todo.push((i, *c.rng.choose(&[0, 0, 0, 0, 1, 2])));
    }
    c.rng.shuffle(&mut todo);
    let mut rs = vec![];
    for (i, how) in todo {
        sd!();
        let mut e = match how {
            1 => {
                let mut d2 = d.clone();
                let pl = ok(S::plain(&mut d2, i), "plain")?;
                let mut w = view::<S>(pl)?;
                w.f[0] ^= 1;
                *pl = deal_from::<S>(&w)?;
                ok(S::enc(&d2, i), "enc")?
            }
            2 => continue,
            _ => ok(nopanic("encrypted_deal", || S::enc(&d, i))?, "enc")?,
        };
        out.push(js(&e).to_string());
        msg!("encrypted-deal", e);
        sv!(i);
        let mut r = nopanic("process_encrypted_deal", || S::take(&mut vs[i], &e))?;
        sv!(i);
        out.push(format!("{:?}", r.as_ref().map(js)));
        if let Ok(r) = r.as_mut() {
            msg!("response", *r);
            rs.push((i, r.clone()));
        }
        // a second delivery
        if c.rng.chance(1, 4) {
            out.push(format!("{:?}", S::take(&mut vs[i], &e).is_ok()));
            sv!(i);
        }
    }
    let mut dv: Vec<(usize, usize)> = vec![];
    for k in 0..rs.len() {
        for to in 0..=n {
            if to != rs[k].0 {
                dv.push((k, to));
            }
        }
    }
    c.rng.shuffle(&mut dv);
    let mut jq: Vec<(usize, S::J)> = vec![];
    for (k, to) in dv {
        let r = &rs[k].1;
        if to == n {
            sd!();
            let j = S::d_resp(&mut d, r);
            sd!();
            out.push(format!("{:?}", j.as_ref().map(js)));
            if let Ok(Some(mut j)) = j {
                msg!("justification", j);
                for i in 0..n {
                    jq.push((i, j.clone()));
                }
            }
        } else {
            sv!(to);
            out.push(format!("{:?}", S::v_resp(&mut vs[to], r)));
        }
        if !jq.is_empty() && c.rng.chance(1, 3) {
            let x = c.rng.below(jq.len());
            let (i, j) = jq.swap_remove(x);
            out.push(format!("{:?}", S::v_just(&mut vs[i], &j)));
            sv!(i);
        }
        if c.rng.chance(1, 4) {
            let i = c.rng.below(n);
            out.push(format!("{} {} {}", S::v_cert(&vs[i]), S::d_cert(&d), S::v_deal(&vs[i]).is_some()));
        }
    }
    while !jq.is_empty() {
        let x = c.rng.below(jq.len());
        let (i, j) = jq.swap_remove(x);
        sv!(i);
        out.push(format!("{:?}", S::v_just(&mut vs[i], &j)));
    }
    for step in 0..2 {
        sd!();
        out.push(format!("{} {:?} {}", S::d_cert(&d), S::d_commit(&d).map(|p| js(&p)), hex::encode(S::d_sid(&d))));
        let mut deals = vec![];
        for i in 0..n {
            sv!(i);
            let v = &vs[i];
            let dl = S::v_deal(v);
            out.push(format!("{} {} {} {:?}", S::v_cert(v), S::v_index(v), hex::encode(S::v_sid(v)), dl.as_ref().map(js)));
            if let Some(mut dl) = dl {
                msg!("deal", dl);
                deals.push(dl);
            }
        }
        out.push(format!("{:?}", nopanic("recover_secret", || S::recover(deals, n, g.t))?.map(|s| s.v)));
        if step == 0 {
            S::d_timeout(&mut d);
            for v in vs.iter_mut() {
                S::v_timeout(v);
            }
        }
    }
    Ok(out)
}

/// the values, whatever the representation of the points (sums over hash maps)
fn shown(commits: &[Point], s: &PriShare<Scalar>) -> Res<String> {
    let mut b = vec![];
    for p in commits {
        b.push(hex::encode(pbytes(p)?));
    }
    Ok(format!("{} {} {:?}", s.i, hex::encode(s.v.v), b))
}
fn ped_run(c: &mut Case, mut sv: Option<&mut Rng>, reshare: bool) -> Res<(Vec<u8>, Vec<String>)> {
    let max = if c.thorough() { 7 } else { 5 };
    let spec = if reshare {
        let n = c.rng.range(2, 5);
        let t = c.rng.range(1, n);
        let (longs, pubs) = keys(&mut c.rng, n)?;
        let old = make_old(&mut c.rng, n, t)?;
        reshare_spec(&mut c.rng, old, longs, pubs, max)?
    } else {
        fresh_spec(&mut c.rng, max)?
    };
    let mut sim = sim_ped::Sim::new(c, spec)?;
    if let Some(r) = sv.as_deref_mut() {
        for p in sim.parties.iter_mut() {
            if !p.byz {
                p.dkg = save(c, r, "dkg", &p.dkg)?;
                if let Some(s) = &p.share {
                    p.share = Some(save(c, r, "dkg-share", s)?);
                }
            }
        }
        // how often, by run
        let often = *r.choose(&[1u64, 2, 8]);
        let mut h = |c: &mut Case, p: &mut sim_ped::Party, e: Option<&sim_ped::Ev>| -> Res {
            if let Some(e) = e {
                match &e.body {
                    sim_ped::Body::Deal(d) => drop(save0(c, r, "dkg-deal", d)?),
                    sim_ped::Body::Resp(_, _, x) => drop(save(c, r, "dkg-response", x)?),
                    sim_ped::Body::Just(_, x) => drop(save(c, r, "dkg-justification", x)?),
                    _ => (),
                }
            }
            if r.chance(1, often) {
                p.dkg = save(c, r, "dkg", &p.dkg)?;
            }
            Ok(())
        };
        sim.run(c, Some(&mut h))?;
    } else {
        sim.run(c, None)?;
    }
    let mut o = vec![];
    for s in &sim.outputs {
        let s = match (s, sv.as_deref_mut()) {
            (Some(s), Some(r)) => Some(save(c, r, "dkg-share", s)?),
            (s, _) => s.clone(),
        };
        o.push(match s {
            Some(s) => {
                let pp: Vec<_> = s.private_poly.iter().map(|x| x.v).collect();
                format!("{:?} {:?}", shown(&s.commits, &s.share)?, pp)
            }
            None => "none".into(),
        });
    }
    Ok((sim.transcript, o))
}
fn rab_run(c: &mut Case, sv: Option<&mut Rng>) -> Res<(Vec<u8>, Vec<String>)> {
    let max = if c.thorough() { 7 } else { 5 };
    let mut sim = sim_rab::Sim::new(c, max, true)?;
    let saving = sv.is_some();
    let mut none = Rng::from_label("");
    let r = sv.unwrap_or(&mut none);
    if saving {
        for p in sim.parties.iter_mut() {
            if !p.byz {
                p.dkg = save(c, r, "rabin-dkg", &p.dkg)?;
            }
        }
        let often = *r.choose(&[1u64, 2, 8]);
        let mut h = |c: &mut Case, _: usize, p: &mut sim_rab::Party, e: Option<&sim_rab::Ev>| -> Res {
            use sim_rab::Body::*;
            if let Some(e) = e {
                match &e.body {
                    Start => (),
                    Deal(d) => drop(save0(c, r, "rabin-dkg-deal", d)?),
                    Resp(_, _, x) => drop(save(c, r, "rabin-dkg-response", x)?),
                    Just(_, x) => drop(save(c, r, "rabin-dkg-justification", x)?),
                    Sc(x) => drop(save(c, r, "secret-commits", x)?),
                    Cc(_, x) => drop(save(c, r, "complaint-commits", x)?),
                    Rc(_, _, x) => drop(save(c, r, "reconstruct-commits", x)?),
                }
            }
            if r.chance(1, often) {
                p.dkg = save(c, r, "rabin-dkg", &p.dkg)?;
            }
            Ok(())
        };
        sim.run(c, Some(&mut h))?;
    } else {
        sim.run(c, None)?;
    }
    let mut o = vec![];
    for s in &sim.outputs {
        let s = match s {
            Some(s) if saving => Some(save(c, r, "rabin-share", s)?),
            s => s.clone(),
        };
        o.push(match s {
            Some(s) => shown(&s.commits, &s.share)?,
            None => "none".into(),
        });
    }
    Ok((sim.transcript, o))
}

fn dss_run<D>(c: &mut Case, mut sv: Option<&mut Rng>) -> Res<Vec<String>>
where
    D: Mk + Clone + Serialize + DeserializeOwned,
{
    let (mut k, t): (Keys<D>, usize) = by_hand::<D>(&mut c.rng, 6)?;
    let m = message(&mut c.rng);
    let n = k.n;
    let mut out = vec![];
    if let Some(r) = sv.as_deref_mut() {
        for i in 0..n {
            k.long[i] = save(c, r, "share", &k.long[i])?;
            k.random[i] = save(c, r, "share", &k.random[i])?;
        }
    }
    let mut ds = vec![];
    for i in 0..n {
        ds.push(dss_of(&k, i, &m, t)?);
    }
    let mut ev: Vec<(usize, usize)> = vec![];
    let mut ps: Vec<Option<Ps>> = vec![None; n];
    let mut order: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut order);
    let mut step = |c: &mut Case, ds: &mut Vec<_>, i: usize| -> Res {
        if now(&mut sv) {
            ds[i] = save(c, sv.as_mut().unwrap(), "dss", &ds[i])?;
        }
        if let (true, Some(p)) = (now(&mut sv), &mut ps[i]) {
            *p = save0(c, sv.as_mut().unwrap(), "partial", p)?;
        }
        Ok(())
    };
    let mut parts = vec![];
    for i in order {
        step(c, &mut ds, i)?;
        let p = ok(nopanic("partial_sig", || ds[i].partial_sig())?, "partial")?;
        out.push(js(&p).to_string());
        parts.push((i, p));
        step(c, &mut ds, i)?;
        for to in 0..n {
            if to != i {
                ev.push((parts.len() - 1, to));
            }
        }
        // deliver some at once
        while !ev.is_empty() && c.rng.bool() {
            let x = c.rng.below(ev.len());
            let (a, to) = ev.swap_remove(x);
            step(c, &mut ds, to)?;
            let e = ds[to].process_partial_sig(parts[a].1.clone());
            out.push(format!("{:?} {}", e.is_ok(), ds[to].enough_partial_sig()));
            step(c, &mut ds, to)?;
        }
    }
    c.rng.shuffle(&mut ev);
    for (a, to) in ev {
        step(c, &mut ds, to)?;
        let e = ds[to].process_partial_sig(parts[a].1.clone());
        out.push(format!("{:?} {}", e.is_ok(), ds[to].enough_partial_sig()));
        if c.rng.chance(1, 4) {
            // again
            step(c, &mut ds, to)?;
            out.push(format!("{:?}", ds[to].process_partial_sig(parts[a].1.clone()).is_ok()));
        }
        if c.rng.chance(1, 4) {
            out.push(format!("{:?}", nopanic("signature", || ds[to].signature().ok())?));
        }
    }
    for i in 0..n {
        step(c, &mut ds, i)?;
        let s = ok(nopanic("signature", || ds[i].signature())?, "signature")?;
        out.push(hex::encode(&s));
    }
    Ok(out)
}

/// a group lives on: key generation, saved shares, a threshold signature from
/// the restored shares
fn life(c: &mut Case, mut sv: Option<&mut Rng>) -> Res<Vec<String>> {
    let mut shares: Vec<Vec<sim_ped::Share>> = vec![];
    let n = c.rng.range(2, 4);
    let (longs, pubs) = keys(&mut c.rng, n)?;
    let mut t = 2;
    for _ in 0..2 {
        let mut spec = fresh_spec(&mut c.rng, 4)?;
        spec.byz.clear();
        spec.lossy = false;
        spec.longs = longs.clone();
        spec.pubs = pubs.clone();
        spec.olds = (0..n).collect();
        spec.news = spec.olds.clone();
        t = if shares.is_empty() { c.rng.range(2, n) } else { t };
        spec.t = t;
        let mut sim = sim_ped::Sim::new(c, spec)?;
        sim.run(c, None)?;
        let mut l = vec![];
        for s in sim.outputs.iter() {
            let s = some(s.clone(), "no-output")?;
            l.push(match sv.as_deref_mut() {
                Some(r) => save(c, r, "dkg-share", &s)?,
                None => s,
            });
        }
        shares.push(l);
    }
    let (random, long) = (shares.pop().unwrap(), shares.pop().unwrap());
    let m = message(&mut c.rng);
    let k = Keys { n, longs, pubs, long, random, a: [0; 32], r: [0; 32] };
    let mut ds = vec![];
    let mut out = vec![];
    for i in 0..n {
        ds.push(dss_of(&k, i, &m, t)?);
    }
    let mut ps = vec![];
    for d in ds.iter_mut() {
        if let Some(r) = sv.as_deref_mut() {
            *d = save(c, r, "dss", d)?;
        }
        ps.push(ok(d.partial_sig(), "partial")?);
    }
    for i in 0..n {
        for j in 0..n {
            if i != j {
                ok(ds[i].process_partial_sig(ps[j].clone()), "process_partial_sig")?;
                if let Some(r) = sv.as_deref_mut() {
                    ds[i] = save(c, r, "dss", &ds[i])?;
                }
            }
        }
        let s = ok(ds[i].signature(), "signature")?;
        ok(kyber_rs::sign::dss::verify(&k.long[0].public(), &m, &s), "verify")?;
        out.push(hex::encode(s));
    }
    c.ev("group-lifetimes");
    Ok(out)
}

pub fn run_c25(ctx: &Ctx) {
    ctx.rule("every object is written down and read back (JSON text, value and reader, bincode slice and reader) between random steps; it must equal the original, and all later messages, verdicts and outputs must equal those of an uninterrupted run on the same random stream; non-trivial = distinct values / run transcripts");
    ctx.assume("objects created by the library's constructors and protocol steps (an all-default Point is not a group element and does not decode)");
    ctx.family("values", ctx.n(1500, 25000), values);
    ctx.family("pedersen-vss", ctx.n(150, 1800), |c| lockstep(c, "pedersen-vss", vss_run::<Ped>));
    ctx.family("rabin-vss", ctx.n(150, 1800), |c| lockstep(c, "rabin-vss", vss_run::<Rab>));
    ctx.family("pedersen-dkg", ctx.n(120, 1200), |c| lockstep(c, "pedersen-dkg", |c, r| ped_run(c, r, false)));
    ctx.family("resharing", ctx.n(120, 1200), |c| lockstep(c, "resharing", |c, r| ped_run(c, r, true)));
    ctx.family("rabin-dkg", ctx.n(120, 1200), |c| lockstep(c, "rabin-dkg", rab_run));
    ctx.family("dss-own", ctx.n(60, 600), |c| lockstep(c, "dss", dss_run::<Own>));
    ctx.family("dss-pedersen", ctx.n(60, 600), |c| lockstep(c, "dss", dss_run::<sim_ped::Share>));
    ctx.family("dss-rabin", ctx.n(60, 600), |c| lockstep(c, "dss", dss_run::<sim_rab::Share>));
    ctx.family("life", ctx.n(30, 300), |c| lockstep(c, "life", life));
    for (e, k) in [("runs-compared", 700), ("restored-dkg", 1500), ("restored-rabin-dkg", 1500), ("restored-dealer", 500), ("restored-verifier", 1500), ("restored-dss", 1000), ("group-lifetimes", 50)] {
        ctx.require(e, k);
    }
}
