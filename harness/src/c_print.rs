//! C28 no secrets in printed objects.
use crate::c_dss::{by_hand, dss_of, Mk, Own};
use crate::c_sig::message;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::sim_ped::{self, fresh_spec, make_old, reshare_spec};
use crate::sim_rab;
use crate::suite::{MonStream, MonSuite};
use crate::vss::*;
use core::fmt::{Debug, Display};
use kyber_rs::encoding::BinaryUnmarshaler;
use kyber_rs::group::edwards25519::{Curve, Scalar};
use kyber_rs::share::poly;
use kyber_rs::sign::eddsa::EdDSA;
use kyber_rs::util::key::new_key_pair;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use std::collections::HashSet;

/// bytes in a row that give a secret away
const W: usize = 8;

/// every run of W bytes the text shows in some rendering, and its decimal numbers
pub struct Shown {
    runs: HashSet<[u8; W]>,
    decimals: HashSet<String>,
}
fn nib(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|x| x as u8)
}
impl Shown {
    pub fn of(text: &str) -> Shown {
        let mut s = Shown { runs: HashSet::new(), decimals: HashSet::new() };
        let b = text.as_bytes();
        // words of letters and digits
        let mut dec: Vec<u8> = vec![]; // current row of decimal bytes
        let mut hx: Vec<u8> = vec![]; // current row of two-digit bytes
        let mut i = 0;
        while i < b.len() {
            if !b[i].is_ascii_alphanumeric() {
                // whatever separates numbers in a list
                if !b", \n\t:;-_[]{}()\"'\\/|".contains(&b[i]) {
                    s.row(&dec);
                    s.row(&hx);
                    dec.clear();
                    hx.clear();
                }
                i += 1;
                continue;
            }
            let st = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            let mut w = &b[st..i];
            if w.len() > 2 && w[0] == b'0' && (w[1] | 32) == b'x' {
                w = &w[2..];
            }
            if w.len() == 3 && w[0] == b'x' {
                // \x1f
                w = &w[1..];
            }
            // a list of decimal bytes
            match std::str::from_utf8(w).ok().and_then(|x| x.parse::<u8>().ok()) {
                Some(x) => dec.push(x),
                None => {
                    s.row(&dec);
                    dec.clear();
                }
            }
            // a list of hexadecimal bytes
            let small = w.len() <= 2 && w.iter().all(|x| nib(*x).is_some());
            if small {
                hx.push(w.iter().fold(0, |a, x| a * 16 + nib(*x).unwrap()));
            } else {
                s.row(&hx);
                hx.clear();
            }
            // one long hexadecimal number, at either alignment
            if w.len() >= 2 * W {
                let mut j = 0;
                while j < w.len() {
                    let k0 = j;
                    while j < w.len() && nib(w[j]).is_some() {
                        j += 1;
                    }
                    if j - k0 >= 2 * W {
                        for o in 0..2 {
                            let v: Vec<u8> = w[k0 + o..j].chunks_exact(2).map(|c| nib(c[0]).unwrap() * 16 + nib(c[1]).unwrap()).collect();
                            s.row(&v);
                        }
                    }
                    j += 1;
                }
            }
            if w.len() >= 12 && w.iter().all(|x| x.is_ascii_digit()) {
                s.decimals.insert(String::from_utf8(w.to_vec()).unwrap().trim_start_matches('0').to_string());
            }
        }
        s.row(&dec);
        s.row(&hx);
        s
    }
    fn row(&mut self, v: &[u8]) {
        for w in v.windows(W) {
            self.runs.insert(w.try_into().unwrap());
        }
    }
    fn shows(&self, secret: &[u8]) -> bool {
        let mut rev = secret.to_vec();
        rev.reverse();
        for s in [secret, &rev] {
            if s.windows(W).any(|w| telling(w) && self.runs.contains(w)) {
                return true;
            }
            let d = num_bigint_dig::BigUint::from_bytes_le(s).to_str_radix(10);
            if telling(&s[..W.min(s.len())]) && self.decimals.contains(&d) {
                return true;
            }
            // 64-bit words
            if s.len() >= 16 && s.chunks_exact(8).filter(|w| telling(w)).any(|w| self.decimals.contains(&u64::from_le_bytes(w.try_into().unwrap()).to_string())) {
                return true;
            }
        }
        false
    }
}
/// not a run that turns up in public values
fn telling(w: &[u8]) -> bool {
    let d: HashSet<u8> = w.iter().copied().collect();
    if w.len() < W || d.len() < 6 {
        return false;
    }
    let l = le32(&ell());
    let mut r = l;
    r.reverse();
    // nor the bytes of the group order
    let shared = |x: &[u8]| x.windows(4).any(|y| w.windows(4).any(|z| y == z));
    !shared(&l) && !shared(&r)
}

/// everything an object holds that must not be shown, with its place
fn secrets(v: &Value, path: &str, out: &mut Vec<(String, Vec<u8>)>) {
    match v {
        Value::Object(m) => {
            if let (1, Some(Value::Array(a))) = (m.len(), m.get("v")) {
                if a.len() == 32 {
                    if let Ok(b) = serde_json::from_value::<Vec<u8>>(m["v"].clone()) {
                        out.push((path.to_string(), b));
                        return;
                    }
                }
            }
            for (k, x) in m {
                // published by the protocol
                if k == "partials" || k == "partial" {
                    continue;
                }
                let p = format!("{}.{}", path, k);
                if k == "seed" || k == "prefix" {
                    if let Ok(b) = serde_json::from_value::<Vec<u8>>(x.clone()) {
                        if b.len() >= W {
                            out.push((p, b));
                            continue;
                        }
                    }
                }
                secrets(x, &p, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                secrets(x, &format!("{}[{}]", path, i), out);
            }
        }
        _ => (),
    }
}

/// all formats of an object against what it and its owner hold
fn printed<T: Debug + Serialize>(c: &mut Case, what: &str, t: &T, display: Option<&dyn Display>, extra: &[(&str, Vec<u8>)]) -> Res {
    let mut l = vec![];
    secrets(&js(t), what, &mut l);
    for (n, b) in extra {
        l.push((n.to_string(), b.clone()));
    }
    ensure!(!l.is_empty(), "harness", "no secret in {}", what);
    let mut texts = nopanic("format", || vec![("debug", format!("{:?}", t)), ("pretty", format!("{:#?}", t)), ("hex-debug", format!("{:x?}", t)), ("HEX-debug", format!("{:02X?}", t))])?;
    if let Some(d) = display {
        texts.push(("display", nopanic("format", || format!("{}", d))?));
        texts.push(("alternate", nopanic("format", || format!("{:#}", d))?));
    }
    for (n, x) in &texts {
        let s = Shown::of(x);
        for (p, b) in &l {
            ensure!(!s.shows(b), &format!("leak:{}:{}", what, n), "{} of {} shows {}", n, what, p);
            c.ev("secret-searched");
        }
        c.ev("text");
    }
    c.ev(what);
    c.state(format!("{}{}", what, texts[0].1).as_bytes());
    Ok(())
}
fn sk(s: &Scalar) -> Vec<u8> {
    s.v.to_vec()
}

/// the search itself finds every rendering it is meant to find
fn detector(c: &mut Case) -> Res {
    let b: [u8; 32] = c.rng.arr();
    if !b.windows(W).all(telling) {
        return Ok(());
    }
    let mut r = b.to_vec();
    r.reverse();
    let mut n = 0;
    for s in [&b[..], &r[..]] {
        let h = hex::encode(s);
        let colon: Vec<String> = s.iter().map(|x| format!("{:02x}", x)).collect();
        for x in [
            format!("{:?}", s),
            format!("{:#?}", s),
            format!("{:x?}", s),
            format!("{:#04x?}", s),
            format!("{:02X?}", s),
            h.clone(),
            h.to_uppercase(),
            format!("0x{}", h),
            format!("Key({})", h.trim_start_matches('0')),
            format!("a{}z", &h[10..40]),
            colon.join(":"),
            colon.join(" "),
            num_bigint_dig::BigUint::from_bytes_le(s).to_string(),
            format!("key={}", num_bigint_dig::BigUint::from_bytes_be(s)),
            format!("{:?}", Scalar { v: s.try_into().unwrap() }),
            format!("{}", Scalar { v: s.try_into().unwrap() }),
            serde_json::to_string(&s).unwrap(),
        ] {
            let t = format!("Dealer {{ x: {}, y: [1, 2] }}", x);
            ensure!(Shown::of(&t).shows(&b), "harness", "detector misses {}", x);
            n += 1;
        }
    }
    let q = c.rng.arr::<32>();
    ensure!(!Shown::of(&format!("{:?} {}", q, hex::encode(q))).shows(&b), "harness", "detector sees ghosts");
    c.evn("detector-confirmed", n);
    Ok(())
}

fn objects(c: &mut Case) -> Res {
    let su = MonSuite {};
    let k = ok(new_key_pair(&su), "key-pair")?;
    printed(c, "key-pair", &k, Some(&k), &[])?;
    let ed = ok(EdDSA::<Curve>::new(&mut MonStream::open()), "eddsa")?;
    printed(c, "eddsa", &ed, None, &[])?;
    let mut e2 = EdDSA::<Curve>::default();
    let mut b = c.rng.bytes(64);
    b[63] &= 0x7f;
    ok(e2.unmarshal_binary(&b), "import")?;
    printed(c, "eddsa", &e2, None, &[("seed", b[..32].to_vec())])?;
    printed(c, "eddsa", &EdDSA::<Curve>::from(k.clone()), None, &[])?;
    let t = c.rng.range(1, 6);
    let p = poly::new_pri_poly(su, t, Some(k.private.clone()), MonStream::open());
    printed(c, "pri-poly", &p, Some(&p), &[])?;
    let i = c.rng.below(1000);
    let s = p.eval(i);
    printed(c, "pri-share", &s, Some(&s), &[])?;
    let pb = p.commit(None);
    printed(c, "pub-poly", &pb, Some(&pb), &[("secret", sk(&p.secret())), ("share", sk(&s.v))])?;
    let e = pb.eval(i);
    printed(c, "pub-share", &e, Some(&e), &[("share", sk(&s.v))])?;
    Ok(())
}

fn shown_msg<T: Debug + Serialize + DeserializeOwned>(c: &mut Case, what: &str, t: &T, d: Option<&dyn Display>, extra: &[(&str, Vec<u8>)]) -> Res {
    printed(c, what, t, d, extra)
}
fn vss_case<S: Vss>(c: &mut Case) -> Res {
    let g = setup(&mut c.rng, 5)?;
    let n = g.n;
    let mut d = g.dealer::<S>()?;
    let mut vs = g.verifiers::<S>()?;
    let dx = [("dealer-long", sk(&g.dlong)), ("secret", sk(&g.secret))];
    printed(c, "dealer", &d, Some(&d), &dx)?;
    let mut rs = vec![];
    for i in 0..n {
        printed(c, "verifier", &vs[i], Some(&vs[i]), &[("long", sk(&g.longs[i]))])?;
        let bad = c.rng.chance(1, 4);
        let mut d2 = d.clone();
        let pl = ok(S::plain(&mut d2, i), "plain")?;
        let mut w = view::<S>(pl)?;
        if bad {
            w.f[0] ^= 1;
            *pl = deal_from::<S>(&w)?;
        }
        let pl = pl.clone();
        printed(c, "deal", &pl, Some(&pl), &[])?;
        let e = ok(S::enc(&d2, i), "enc")?;
        shown_msg(c, "encrypted-deal", &e, None, &[("share", w.f.to_vec()), dx[0].clone(), dx[1].clone()])?;
        let r = ok(S::take(&mut vs[i], &e), "take")?;
        let vx = [("long", sk(&g.longs[i])), ("share", w.f.to_vec())];
        printed(c, "verifier", &vs[i], Some(&vs[i]), &vx)?;
        shown_msg(c, "response", &r, None, &vx)?;
        rs.push((i, r));
    }
    c.rng.shuffle(&mut rs);
    for (i, r) in &rs {
        let j = ok(S::d_resp(&mut d, r), "d_resp")?;
        printed(c, "dealer", &d, Some(&d), &dx)?;
        for to in 0..n {
            if to != *i {
                let _ = S::v_resp(&mut vs[to], r);
            }
            if let Some(j) = &j {
                let _ = S::v_just(&mut vs[to], j);
                printed(c, "verifier", &vs[to], Some(&vs[to]), &[("long", sk(&g.longs[to]))])?;
            }
        }
        if let Some(j) = j {
            printed(c, "justification", &j, None, &dx)?;
        }
    }
    S::d_timeout(&mut d);
    printed(c, "dealer", &d, Some(&d), &dx)?;
    for (i, v) in vs.iter_mut().enumerate() {
        S::v_timeout(v);
        printed(c, "verifier", v, Some(v), &[("long", sk(&g.longs[i]))])?;
        if let Some(x) = S::v_deal(v) {
            printed(c, "deal", &x, Some(&x), &[])?;
        }
    }
    Ok(())
}
fn ped_case(c: &mut Case, reshare: bool) -> Res {
    let spec = if reshare {
        let n = c.rng.range(2, 4);
        let t = c.rng.range(1, n);
        let (longs, pubs) = keys(&mut c.rng, n)?;
        let old = make_old(&mut c.rng, n, t)?;
        reshare_spec(&mut c.rng, old, longs, pubs, 4)?
    } else {
        fresh_spec(&mut c.rng, 4)?
    };
    let mut sim = sim_ped::Sim::new(c, spec)?;
    let see = |c: &mut Case, p: &sim_ped::Party| -> Res {
        let mut x = vec![("long", sk(&p.long))];
        if let Some(s) = &p.share {
            x.push(("old-share", sk(&s.share.v)));
        }
        if let Ok(s) = p.dkg.dist_key_share() {
            x.push(("new-share", sk(&s.share.v)));
            printed(c, "dkg-share", &s, Some(&s), &x)?;
        }
        printed(c, "dkg", &p.dkg, Some(&p.dkg), &x)
    };
    for p in &sim.parties {
        if !p.byz {
            see(c, p)?;
        }
    }
    let mut h = |c: &mut Case, p: &mut sim_ped::Party, e: Option<&sim_ped::Ev>| -> Res {
        use sim_ped::Body::*;
        if c.rng.chance(1, 2) {
            see(c, p)?;
        }
        if let Some(e) = e {
            let x = [("long", sk(&p.long))];
            match &e.body {
                Deal(d) => printed(c, "dkg-deal", d, Some(d), &x)?,
                Resp(_, _, r) => printed(c, "dkg-response", r, Some(r), &x)?,
                Just(_, j) => printed(c, "dkg-justification", j, Some(j), &x)?,
                _ => (),
            }
        }
        Ok(())
    };
    sim.run(c, Some(&mut h))
}
fn rab_case(c: &mut Case) -> Res {
    let mut sim = sim_rab::Sim::new(c, 4, true)?;
    let see = |c: &mut Case, p: &sim_rab::Party| -> Res {
        let mut x = vec![("long", sk(&p.long))];
        if let Ok(s) = p.dkg.dist_key_share() {
            x.push(("new-share", sk(&s.share.v)));
            printed(c, "rabin-share", &s, Some(&s), &x)?;
        }
        printed(c, "rabin-dkg", &p.dkg, Some(&p.dkg), &x)
    };
    for p in &sim.parties {
        if !p.byz {
            see(c, p)?;
        }
    }
    let mut h = |c: &mut Case, _: usize, p: &mut sim_rab::Party, e: Option<&sim_rab::Ev>| -> Res {
        use sim_rab::Body::*;
        if c.rng.chance(1, 2) {
            see(c, p)?;
        }
        if let Some(e) = e {
            let x = [("long", sk(&p.long))];
            match &e.body {
                Start => (),
                Deal(d) => printed(c, "rabin-deal", d, Some(d), &x)?,
                Resp(_, _, r) => printed(c, "rabin-response", r, Some(r), &x)?,
                Just(_, j) => printed(c, "rabin-justification", j, Some(j), &x)?,
                Sc(m) => printed(c, "secret-commits", m, Some(m), &x)?,
                Cc(_, m) => printed(c, "complaint-commits", m, Some(m), &x)?,
                Rc(_, _, m) => printed(c, "reconstruct-commits", m, Some(m), &x)?,
            }
        }
        Ok(())
    };
    sim.run(c, Some(&mut h))
}
fn dss_case<D: Mk + Clone + Display + Serialize + DeserializeOwned>(c: &mut Case, shown: bool) -> Res {
    let (k, t) = by_hand::<D>(&mut c.rng, 5)?;
    let m = message(&mut c.rng);
    let mut ds = vec![];
    let mut ps = vec![];
    for i in 0..k.n {
        let mut d = dss_of(&k, i, &m, t)?;
        let x = [("long", sk(&k.longs[i])), ("share", sk(&k.long[i].pri_share().v)), ("one-time", sk(&k.random[i].pri_share().v))];
        if shown {
            printed(c, "dss", &d, Some(&d), &x)?;
        }
        let p = ok(d.partial_sig(), "partial")?;
        printed(c, "partial", &p, None, &x)?;
        ps.push(p);
        ds.push(d);
    }
    for i in 0..k.n {
        let x = [("long", sk(&k.longs[i])), ("share", sk(&k.long[i].pri_share().v)), ("one-time", sk(&k.random[i].pri_share().v))];
        for j in 0..k.n {
            if i != j {
                ok(ds[i].process_partial_sig(ps[j].clone()), "process")?;
            }
        }
        printed(c, "dss", &ds[i], Some(&ds[i]), &x)?;
        if shown {
            printed(c, "share", &k.long[i], Some(&k.long[i]), &x)?;
        }
    }
    Ok(())
}

pub fn run_c28(ctx: &Ctx) {
    ctx.rule("debug, pretty, hexadecimal debug and display texts of every object in every state reached, searched for 8 bytes in a row of any secret it holds (found through its serialised form) or its owner holds, in hexadecimal (both orders), byte lists, decimal; the search is confirmed on known renderings; non-trivial = distinct texts");
    ctx.assume("printing a bare Scalar or a protocol message that publishes a value (partial signature) shows that value by design; formatting of user-supplied types is theirs; low-entropy secrets are not searched");
    ctx.family("detector", ctx.n(50, 500), detector);
    ctx.family("objects", ctx.n(150, 3000), objects);
    ctx.family("pedersen-vss", ctx.n(40, 800), vss_case::<Ped>);
    ctx.family("rabin-vss", ctx.n(40, 800), vss_case::<Rab>);
    ctx.family("pedersen-dkg", ctx.n(50, 800), |c| ped_case(c, false));
    ctx.family("resharing", ctx.n(50, 800), |c| ped_case(c, true));
    ctx.family("rabin-dkg", ctx.n(50, 800), rab_case);
    ctx.family("dss-own", ctx.n(30, 300), |c| dss_case::<Own>(c, false));
    ctx.family("dss-pedersen", ctx.n(30, 300), |c| dss_case::<sim_ped::Share>(c, true));
    ctx.family("dss-rabin", ctx.n(30, 300), |c| dss_case::<sim_rab::Share>(c, true));
    for (e, k) in [("text", 10000), ("secret-searched", 100000), ("detector-confirmed", 1000), ("dkg", 1000), ("rabin-dkg", 500), ("dealer", 300), ("verifier", 500), ("dss", 100), ("eddsa", 300), ("key-pair", 100), ("deal", 200)] {
        ctx.require(e, k);
    }
}
