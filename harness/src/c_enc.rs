//! C13 ECIES, C14 Diffie-Hellman, HKDF, AEAD.
use crate::c_sig::message;
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::MonSuite;
use aes_gcm::aead::{Aead, KeyInit, Payload};
use aes_gcm::Aes256Gcm;
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Curve, Point, SuiteEd25519};
use sha2::{Digest, Sha256, Sha512};

fn key(r: &mut Rng) -> [u8; 32] {
    loop {
        let b = match r.below(3) {
            0 => {
                let mut b: [u8; 32] = r.arr();
                b[0] &= 248;
                b[31] &= 127;
                b[31] |= 64;
                b
            }
            1 => nasty255(r),
            _ => nasty_canon(r),
        };
        if red(&b) != [0u8; 32] {
            return b;
        }
    }
}

fn ecies_case(c: &mut Case) -> Res {
    let x = key(&mut c.rng);
    let pb = denc(&imul(&x, &dbase()));
    let m = match c.rng.below(6) {
        0 => vec![],
        1 => {
            let n = c.rng.range(10_000, 40_000);
            c.rng.bytes(n)
        }
        _ => message(&mut c.rng),
    };
    let cv = Curve::new();
    let p = kp(&pb)?;
    let enc = |m: &[u8]| -> Res<Vec<u8>> { ok(nopanic("encrypt", || ecies::encrypt(cv, p, m))?, "encrypt") };
    let dec = |x: &[u8; 32], ct: &[u8]| -> Res<Result<Vec<u8>, ()>> {
        let k = ks(x)?;
        Ok(nopanic("decrypt", || ecies::decrypt(cv, k, ct))?.map_err(|_| ()))
    };
    let ct = enc(&m)?;
    c.state(&ct);
    ensure!(ct.len() == 32 + m.len() + 16, "length", "{} bytes encrypt to {}", m.len(), ct.len());
    let out = dec(&x, &ct)?;
    ensure!(out.as_ref() == Ok(&m), "roundtrip", "message of {} bytes came back as {:?}", m.len(), out.map(|o| o.len()));
    c.ev("roundtrip");
    // through the suite type as well
    let su = SuiteEd25519::new_blake3_sha256_ed25519();
    let ct2 = ok(nopanic("encrypt", || ecies::encrypt(su, p, &m))?, "encrypt")?;
    let kx = ks(&x)?;
    let o = ok(nopanic("decrypt", || ecies::decrypt(su, kx, &ct2))?, "decrypt")?;
    ensure!(o == m, "roundtrip-suite", "suite round trip differs");
    // fresh ephemeral keys
    let mut rs = std::collections::HashSet::new();
    rs.insert(ct[..32].to_vec());
    for t in [&ct2, &enc(&m)?, &enc(&m)?, &enc(b"other")?] {
        ensure!(rs.insert(t[..32].to_vec()), "ephemeral-reuse", "two encryptions share their ephemeral key");
        c.ev("fresh-ephemeral");
    }
    if m.len() >= 16 {
        ensure!(!ct.windows(16).any(|w| w == &m[..16]) || m[..16].iter().all(|b| *b == 0), "plaintext-visible", "plaintext appears in the ciphertext");
    }
    // nobody can open it from public data
    // (private key one makes the shared point the ephemeral key itself)
    for ikm in [&ct[..32], &pb[..], &[][..]] {
        if pb == denc(&dbase()) {
            break;
        }
        for info in [&ct[..32], &pb[..], &[][..]] {
            let k = hkdf(ikm, info, 44);
            let mut cands = vec![k[..32].to_vec(), hkdf(&ct[..32], &k, 32), hkdf(&pb, &k, 32)];
            for kk in cands.drain(..) {
                for n in [&k[32..], &[0u8; 12][..]] {
                    if aes_open(&kk, n, &ct[32..], &[]).is_some() {
                        return fail("public-key-derivation", "the ciphertext opens with a key derived from public data");
                    }
                }
            }
        }
    }
    // any other private key
    for _ in 0..3 {
        let mut y = key(&mut c.rng);
        match c.rng.below(4) {
            0 => y = le32(&modl(&(from_le(&x) + num_bigint_dig::BigUint::from(1u8)))),
            1 => y = le32(&modl(&(ell() - from_le(&red(&x))))),
            _ => {}
        }
        if red(&y) == red(&x) || red(&y) == [0u8; 32] {
            continue;
        }
        ensure!(dec(&y, &ct)?.is_err(), "wrong-key", "another private key decrypts");
        c.ev("wrong-key-refused");
    }
    // alterations: every region, truncation, extension, recombination
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..6 {
        let mut t = ct.clone();
        let i = c.rng.below(t.len() * 8);
        t[i / 8] ^= 1 << (i % 8);
        bad.push((format!("bit {}", i), t));
    }
    for i in [255usize, 256, (ct.len() - 16) * 8, ct.len() * 8 - 1] {
        let mut t = ct.clone();
        t[i / 8] ^= 1 << (i % 8);
        bad.push((format!("bit {}", i), t));
    }
    for n in [0usize, 1, 16, 31, 32, 33, 47, 48, ct.len() - 17, ct.len() - 16, ct.len() - 1] {
        if n < ct.len() {
            bad.push((format!("cut to {}", n), ct[..n].to_vec()));
        }
    }
    let mut t = ct.clone();
    t.push(0);
    bad.push(("one byte more".into(), t));
    let mut t = ct2[..32].to_vec();
    t.extend_from_slice(&ct[32..]);
    bad.push(("other ephemeral key".into(), t));
    for i in 1..8 {
        let mut t = denc(&(dp(&ct[..32].try_into().unwrap()).unwrap() + torsion(i))).to_vec();
        t.extend_from_slice(&ct[32..]);
        bad.push((format!("ephemeral key plus torsion {}", i), t));
    }
    let mut t = denc(&-dp(&ct[..32].try_into().unwrap()).unwrap()).to_vec();
    t.extend_from_slice(&ct[32..]);
    bad.push(("negated ephemeral key".into(), t));
    for (w, t) in bad {
        match dec(&x, &t)? {
            Err(()) => c.ev("alteration-refused"),
            Ok(o) => return fail("alteration-accepted", format!("{} of {}-byte ciphertext decrypts to {} bytes (same plaintext: {})", w, ct.len(), o.len(), o == m)),
        }
    }
    Ok(())
}

fn ecies_garbage(c: &mut Case) -> Res {
    let n = c.rng.below(120);
    let mut t = c.rng.bytes(n);
    if n >= 32 && c.rng.bool() {
        t[..32].copy_from_slice(&denc(&nasty_point(&mut c.rng).0));
    }
    c.state(&t);
    let k = ks(&key(&mut c.rng))?;
    let r = nopanic("decrypt", || ecies::decrypt(Curve::new(), k, &t))?;
    ensure!(r.is_err(), "garbage-accepted", "random bytes decrypt");
    c.ev("garbage-refused");
    Ok(())
}

pub fn run_c13(ctx: &Ctx) {
    ctx.rule("An encryption case counts by its ciphertext.");
    ctx.assume("private keys are non-zero modulo the group order and public keys have prime order");
    ctx.family("ecies", ctx.n(600, 20000), ecies_case);
    ctx.family("garbage", ctx.n(4000, 100000), ecies_garbage);
    for e in ["roundtrip", "fresh-ephemeral", "wrong-key-refused", "alteration-refused", "garbage-refused"] {
        ctx.require(e, 300);
    }
}

// ---------------------------------------------------------------- C14

/// HMAC and HKDF from their definitions
fn hmac<D: Digest>(key: &[u8], parts: &[&[u8]], block: usize) -> Vec<u8> {
    let mut k = if key.len() > block { D::digest(key).to_vec() } else { key.to_vec() };
    k.resize(block, 0);
    let mut h = D::new();
    h.update(k.iter().map(|b| b ^ 0x36).collect::<Vec<u8>>());
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = D::new();
    h.update(k.iter().map(|b| b ^ 0x5c).collect::<Vec<u8>>());
    h.update(inner);
    h.finalize().to_vec()
}
fn hkdf_d<D: Digest>(ikm: &[u8], info: &[u8], n: usize, hl: usize, block: usize) -> Vec<u8> {
    let prk = hmac::<D>(&vec![0u8; hl], &[ikm], block);
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < n {
        t = hmac::<D>(&prk, &[&t, info, &[i]], block);
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(n);
    out
}
pub fn hkdf(ikm: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    hkdf_d::<Sha256>(ikm, info, n, 32, 64)
}
pub fn aes_seal(key: &[u8], nonce: &[u8], m: &[u8], ad: &[u8]) -> Vec<u8> {
    Aes256Gcm::new_from_slice(key).unwrap().encrypt(nonce.into(), Payload { msg: m, aad: ad }).unwrap()
}
pub fn aes_open(key: &[u8], nonce: &[u8], m: &[u8], ad: &[u8]) -> Option<Vec<u8>> {
    Aes256Gcm::new_from_slice(key).unwrap().decrypt(nonce.into(), Payload { msg: m, aad: ad }).ok()
}

struct D512;
impl Dh for D512 {
    type H = Sha512;
}

fn exchange(c: &mut Case) -> Res {
    let (a, b) = (key(&mut c.rng), key(&mut c.rng));
    let s = MonSuite {};
    let (pa, pb) = (imul(&a, &dbase()), imul(&b, &dbase()));
    let want = imul(&a, &pb);
    let x = MonSuite::dh_exchange(s, ks(&a)?, kp(&denc(&pb))?);
    let y = MonSuite::dh_exchange(s, ks(&b)?, kp(&denc(&pa))?);
    ensure!(x == y, "exchange", "both ends disagree: {} {}", x, y);
    ensure!(pbytes(&x)? == denc(&want), "exchange", "shared point is {}, want {}", x, hex::encode(denc(&want)));
    let su = SuiteEd25519::new_blake3_sha256_ed25519();
    let z = SuiteEd25519::dh_exchange(su, ks(&a)?, kp(&denc(&pb))?);
    let w = Curve::dh_exchange(su, ks(&b)?, kp(&denc(&pa))?);
    ensure!(z == x && w == x, "exchange", "suites disagree");
    // third party
    let e = key(&mut c.rng);
    if red(&e) != red(&a) && red(&e) != red(&b) {
        let t = MonSuite::dh_exchange(s, ks(&e)?, kp(&denc(&pb))?);
        ensure!(t != x, "exchange", "another key yields the same shared point");
    }
    c.state(&denc(&want));
    c.ev("exchange");
    Ok(())
}

fn derive(c: &mut Case) -> Res {
    let n = match c.rng.below(6) {
        0 => c.rng.below(8161),
        1 => *c.rng.choose(&[0, 1, 31, 32, 33, 64, 8159, 8160]),
        _ => c.rng.below(200),
    };
    let (ln, li) = if c.rng.below(4) == 0 { (c.rng.below(3000), c.rng.below(3000)) } else { (c.rng.below(200), c.rng.below(200)) };
    let (ikm, info) = (c.rng.bytes(ln), c.rng.bytes(li));
    c.state(&[&ikm[..], &info[..]].concat());
    let got = ok(nopanic("hkdf", || MonSuite::hkdf(&ikm, &info, Some(n)))?, "hkdf")?;
    ensure!(got == hkdf(&ikm, &info, n), "hkdf", "HKDF-SHA256 of {} bytes differs", n);
    let got = ok(nopanic("hkdf", || <Curve as Dh>::hkdf(&ikm, &info, None))?, "hkdf")?;
    ensure!(got == hkdf(&ikm, &info, 32), "hkdf-default", "default length HKDF differs");
    let n2 = c.rng.below(300);
    let got = ok(nopanic("hkdf", || D512::hkdf(&ikm, &info, Some(n2)))?, "hkdf")?;
    ensure!(got == hkdf_d::<Sha512>(&ikm, &info, n2, 64, 128), "hkdf-suite-hash", "HKDF over the suite's hash differs");
    c.ev("hkdf");
    for n in [8161usize, 8192, 20000] {
        let r = nopanic("hkdf-limit", || MonSuite::hkdf(&ikm, &info, Some(n)))?;
        ensure!(r.is_err(), "hkdf-limit", "{} bytes of HKDF-SHA256 output", n);
        c.ev("hkdf-limit");
    }
    Ok(())
}

fn aead(c: &mut Case) -> Res {
    let (pre, _) = nasty_point(&mut c.rng);
    let pt = kp(&denc(&pre))?;
    let long = |r: &mut Rng| match r.below(4) {
        0 => r.below(4000),
        1 => *r.choose(&[0, 1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 4096, 65536]),
        _ => r.below(100),
    };
    let li = long(&mut c.rng);
    let info = c.rng.bytes(li);
    let nonce: [u8; 12] = c.rng.arr();
    let m = message(&mut c.rng);
    let la = long(&mut c.rng);
    let adb = c.rng.bytes(la);
    let ad: Option<&[u8]> = if c.rng.below(4) == 0 { None } else { Some(&adb) };
    let adv: &[u8] = ad.unwrap_or(&[]);
    let k = hkdf(&denc(&pre), &info, 32);
    let want = aes_seal(&k, &nonce, &m, adv);
    c.state(&want);
    let g = ok(nopanic("aead-new", || AEAD::<MonSuite>::new(pt, &info))?, "aead-new")?;
    ensure!(AEAD::<MonSuite>::nonce_size() == 12, "nonce-size", "nonce size");
    let ct = ok(nopanic("seal", || g.seal(None, &nonce, &m, ad))?, "seal")?;
    ensure!(ct == want, "seal", "sealed bytes are not AES-256-GCM under the derived key");
    let pl = ok(nopanic("open", || g.open(None, &nonce, &ct, ad))?, "open")?;
    ensure!(pl == m, "open", "opening gives another plaintext");
    c.ev("seal-open");
    // static forms
    ensure!(ok(MonSuite::aes_encrypt(&k, &nonce, &m, ad), "aes")? == want, "aes_encrypt", "differs");
    ensure!(ok(MonSuite::aes_decrypt(&k, &nonce, &want, ad), "aes")? == m, "aes_decrypt", "differs");
    let e = ok(nopanic("encrypt", || MonSuite::encrypt(&pt, &info, &nonce, &m))?, "encrypt")?;
    ensure!(e == aes_seal(&k, &nonce, &m, &info), "encrypt", "context is not authenticated or key differs");
    ensure!(ok(nopanic("decrypt", || MonSuite::decrypt(&pt, &info, &nonce, &e))?, "decrypt")? == m, "decrypt", "differs");
    // output buffers
    let extra = c.rng.below(20);
    for (len, what) in [(ct.len(), "exact"), (ct.len() + extra, "longer")] {
        let mut d = vec![0xa5u8; len];
        let r = ok(nopanic("seal-dst", || g.seal(Some(&mut d), &nonce, &m, ad))?, "seal-dst")?;
        ensure!(r == want && d[..ct.len()] == want[..], "seal-dst", "{} buffer does not hold the ciphertext", what);
        ensure!(d[ct.len()..].iter().all(|b| *b == 0xa5), "seal-dst", "bytes beyond the ciphertext changed");
    }
    for (len, what) in [(m.len(), "exact"), (m.len() + extra, "longer")] {
        let mut d = vec![0xa5u8; len];
        let r = ok(nopanic("open-dst", || g.open(Some(&mut d), &nonce, &ct, ad))?, "open-dst")?;
        ensure!(r == m && d[..m.len()] == m[..], "open-dst", "{} buffer does not hold the plaintext", what);
        ensure!(d[m.len()..].iter().all(|b| *b == 0xa5), "open-dst", "bytes beyond the plaintext changed");
    }
    let mut d = vec![0u8; ct.len() - 1 - c.rng.below(ct.len())];
    nopanic("seal-dst-short", || g.seal(Some(&mut d), &nonce, &m, ad).is_ok())?;
    if !m.is_empty() {
        let mut d = vec![0u8; c.rng.below(m.len())];
        nopanic("open-dst-short", || g.open(Some(&mut d), &nonce, &ct, ad).is_ok())?;
    }
    c.ev("buffers");
    // one wrong ingredient: no plaintext
    let refuse = |c: &mut Case, what: &str, g: &AEAD<MonSuite>, n: &[u8; 12], t: &[u8], a: Option<&[u8]>| -> Res {
        let mut d = vec![0x77u8; t.len()];
        let before = d.clone();
        let r = nopanic("open-bad", || g.open(None, n, t, a))?;
        ensure!(r.is_err(), "opens-with-wrong-part", "opened with wrong {}", what);
        let r = nopanic("open-bad", || g.open(Some(&mut d), n, t, a))?;
        ensure!(r.is_err(), "opens-with-wrong-part", "opened with wrong {}", what);
        ensure!(m.len() < 8 || m.iter().all(|x| *x == 0x77) || !d.windows(8).any(|w| w == &m[..8]) || d == before, "plaintext-released", "plaintext in the buffer after a refused open ({})", what);
        c.ev("refused");
        Ok(())
    };
    for _ in 0..4 {
        let mut t = ct.clone();
        let i = c.rng.below(t.len() * 8);
        t[i / 8] ^= 1 << (i % 8);
        refuse(c, "ciphertext bit", &g, &nonce, &t, ad)?;
    }
    for n in [0, 1, 15, ct.len() - 1] {
        refuse(c, "length", &g, &nonce, &ct[..n.min(ct.len() - 1)], ad)?;
    }
    let mut t = ct.clone();
    t.push(0);
    refuse(c, "length", &g, &nonce, &t, ad)?;
    let mut n2 = nonce;
    let i = c.rng.below(96);
    n2[i / 8] ^= 1 << (i % 8);
    refuse(c, "nonce", &g, &n2, &ct, ad)?;
    let mut a2 = adv.to_vec();
    if a2.is_empty() || c.rng.bool() {
        a2.push(0);
    } else {
        let i = c.rng.below(a2.len() * 8);
        a2[i / 8] ^= 1 << (i % 8);
    }
    refuse(c, "associated data", &g, &nonce, &ct, Some(&a2))?;
    if !adv.is_empty() {
        let mut a3 = adv.to_vec();
        *a3.last_mut().unwrap() ^= 0x10;
        refuse(c, "last byte of associated data", &g, &nonce, &ct, Some(&a3))?;
        refuse(c, "missing associated data", &g, &nonce, &ct, None)?;
        refuse(c, "cut associated data", &g, &nonce, &ct, Some(&adv[..adv.len() - 1]))?;
    }
    let mut i2 = info.clone();
    if i2.is_empty() || c.rng.bool() {
        i2.push(7);
    } else {
        let i = c.rng.below(i2.len() * 8);
        i2[i / 8] ^= 1 << (i % 8);
    }
    if !info.is_empty() {
        let mut i3 = info.clone();
        *i3.last_mut().unwrap() ^= 1;
        let g2 = ok(AEAD::<MonSuite>::new(pt, &i3), "aead-new")?;
        refuse(c, "last byte of context", &g2, &nonce, &ct, ad)?;
        let r = nopanic("decrypt-bad", || MonSuite::decrypt(&pt, &i3, &nonce, &e))?;
        ensure!(r.is_err(), "opens-with-wrong-part", "decrypt with wrong context");
    }
    let g2 = ok(AEAD::<MonSuite>::new(pt, &i2), "aead-new")?;
    refuse(c, "context", &g2, &nonce, &ct, ad)?;
    let r = nopanic("decrypt-bad", || MonSuite::decrypt(&pt, &i2, &nonce, &e))?;
    ensure!(r.is_err(), "opens-with-wrong-part", "decrypt with wrong context");
    let (q, _) = nasty_point(&mut c.rng);
    if q != pre {
        let g3 = ok(AEAD::<MonSuite>::new(kp(&denc(&q))?, &info), "aead-new")?;
        refuse(c, "key", &g3, &nonce, &ct, ad)?;
        let qp: Point = kp(&denc(&q))?;
        ensure!(nopanic("decrypt-bad", || MonSuite::decrypt(&qp, &info, &nonce, &e))?.is_err(), "opens-with-wrong-part", "decrypt with wrong key");
    }
    // wrong key sizes
    for n in [0usize, 1, 16, 31, 33, 64] {
        let kk = c.rng.bytes(n);
        ensure!(nopanic("aes-key-size", || MonSuite::aes_encrypt(&kk, &nonce, &m, ad))?.is_err(), "aes-key-size", "{} byte key accepted", n);
        ensure!(nopanic("aes-key-size", || MonSuite::aes_decrypt(&kk, &nonce, &ct, ad))?.is_err(), "aes-key-size", "{} byte key accepted", n);
    }
    Ok(())
}

pub fn run_c14(ctx: &Ctx) {
    ctx.rule("Cases count by shared point, by derivation input and by sealed ciphertext.");
    ctx.assume("aes-gcm is the AES-256-GCM reference (it is also the backend: what is decided here is which key, nonce, data and buffer reach it); HMAC/HKDF are recomputed from their definitions");
    ctx.family("exchange", ctx.n(1500, 40000), exchange);
    ctx.family("derive", ctx.n(3000, 60000), derive);
    ctx.family("aead", ctx.n(3000, 60000), aead);
    for e in ["exchange", "hkdf", "hkdf-limit", "seal-open", "refused", "buffers"] {
        ctx.require(e, 300);
    }
}
