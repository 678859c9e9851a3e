//! C10 EdDSA, C11 strict verification, C12 Schnorr.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::{seed_thread, with_log, MonStream, MonSuite};
use curve25519_dalek::edwards::EdwardsPoint;
use curve25519_dalek::scalar::Scalar as DS;
use ed25519_dalek::Signer;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::sign::{eddsa, schnorr};
use kyber_rs::util::key::{new_key_pair, Pair};
use kyber_rs::{Point as PointT, Scalar as ScalarT};
use num_bigint_dig::BigUint;
use sha2::{Digest, Sha512};

pub fn message(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        _ if r.chance(1, 60) => *r.choose(&[4096, 8192, 16384, 65535, 65536, 65537, 70001, 131072, 200003]),
        0 => 0,
        1 => 1,
        2 => *r.choose(&[31, 32, 47, 63, 64, 65, 111, 112, 127, 128, 129, 1023]),
        3 => r.below(5000),
        _ => r.below(200),
    };
    match r.below(5) {
        0 => vec![0u8; n],
        _ => r.bytes(n),
    }
}
fn h512(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    red(&h.finalize())
}
pub fn ds(b: &[u8; 32]) -> DS {
    DS::from_canonical_bytes(*b).expect("canonical")
}
fn addm(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    le32(&modl(&(from_le(a) + from_le(b))))
}
fn mulm(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    le32(&modl(&(from_le(a) * from_le(b))))
}

/// what the specification says about (public key, message, signature)
pub fn spec_verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> Result<(), &'static str> {
    if sig.len() != 64 {
        return Err("length");
    }
    if pk.len() != 32 {
        return Err("key length");
    }
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    let sb: [u8; 32] = sig[32..].try_into().unwrap();
    let ab: [u8; 32] = pk.try_into().unwrap();
    if from_le(&sb) >= ell() {
        return Err("s not below the order");
    }
    let canon = |b: &[u8; 32]| {
        let mut y = *b;
        y[31] &= 0x7f;
        from_le(&y) < p25519()
    };
    if !canon(&rb) {
        return Err("R not canonical");
    }
    if !canon(&ab) {
        return Err("A not canonical");
    }
    let Some(r) = dp(&rb) else { return Err("R no point") };
    let Some(a) = dp(&ab) else { return Err("A no point") };
    if denc(&r) != rb || denc(&a) != ab {
        return Err("sign bit of zero");
    }
    if r.is_small_order() {
        return Err("R small order");
    }
    if a.is_small_order() {
        return Err("A small order");
    }
    let h = h512(&[&rb, &ab, msg]);
    if dbase() * ds(&sb) == r + a * ds(&h) {
        Ok(())
    } else {
        Err("equation")
    }
}

// ---------------------------------------------------------------- C10

struct SeedStream(Vec<u8>);
impl kyber_rs::cipher::Stream for SeedStream {
    fn xor_key_stream(&mut self, d: &mut [u8], s: &[u8]) -> Result<(), kyber_rs::cipher::StreamError> {
        for i in 0..s.len() {
            d[i] = s[i] ^ self.0[i % self.0.len()];
        }
        Ok(())
    }
}
pub fn ed_from_seed(seed: &[u8; 32]) -> Res<eddsa::EdDSA<Curve>> {
    ok(nopanic("eddsa-new", || eddsa::EdDSA::<Curve>::new(&mut SeedStream(seed.to_vec())))?, "eddsa-new")
}
fn snapshot(k: &eddsa::EdDSA<Curve>) -> Res<Vec<u8>> {
    let mut v = sbytes(&k.secret)?.to_vec();
    v.extend(pbytes(&k.public)?);
    v.extend(&k.seed);
    v.extend(&k.prefix);
    Ok(v)
}

fn ed_conform(c: &mut Case) -> Res {
    let seed: [u8; 32] = match c.rng.below(6) {
        0 => [0; 32],
        1 => [0xff; 32],
        _ => c.rng.arr(),
    };
    let dk = ed25519_dalek::SigningKey::from_bytes(&seed);
    let k = ed_from_seed(&seed)?;
    c.log(format!("seed {}", hex::encode(seed)));
    let before = snapshot(&k)?;
    ensure!(pbytes(&k.public)? == dk.verifying_key().to_bytes(), "public-key", "seed {}: public {}", hex::encode(seed), hex::encode(pbytes(&k.public)?));
    let enc = ok(nopanic("eddsa-marshal", || k.marshal_binary())?, "eddsa-marshal")?;
    ensure!(enc == dk.to_keypair_bytes(), "key-encoding", "key encodes to {}", hex::encode(&enc));
    // import over a used object
    let mut k2 = if c.rng.bool() { eddsa::EdDSA::<Curve>::default() } else { ed_from_seed(&c.rng.arr())? };
    ok(nopanic("eddsa-unmarshal", || k2.unmarshal_binary(&enc))?, "eddsa-unmarshal")?;
    ensure!(k2 == k, "import", "imported key differs");
    // equality tells keys apart in every part they hold
    let o = ed_from_seed(&c.rng.arr())?;
    for part in 0..5 {
        let mut k3 = ed_from_seed(&seed)?;
        match part {
            0 => k3.seed[c.rng.below(32)] ^= 1 << c.rng.below(8),
            1 => k3.prefix[c.rng.below(32)] ^= 1 << c.rng.below(8),
            2 => k3.secret = o.secret,
            3 => k3.public = o.public,
            _ => {
                let mut e = enc.clone();
                e[c.rng.below(32)] ^= 1 << c.rng.below(8);
                ok(nopanic("eddsa-unmarshal", || k3.unmarshal_binary(&e))?, "eddsa-unmarshal")?;
            }
        }
        ensure!(k3 != k && k != k3, "equality", "keys differing in part {} compare equal", part);
    }
    c.ev("keys-told-apart");
    // an encoding with another public half is refused or gives the key of the seed
    let mut e = enc.clone();
    if c.rng.bool() {
        e[32 + c.rng.below(32)] ^= 1 << c.rng.below(8);
    } else {
        e[32..].copy_from_slice(&pbytes(&o.public)?);
    }
    let mut k3 = ed_from_seed(&c.rng.arr())?;
    let held = snapshot(&k3)?;
    match nopanic("eddsa-unmarshal", || k3.unmarshal_binary(&e))? {
        Ok(()) => ensure!(snapshot(&k3)? == before, "import-mismatch", "a key is imported with a public half that is not its own: {}", hex::encode(&e)),
        Err(_) => ensure!(snapshot(&k3)? == held, "import-clobbers", "refused import changed the key"),
    }
    c.ev("import-mismatched");
    for _ in 0..3 {
        let m = message(&mut c.rng);
        let mut st = seed.to_vec();
        st.extend_from_slice(&m);
        c.state(&st);
        let sig = ok(nopanic("eddsa-sign", || k.sign(&m))?, "eddsa-sign")?;
        let want = dk.sign(&m).to_bytes();
        ensure!(sig == want, "signature-bytes", "seed {} msg[{}] {}: signature {} want {}", hex::encode(seed), m.len(), hex::encode(&m[..m.len().min(64)]), hex::encode(sig), hex::encode(want));
        ensure!(ok(k.sign(&m), "eddsa-sign")? == sig, "deterministic", "signing twice differs");
        ensure!(ok(k2.sign(&m), "eddsa-sign")? == sig, "import-signs", "imported key signs differently");
        let v = nopanic("eddsa-verify", || eddsa::verify(&k.public, &m, &sig))?;
        ok(v, "verify-own")?;
        ok(eddsa::verify_with_checks(&pbytes(&k.public)?, &m, &sig), "verify-own")?;
        c.ev("eddsa-signature");
    }
    ensure!(snapshot(&k)? == before, "key-changed", "signing changed the key");
    // wrong lengths are refused and change nothing
    for n in [0usize, 31, 32, 63, 65, 128] {
        let mut k3 = ed_from_seed(&seed)?;
        let b = c.rng.bytes(n);
        let r = nopanic("eddsa-unmarshal-bad", || k3.unmarshal_binary(&b))?;
        ensure!(r.is_err(), "import-length", "key of {} bytes accepted", n);
        ensure!(snapshot(&k3)? == before, "import-clobbers", "refused import changed the key");
        c.ev("import-refused");
    }
    Ok(())
}

fn ed_nonce(c: &mut Case) -> Res {
    // keys of both origins: the commitment never depends on public data only
    let m = message(&mut c.rng);
    let mut seen = std::collections::HashMap::new();
    for i in 0..4 {
        let (k, what) = if i % 2 == 0 {
            (ed_from_seed(&c.rng.arr())?, "seed")
        } else {
            let p: Pair<Point> = ok(new_key_pair(&MonSuite {}), "pair")?;
            (nopanic("eddsa-from-pair", || eddsa::EdDSA::<Curve>::from(p))?, "pair")
        };
        let sig = ok(nopanic("eddsa-sign", || k.sign(&m))?, "eddsa-sign")?;
        ok(eddsa::verify(&k.public, &m, &sig), "verify-own")?;
        ensure!(ok(k.sign(&m), "sign")? == sig, "deterministic", "signing twice differs");
        let pb = pbytes(&k.public)?;
        // a key that can be written at all is read back with the same nonces
        match nopanic("eddsa-marshal", || k.marshal_binary())? {
            Err(_) => {
                ensure!(what == "pair", "export", "a key with a seed cannot be exported");
                c.ev("export-refused");
            }
            Ok(b) => {
                let mut k2 = eddsa::EdDSA::<Curve>::default();
                ok(nopanic("eddsa-unmarshal", || k2.unmarshal_binary(&b))?, "eddsa-unmarshal")?;
                ensure!(ok(nopanic("eddsa-sign", || k2.sign(&m))?, "sign")? == sig, "import-signs", "key made from a {} signs differently after export and import", what);
                c.ev("exported");
            }
        }
        // nonces an outsider could compute
        let x = red(&sbytes_raw(&k.secret)?);
        let h = h512(&[&sig[..32], &pb, &m]);
        let s: [u8; 32] = sig[32..].try_into().unwrap();
        let hx = mulm(&h, &x);
        let r = le32(&modl(&(from_le(&s) + ell() - from_le(&hx))));
        ensure!(denc(&(dbase() * ds(&r))) == sig[..32], "nonce", "R is not the nonce's commitment");
        for (w, cand) in [
            ("H(msg)", h512(&[&m])),
            ("H(A,msg)", h512(&[&pb, &m])),
            ("H(msg,A)", h512(&[&m, &pb])),
            ("H(A)", h512(&[&pb])),
            ("0", [0u8; 32]),
        ] {
            ensure!(cand != r, "public-nonce", "nonce of a key made from a {} is {}: the private key can be computed from one signature", what, w);
        }
        if let Some(w) = seen.insert(sig[..32].to_vec(), what) {
            return fail("shared-commitment", format!("two different keys ({} and {}) share a commitment", w, what));
        }
        c.state(&sig);
        c.ev("nonce-checked");
        // same key, other message: other commitment
        let mut m2 = m.clone();
        m2.push(1);
        let sig2 = ok(k.sign(&m2), "sign")?;
        ensure!(sig2[..32] != sig[..32], "shared-commitment", "one key, two messages, one commitment");
    }
    Ok(())
}
/// private key bytes as held (not reduced); reduction is done by the caller
fn sbytes_raw(s: &Scalar) -> Res<Vec<u8>> {
    Ok(sbytes(s)?.to_vec())
}

pub fn run_c10(ctx: &Ctx) {
    ctx.rule("A signing case counts by (seed, message).");
    ctx.assume("ed25519-dalek is the RFC 8032 reference");
    ctx.family("conform", ctx.n(6000, 150000), ed_conform);
    ctx.family("nonce", ctx.n(3000, 50000), ed_nonce);
    ctx.require("eddsa-signature", 3000);
    ctx.require("nonce-checked", 1000);
    ctx.require("import-refused", 1000);
}

// ---------------------------------------------------------------- C11

fn judge(c: &mut Case, pk: &[u8], m: &[u8], sig: &[u8], kind: &str) -> Res {
    let want = spec_verify(pk, m, sig);
    c.ev(if want.is_ok() { "valid" } else { "invalid" });
    c.ev(&format!("kind:{}", kind));
    if let Err(e) = want {
        c.ev(&format!("reject:{}", e));
    }
    let d = || format!("{}: A={} R||s={} msg={} spec={:?}", kind, hex::encode(pk), hex::encode(sig), hex::encode(&m[..m.len().min(80)]), want);
    let got = nopanic("verify_with_checks", || eddsa::verify_with_checks(pk, m, sig))?;
    ensure!(got.is_ok() == want.is_ok(), format!("eddsa-verify:{}", want.err().unwrap_or("valid")), "eddsa::verify_with_checks says {:?}; {}", got, d());
    // through point objects: the key is the canonical encoding of the decoded point
    let mut p = Point::new();
    if let Ok(Ok(())) = Ok::<_, Fail>(nopanic("point-decode", || p.unmarshal_binary(pk))?) {
        let ab = pbytes(&p)?;
        let want = spec_verify(&ab, m, sig);
        let got = nopanic("eddsa-verify", || eddsa::verify(&p, m, sig))?;
        ensure!(got.is_ok() == want.is_ok(), format!("eddsa-verify-point:{}", want.err().unwrap_or("valid")), "eddsa::verify says {:?}, spec {:?}; {}", got, want, d());
        let su = SuiteEd25519::new_blake3_sha256_ed25519();
        let got = nopanic("schnorr-verify", || schnorr::verify(su, &p, m, sig))?;
        ensure!(got.is_ok() == want.is_ok(), format!("schnorr-verify:{}", want.err().unwrap_or("valid")), "schnorr::verify says {:?}, spec {:?}; {}", got, want, d());
        c.ev("point-verify");
    }
    Ok(())
}

/// a signature by a key with torsion component ta and commitment torsion tr,
/// the message chosen so that the verification equation holds (or not)
fn forge(r: &mut Rng, ta: usize, tr: usize, small_r: bool, holds: bool) -> Option<([u8; 32], Vec<u8>, [u8; 64])> {
    let a = nasty_canon(r);
    let k = if small_r { [0u8; 32] } else { nasty_canon(r) };
    if a == [0u8; 32] || (!small_r && k == [0u8; 32]) {
        return None;
    }
    let ap = imul(&a, &dbase()) + torsion(ta);
    let rp = imul(&k, &dbase()) + torsion(tr);
    let (ab, rb) = (denc(&ap), denc(&rp));
    for _ in 0..64 {
        let m = r.bytes(9);
        let h = h512(&[&rb, &ab, &m]);
        let h8 = (h[0] & 7) as usize;
        // h * Ta (h taken modulo the order, as the verifier does) + Tr must vanish
        let t: EdwardsPoint = (0..h8).fold(torsion(tr), |x, _| x + torsion(ta));
        let z = t == torsion(0);
        if z == holds {
            let s = addm(&k, &mulm(&h, &a));
            let mut sig = [0u8; 64];
            sig[..32].copy_from_slice(&rb);
            sig[32..].copy_from_slice(&s);
            return Some((ab, m, sig));
        }
    }
    None
}

fn small_encodings() -> Vec<[u8; 32]> {
    // every 32-byte string that decodes (loosely) to a small-order point
    let mut v = vec![];
    for i in 0..8 {
        let e = denc(&torsion(i));
        v.push(e);
        let mut f = e;
        f[31] ^= 0x80;
        v.push(f);
        let mut y = e;
        y[31] &= 0x7f;
        let n = from_le(&y) + p25519();
        if n < (BigUint::from(1u8) << 255) {
            let b = le32(&n);
            v.push(b);
            let mut g = b;
            g[31] |= 0x80;
            v.push(g);
        }
    }
    v
}

fn verify_cases(c: &mut Case) -> Res {
    // an honest signature, made by one of several signers
    let seed: [u8; 32] = c.rng.arr();
    let m = message(&mut c.rng);
    let dk = ed25519_dalek::SigningKey::from_bytes(&seed);
    let (pk, sig): ([u8; 32], Vec<u8>) = match c.rng.below(3) {
        0 => (dk.verifying_key().to_bytes(), dk.sign(&m).to_bytes().to_vec()),
        1 => {
            let k = ed_from_seed(&seed)?;
            (pbytes(&k.public)?, ok(k.sign(&m), "sign")?.to_vec())
        }
        _ => {
            let x = nasty_canon(&mut c.rng);
            let x = if x == [0u8; 32] { le32(&BigUint::from(1u8)) } else { x };
            (denc(&imul(&x, &dbase())), ok(nopanic("schnorr-sign", || schnorr::sign(&MonSuite {}, &ks(&x).unwrap(), &m))?, "sign")?)
        }
    };
    ensure!(spec_verify(&pk, &m, &sig).is_ok(), "honest-signature-invalid", "a library signature does not satisfy the specification: A={} sig={}", hex::encode(pk), hex::encode(&sig));
    let mut st = pk.to_vec();
    st.extend_from_slice(&sig);
    c.state(&st);
    judge(c, &pk, &m, &sig, "honest")?;
    // flipped bits everywhere
    for _ in 0..6 {
        let mut s = sig.clone();
        let i = c.rng.below(512);
        s[i / 8] ^= 1 << (i % 8);
        judge(c, &pk, &m, &s, "sig-bit")?;
        let mut k = pk;
        let i = c.rng.below(256);
        k[i / 8] ^= 1 << (i % 8);
        judge(c, &k, &m, &sig, "key-bit")?;
        let mut mm = m.clone();
        if mm.is_empty() || c.rng.below(3) == 0 {
            mm.push(0);
        } else {
            let i = c.rng.below(mm.len() * 8);
            mm[i / 8] ^= 1 << (i % 8);
        }
        judge(c, &pk, &mm, &sig, "msg-bit")?;
    }
    if !m.is_empty() {
        judge(c, &pk, &m[..m.len() - 1], &sig, "msg-cut")?;
    }
    // lengths
    for n in [0usize, 1, 31, 32, 33, 63] {
        judge(c, &pk, &m, &sig[..n], "sig-short")?;
    }
    let mut s = sig.clone();
    s.push(0);
    judge(c, &pk, &m, &s, "sig-long")?;
    let mut s = sig.clone();
    let s2 = sig.clone();
    s.extend_from_slice(&s2);
    judge(c, &pk, &m, &s, "sig-long")?;
    for n in [0usize, 1, 31] {
        judge(c, &pk[..n], &m, &sig, "key-short")?;
    }
    let mut kk = pk.to_vec();
    kk.push(0);
    judge(c, &kk, &m, &sig, "key-long")?;
    // malleated response: s + k*ell, still the same value modulo the order
    let sv = from_le(&sig[32..]);
    for k in 1..16u8 {
        let v = &sv + ell() * BigUint::from(k);
        if v < (BigUint::from(1u8) << 256) {
            let mut s = sig.clone();
            s[32..].copy_from_slice(&le32(&v));
            judge(c, &pk, &m, &s, "s-plus-order")?;
        }
    }
    let mut s = sig.clone();
    s[32..].copy_from_slice(&le32(&(ell() - BigUint::from(c.rng.below(2) as u64))));
    judge(c, &pk, &m, &s, "s-border")?;
    // negated response / commitment / key
    let mut s = sig.clone();
    s[32..].copy_from_slice(&le32(&modl(&(ell() - &sv))));
    judge(c, &pk, &m, &s, "s-negated")?;
    // torsion-shifted commitment and key
    for i in 1..8 {
        let rp = dp(&sig[..32].try_into().unwrap()).unwrap();
        let mut s = sig.clone();
        s[..32].copy_from_slice(&denc(&(rp + torsion(i))));
        judge(c, &pk, &m, &s, "R-torsion")?;
        judge(c, &denc(&(dp(&pk).unwrap() + torsion(i))), &m, &sig, "A-torsion")?;
    }
    // key and commitment swapped; other key
    let mut s = sig.clone();
    s[..32].copy_from_slice(&pk);
    judge(c, &pk, &m, &s, "R-is-A")?;
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    judge(c, &rb, &m, &sig, "A-is-R")?;
    Ok(())
}

fn verify_torsion(c: &mut Case) -> Res {
    let (ta, tr) = (c.idx % 8, (c.idx / 8) % 8);
    for small_r in [false, true] {
        for holds in [true, false] {
            if let Some((a, m, sig)) = forge(&mut c.rng, ta, tr, small_r, holds) {
                let mut st = a.to_vec();
                st.extend_from_slice(&sig);
                c.state(&st);
                let kind = match (small_r, holds) {
                    (false, true) => "mixed-order-holds",
                    (false, false) => "cofactored-only",
                    (true, true) => "small-R-holds",
                    (true, false) => "small-R",
                };
                judge(c, &a, &m, &sig, kind)?;
            }
        }
    }
    Ok(())
}

fn verify_small(c: &mut Case) -> Res {
    // small-order keys and commitments, in every encoding that decodes to them
    let enc = small_encodings();
    let ab = enc[c.idx % enc.len()];
    let m = message(&mut c.rng);
    let Some(ap) = dp(&ab) else { return Ok(()) };
    // R chosen so that the equation may hold: R = sB - hA for guessed h mod 8
    let s = nasty_canon(&mut c.rng);
    c.state(&[&ab[..], &s[..]].concat());
    for h8 in 0..8usize {
        let hp: EdwardsPoint = (0..h8).fold(torsion(0), |x, _| x + ap);
        let rp = imul(&s, &dbase()) - hp;
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(&denc(&rp));
        sig[32..].copy_from_slice(&s);
        judge(c, &ab, &m, &sig, "small-A")?;
        // and as commitment under an honest key
        let x = nasty_canon(&mut c.rng);
        if x == [0u8; 32] {
            continue;
        }
        let pk = denc(&imul(&x, &dbase()));
        let h = h512(&[&ab, &pk, &m]);
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(&ab);
        sig[32..].copy_from_slice(&mulm(&h, &x));
        judge(c, &pk, &m, &sig, "small-R-enc")?;
        // the verifier might hash the canonical re-encoding instead
        let h = h512(&[&denc(&ap), &pk, &m]);
        sig[32..].copy_from_slice(&mulm(&h, &x));
        judge(c, &pk, &m, &sig, "small-R-enc")?;
        // s = 0, all small
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(&enc[c.rng.below(enc.len())]);
        judge(c, &ab, &m, &sig, "all-small")?;
    }
    Ok(())
}

fn verify_noncanon(c: &mut Case) -> Res {
    // y in [p, 2^255): non-canonical spellings of real points, plus their canonical twins
    let y = c.idx as u64 % 19;
    let m = message(&mut c.rng);
    for sign in [0u8, 0x80] {
        let mut nc = le32(&(p25519() + BigUint::from(y)));
        nc[31] |= sign;
        let mut ca = le32(&BigUint::from(y));
        ca[31] |= sign;
        let s = nasty_canon(&mut c.rng);
        c.state(&[&nc[..], &s[..]].concat());
        for e in [nc, ca] {
            // as key: choose h first is impossible; any signature by an honest key
            let mut sig = [0u8; 64];
            sig[..32].copy_from_slice(&denc(&imul(&s, &dbase())));
            sig[32..].copy_from_slice(&s);
            judge(c, &e, &m, &sig, "noncanonical-A")?;
            // as commitment
            let x = nasty_canon(&mut c.rng);
            if x == [0u8; 32] {
                continue;
            }
            let pk = denc(&imul(&x, &dbase()));
            sig[..32].copy_from_slice(&e);
            sig[32..].copy_from_slice(&mulm(&h512(&[&e, &pk, &m]), &x));
            judge(c, &pk, &m, &sig, "noncanonical-R")?;
        }
    }
    Ok(())
}

fn verify_garbage(c: &mut Case) -> Res {
    let n = if c.rng.bool() { 64 } else { c.rng.below(140) };
    let kn = if c.rng.below(4) > 0 { 32 } else { c.rng.below(70) };
    let sig = match c.rng.below(4) {
        0 => vec![0u8; n],
        1 => vec![0xff; n],
        _ => c.rng.bytes(n),
    };
    let mut pk = c.rng.bytes(kn);
    if kn == 32 && c.rng.bool() {
        pk = denc(&nasty_point(&mut c.rng).0).to_vec();
    }
    let mut sig = sig;
    if n == 64 && c.rng.bool() {
        sig[..32].copy_from_slice(&denc(&nasty_point(&mut c.rng).0));
        sig[32..].copy_from_slice(&nasty32(&mut c.rng));
    }
    c.state(&[&pk[..], &sig[..]].concat());
    let m = message(&mut c.rng);
    judge(c, &pk, &m, &sig, "garbage")
}

/// Signatures whose response has a rare shape, found by trying messages: the
/// smallest and largest, the ones with extreme halves or bytes.
fn verify_shaped(c: &mut Case) -> Res {
    let a = nasty_canon(&mut c.rng);
    let k = nasty_canon(&mut c.rng);
    if a == [0u8; 32] || k == [0u8; 32] {
        return Ok(());
    }
    let (ab, rb) = (denc(&imul(&a, &dbase())), denc(&imul(&k, &dbase())));
    let (av, kv) = (ds(&a), ds(&k));
    let salt: [u8; 4] = c.rng.arr();
    let n = if c.tier == Tier::Thorough { 20000u32 } else { 3000 };
    let mut all = vec![];
    for i in 0..n {
        let m = [&salt[..], &i.to_le_bytes()[..]].concat();
        let h = ds(&h512(&[&rb, &ab, &m]));
        let s = (h * av + kv).to_bytes();
        all.push((s, m));
    }
    let half = |b: &[u8; 32], i: usize| u128::from_le_bytes(b[16 * i..16 * i + 16].try_into().unwrap());
    let l = le32(&ell());
    let mut pick: Vec<usize> = vec![];
    let mut best = |f: &dyn Fn(&[u8; 32]) -> (u128, u128)| {
        let mut v: Vec<usize> = (0..all.len()).collect();
        v.sort_by_key(|i| f(&all[*i].0));
        pick.extend_from_slice(&v[..2]);
        pick.extend_from_slice(&v[v.len() - 2..]);
    };
    best(&|s| (half(s, 1), half(s, 0)));
    best(&|s| (half(s, 0), 0));
    // a top byte equal to that of the order, or none, with extreme low halves
    best(&|s| (if s[31] == 0 { 0 } else { 1 }, half(s, 0)));
    best(&|s| (if s[31] == 0 { 0 } else { 1 }, !half(s, 0)));
    best(&|s| (s.iter().filter(|b| **b == 0).count() as u128, 0));
    best(&|s| (s.iter().filter(|b| **b == 0xff).count() as u128, 0));
    best(&|s| (s.iter().zip(&l).filter(|(x, y)| x == y).count() as u128, 0));
    let i = c.rng.below(31);
    best(&|s| (s[i] as u128, s[i + 1] as u128));
    let (lo, hi) = (half(&l, 0), half(&l, 1));
    // s + order close to the order in either half
    best(&|s| (half(s, 0).wrapping_add(lo) ^ lo, 0));
    best(&|s| (half(s, 1).wrapping_add(hi) ^ hi, 0));
    c.state(&[&ab[..], &rb[..]].concat());
    for i in pick {
        let (s, m) = &all[i];
        let sig = [&rb[..], &s[..]].concat();
        judge(c, &ab, m, &sig, "shaped")?;
        let sv = from_le(s);
        for k in 1..16u8 {
            let v = &sv + ell() * BigUint::from(k);
            if v < (BigUint::from(1u8) << 256) {
                let t = [&rb[..], &le32(&v)[..]].concat();
                judge(c, &ab, m, &t, "shaped-plus-order")?;
            }
        }
        c.ev("shaped");
    }
    Ok(())
}

pub fn run_c11(ctx: &Ctx) {
    ctx.rule("A verification case counts by (public key, signature); every triple is judged by both verifiers and by the specification oracle.");
    ctx.assume("curve25519-dalek decodes and multiplies correctly; the challenge is reduced modulo the group order before multiplying (as in all implementations without cofactor)");
    ctx.family("mutations", ctx.n(500, 15000), verify_cases);
    ctx.family("torsion", ctx.n(64 * 12, 64 * 200), verify_torsion);
    ctx.family("small", ctx.n(300, 6000), verify_small);
    ctx.family("noncanonical", ctx.n(19 * 12, 19 * 200), verify_noncanon);
    ctx.family("garbage", ctx.n(5000, 100000), verify_garbage);
    ctx.family("shaped", ctx.n(60, 1500), verify_shaped);
    for (e, n) in [
        ("valid", 500), ("reject:equation", 1000), ("reject:s not below the order", 1000), ("reject:R not canonical", 20), ("reject:A not canonical", 20),
        ("reject:R small order", 100), ("reject:A small order", 100), ("kind:mixed-order-holds", 100), ("kind:cofactored-only", 100), ("shaped", 1000),
    ] {
        ctx.require(e, n);
    }
}

// ---------------------------------------------------------------- C12

fn schnorr_sign(c: &mut Case) -> Res {
    let s = MonSuite {};
    with_log(|l| l.recording = true);
    let mut commits = std::collections::HashMap::new();
    let mut nonces: Vec<[u8; 32]> = vec![];
    let mut keys: Vec<[u8; 32]> = vec![];
    let runs = 12;
    let fixed_m = message(&mut c.rng);
    for i in 0..runs {
        // keys: fresh, reused, clamped/unreduced, small
        let x: [u8; 32] = match c.rng.below(5) {
            0 if !keys.is_empty() => *c.rng.choose(&keys),
            1 => {
                let mut b: [u8; 32] = c.rng.arr();
                b[0] &= 248;
                b[31] &= 127;
                b[31] |= 64;
                b
            }
            2 => nasty255(&mut c.rng),
            _ => nasty_canon(&mut c.rng),
        };
        if red(&x) == [0u8; 32] {
            continue;
        }
        keys.push(x);
        let m = if c.rng.bool() { fixed_m.clone() } else { message(&mut c.rng) };
        with_log(|l| l.draws.clear());
        let key = ks(&x)?;
        let sig = ok(nopanic("schnorr-sign", || schnorr::sign(&s, &key, &m))?, "schnorr-sign")?;
        let drawn: usize = with_log(|l| l.draws.iter().map(|d| d.1.len()).sum());
        ensure!(drawn >= 32, "nonce-not-drawn", "signature drew {} random bytes", drawn);
        ensure!(sig.len() == 64, "sig-length", "signature has {} bytes", sig.len());
        let pkd = imul(&x, &dbase());
        let pk = denc(&pkd);
        c.state(&sig);
        ensure!(spec_verify(&pk, &m, &sig).is_ok(), "schnorr-invalid", "signature {} by key {} on msg[{}] violates the specification: {:?}", hex::encode(&sig), hex::encode(x), m.len(), spec_verify(&pk, &m, &sig));
        let p = kp(&pk)?;
        ok(nopanic("schnorr-verify", || schnorr::verify(s, &p, &m, &sig))?, "schnorr-verify")?;
        ok(nopanic("eddsa-verify", || eddsa::verify(&p, &m, &sig))?, "schnorr-as-eddsa")?;
        let vk = ed25519_dalek::VerifyingKey::from_bytes(&pk);
        if let Ok(vk) = vk {
            let sg = ed25519_dalek::Signature::from_bytes(&sig.clone().try_into().unwrap());
            ensure!(vk.verify_strict(&m, &sg).is_ok(), "schnorr-as-eddsa", "independent EdDSA verifier rejects");
        }
        c.ev("schnorr-signature");
        // the nonce, from the private key
        let h = h512(&[&sig[..32], &pk, &m]);
        let hx = mulm(&h, &red(&x));
        let sv: [u8; 32] = sig[32..].try_into().unwrap();
        let k = le32(&modl(&(from_le(&sv) + ell() - from_le(&hx))));
        ensure!(denc(&(dbase() * ds(&k))) == sig[..32], "nonce", "commitment is not the nonce times base");
        nonces.push(k);
        if let Some(j) = commits.insert(sig[..32].to_vec(), i) {
            return fail("nonce-reuse", format!("signatures {} and {} share their commitment", j, i));
        }
        c.ev("nonce-checked");
    }
    // nonces unrelated to each other: no equal differences (counter-like nonces)
    let mut diffs = std::collections::HashSet::new();
    for w in nonces.windows(2) {
        let d = modl(&(from_le(&w[1]) + ell() - from_le(&w[0])));
        ensure!(diffs.insert(d.clone()), "nonce-related", "successive nonces differ by the same amount");
        ensure!(d.bits() > 128, "nonce-related", "successive nonces differ by only {} bits", d.bits());
    }
    Ok(())
}

fn schnorr_nonce_stats(c: &mut Case) -> Res {
    // every bit of the nonce takes both values; the nonce follows the stream only
    let s = MonSuite {};
    let x = ks(&nasty_canon(&mut c.rng))?;
    let xb = sbytes(&x)?;
    if xb == [0u8; 32] {
        return Ok(());
    }
    let pk = denc(&imul(&xb, &dbase()));
    let m = message(&mut c.rng);
    let (mut or, mut and) = ([0u8; 32], [0xffu8; 32]);
    for _ in 0..128 {
        let sig = ok(nopanic("schnorr-sign", || schnorr::sign(&s, &x, &m))?, "sign")?;
        let h = h512(&[&sig[..32], &pk, &m]);
        let sv: [u8; 32] = sig[32..].try_into().unwrap();
        let k = le32(&modl(&(from_le(&sv) + ell() - from_le(&mulm(&h, &xb)))));
        for i in 0..32 {
            or[i] |= k[i];
            and[i] &= k[i];
        }
    }
    for bit in 0..252 {
        let (i, b) = (bit / 8, 1u8 << (bit % 8));
        ensure!(or[i] & b != 0 && and[i] & b == 0, "nonce-bias", "bit {} of 128 nonces is constant", bit);
    }
    c.ev("nonce-bits");
    c.state(&xb);
    // replaying the stream replays the signature, another stream gives another one
    let lab = format!("c12 replay {}", c.rng.u64());
    seed_thread(&lab);
    let a = ok(schnorr::sign(&s, &x, &m), "sign")?;
    seed_thread(&lab);
    let b = ok(schnorr::sign(&s, &x, &m), "sign")?;
    ensure!(a == b, "nonce-source", "same random stream, different signature");
    seed_thread(&format!("{} other", lab));
    let d = ok(schnorr::sign(&s, &x, &m), "sign")?;
    ensure!(a[..32] != d[..32], "nonce-source", "the nonce does not depend on the random stream");
    c.ev("stream-replay");
    // a dead stream never yields a signature
    with_log(|l| l.fail = true);
    let r = guard(|| schnorr::sign(&s, &x, &m));
    with_log(|l| l.fail = false);
    if let Guard::Val(Ok(_)) = r {
        return fail("dead-stream", "a signature was made although the random stream failed");
    }
    // with the library's own suite
    let su = SuiteEd25519::new_blake3_sha256_ed25519();
    let a = ok(schnorr::sign(&su, &x, &m), "sign")?;
    let b = ok(schnorr::sign(&su, &x, &m), "sign")?;
    ensure!(a[..32] != b[..32], "nonce-reuse", "default suite reuses a nonce");
    ok(schnorr::verify(su, &Point::new().mul(&x, None), &m, &a), "verify")?;
    Ok(())
}

pub fn run_c12(ctx: &Ctx) {
    ctx.rule("A Schnorr signature counts by its 64 bytes.");
    ctx.assume("private keys are non-zero modulo the group order (the zero key has the identity as public key, which verification refuses by design) and below 2^255");
    let _ = Scalar::new().zero();
    let _ = MonStream::open();
    ctx.family("sign", ctx.n(800, 20000), schnorr_sign);
    ctx.family("nonce", ctx.n(60, 1000), schnorr_nonce_stats);
    ctx.require("schnorr-signature", 3000);
    ctx.require("nonce-checked", 3000);
    ctx.require("stream-replay", 20);
}
