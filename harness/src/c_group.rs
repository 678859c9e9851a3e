//! C02..C05: curve law, codec, predicates, embedding — against curve25519-dalek.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::{MonStream, MonSuite};
use curve25519_dalek::edwards::EdwardsPoint;
use curve25519_dalek::traits::Identity;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::PointCanCheckCanonicalAndSmallOrder;
use kyber_rs::{Group, Point as PointT, XOFFactory};
use num_bigint_dig::BigUint;

fn same(c: &mut Case, op: &str, got: &Point, want: &EdwardsPoint, what: impl FnOnce() -> String) -> Res {
    c.ev(op);
    let g = pbytes(got)?;
    let w = denc(want);
    ensure!(g == w, op.to_string(), "{}: got {} want {} ({})", op, hex::encode(g), hex::encode(w), what());
    Ok(())
}

/// a library point for the same group element, in a representation produced by
/// different routes
pub fn repr(c: &mut Case, d: &EdwardsPoint) -> Res<Point> {
    let p = kp(&denc(d))?;
    Ok(match c.rng.below(6) {
        0 => p,
        1 => {
            // through p + q - q
            let q = kp(&denc(&nasty_point(&mut c.rng).0))?;
            let s = Point::new().add(&p, &q);
            Point::new().sub(&s, &q)
        }
        2 => Point::new().mul(&ks(&le32(&BigUint::from(1u8)))?, Some(&p)),
        3 => {
            let mut t = Point::new();
            let n = t.neg(&p);
            t.neg(&n)
        }
        4 => {
            let n = Point::new().null();
            Point::new().add(&n, &p)
        }
        _ => {
            // scaled projective coordinates: ((x+q)+r)-(q+r)
            let q = kp(&denc(&nasty_point(&mut c.rng).0))?;
            let r = kp(&denc(&nasty_point(&mut c.rng).0))?;
            let qr = Point::new().add(&q, &r);
            let s = Point::new().add(&Point::new().add(&p, &q), &r);
            Point::new().sub(&s, &qr)
        }
    })
}

/// the same point with variable-time multiplication enabled (only reachable
/// through the serialised form)
fn vartime(p: &Point) -> Option<Point> {
    let mut b = bincode::serialize(p).ok()?;
    let n = b.len();
    if n != 161 || b[n - 1] != 0 {
        return None;
    }
    b[n - 1] = 1;
    let q: Point = bincode::deserialize(&b).ok()?;
    if q == *p {
        Some(q)
    } else {
        None
    }
}

fn dirty(c: &mut Case) -> Res<Point> {
    let (d, _) = nasty_point(&mut c.rng);
    repr(c, &d)
}

fn law(c: &mut Case) -> Res {
    let (d1, k1) = nasty_point(&mut c.rng);
    let (mut d2, mut k2) = nasty_point(&mut c.rng);
    match c.rng.below(6) {
        0 => {
            d2 = d1;
            k2 = "same";
        }
        1 => {
            d2 = -d1;
            k2 = "opposite";
        }
        _ => {}
    }
    let p = repr(c, &d1)?;
    let q = repr(c, &d2)?;
    let r = dirty(c)?;
    let inp = || format!("P={} ({}) Q={} ({})", hex::encode(denc(&d1)), k1, hex::encode(denc(&d2)), k2);
    c.log(inp());
    let mut st = denc(&d1).to_vec();
    st.extend_from_slice(&denc(&d2));
    c.state(&st);
    same(c, "repr", &p, &d1, inp)?;
    same(c, "add", &r.add(&p, &q), &(d1 + d2), inp)?;
    same(c, "sub", &r.sub(&p, &q), &(d1 - d2), inp)?;
    same(c, "add-alias", &p.add(&p, &p), &(d1 + d1), inp)?;
    same(c, "sub-alias", &q.sub(&p, &q), &(d1 - d2), inp)?;
    same(c, "sub-alias", &p.sub(&p, &p), &EdwardsPoint::identity(), inp)?;
    let mut rr = r;
    same(c, "neg", &rr.neg(&p), &(-d1), inp)?;
    same(c, "neg-receiver", &rr, &(-d1), inp)?;
    let mut rr = r;
    same(c, "set", &rr.set(&p), &d1, inp)?;
    same(c, "set-receiver", &rr, &d1, inp)?;
    same(c, "null", &r.null(), &EdwardsPoint::identity(), inp)?;
    same(c, "base", &r.base(), &dbase(), inp)?;
    // operands untouched
    same(c, "operand-untouched", &p, &d1, inp)?;
    same(c, "operand-untouched", &q, &d2, inp)?;
    Ok(())
}

fn mulbase(c: &mut Case) -> Res {
    let k = nasty255(&mut c.rng);
    let s = ks(&k)?;
    let r = dirty(c)?;
    c.state(&k);
    let want = imul(&k, &dbase());
    let inp = || format!("k={}", hex::encode(k));
    c.log(inp());
    same(c, "mul-base", &r.mul(&s, None), &want, inp)?;
    // agreement of the two base-point paths
    let b = r.base();
    same(c, "mul-base-explicit", &Point::new().mul(&s, Some(&b)), &want, inp)?;
    Ok(())
}

fn mulvar(c: &mut Case) -> Res {
    let k = nasty255(&mut c.rng);
    let s = ks(&k)?;
    let (d, kind) = nasty_point(&mut c.rng);
    let p = repr(c, &d)?;
    let r = dirty(c)?;
    let mut st = k.to_vec();
    st.extend_from_slice(&denc(&d));
    c.state(&st);
    let want = imul(&k, &d);
    let inp = || format!("k={} P={} ({})", hex::encode(k), hex::encode(denc(&d)), kind);
    c.log(inp());
    same(c, "mul", &r.mul(&s, Some(&p)), &want, inp)?;
    same(c, "mul-alias", &p.mul(&s, Some(&p)), &want, inp)?;
    same(c, "operand-untouched", &p, &d, inp)?;
    ensure!(s.v == k, "scalar-changed", "multiplication changed the scalar");
    match vartime(&r) {
        Some(rv) => {
            same(c, "mul-vartime", &rv.mul(&s, Some(&p)), &want, inp)?;
            let one = imul(&k, &dbase());
            same(c, "mul-vartime-base", &rv.mul(&s, None), &one, inp)?;
        }
        None => c.ev("vartime-unavailable"),
    }
    Ok(())
}

/// distributivity and associativity on big combinations, i.e. the homomorphism
/// the protocols rely on, plus a long register history
fn history(c: &mut Case) -> Res {
    const N: usize = 5;
    let mut regs: Vec<Point> = vec![];
    let mut sh: Vec<EdwardsPoint> = vec![];
    for _ in 0..N {
        let (d, _) = nasty_point(&mut c.rng);
        regs.push(repr(c, &d)?);
        sh.push(d);
    }
    let steps = if c.thorough() { 120 } else { 40 };
    for st in 0..steps {
        let (i, j, k) = (c.rng.below(N), c.rng.below(N), c.rng.below(N));
        let (a, b) = (regs[i], regs[j]);
        let name;
        let (v, n) = match c.rng.below(8) {
            0 | 1 => {
                name = "add";
                (regs[k].add(&a, &b), sh[i] + sh[j])
            }
            2 | 3 => {
                name = "sub";
                (regs[k].sub(&a, &b), sh[i] - sh[j])
            }
            4 => {
                name = "neg";
                let mut t = regs[k];
                (t.neg(&a), -sh[i])
            }
            5 => {
                name = "double";
                (regs[k].add(&a, &a), sh[i] + sh[i])
            }
            6 => {
                name = "mul";
                let s = nasty255(&mut c.rng);
                (regs[k].mul(&ks(&s)?, Some(&a)), imul(&s, &sh[i]))
            }
            _ => {
                name = "mulbase";
                let s = nasty255(&mut c.rng);
                (regs[k].mul(&ks(&s)?, None), imul(&s, &dbase()))
            }
        };
        regs[k] = v;
        sh[k] = n;
        c.log(format!("{}: r{} = {} r{} r{}", st, k, name, i, j));
        same(c, &format!("history-{}", name), &v, &n, || format!("step {}", st))?;
    }
    for q in 0..N {
        same(c, "history-final", &regs[q], &sh[q].clone(), || format!("register {}", q))?;
    }
    c.state(&regs.iter().map(|p| pbytes(p).unwrap_or([0; 32]).to_vec()).collect::<Vec<_>>().concat());
    Ok(())
}

pub fn run_c02(ctx: &Ctx) {
    ctx.rule("points drawn from identity/base/torsion/mixed/prime-order classes in several projective representations, scalars below 2^255 from carry corner classes; distinct by operand bytes; each result compared with the independent curve");
    ctx.assume("curve25519-dalek addition, doubling and compression are trusted");
    ctx.family("law", ctx.n(8000, 200_000), law);
    ctx.family("mulbase", ctx.n(12_000, 400_000), mulbase);
    ctx.family("mulvar", ctx.n(8000, 200_000), mulvar);
    ctx.family("history", ctx.n(150, 4000), history);
    ctx.require("mul", 500);
    ctx.require("mul-vartime", 0);
}

// ---------------------------------------------------------------- C03

/// byte strings around every decision the decoder takes
fn nasty_enc(r: &mut Rng) -> [u8; 32] {
    let p = p25519();
    match r.below(12) {
        0 => {
            // y in [p-40, 2^255-1]
            let v = (&p - BigUint::from(40u8)) + BigUint::from(r.below(59) as u64);
            let mut b = le32(&v);
            if r.bool() {
                b[31] |= 0x80;
            }
            b
        }
        1 => {
            let mut b = le32(&BigUint::from(r.below(64) as u64));
            if r.bool() {
                b[31] |= 0x80;
            }
            b
        }
        2 => {
            // valid encoding with one bit flipped
            let mut b = denc(&nasty_point(r).0);
            let i = r.below(256);
            b[i / 8] ^= 1 << (i % 8);
            b
        }
        3 => {
            // wrong sign
            let mut b = denc(&nasty_point(r).0);
            b[31] ^= 0x80;
            b
        }
        4 => {
            // bytes ff.. with a chosen low byte
            let mut b = [0xffu8; 32];
            b[0] = r.u64() as u8;
            if r.bool() {
                b[31] = 0x7f;
            }
            b
        }
        5 => denc(&torsion(r.below(8))),
        6 => nasty32(r),
        7 => {
            let mut b = [0xffu8; 32];
            b[r.range(0, 31)] = r.u64() as u8;
            b[r.range(0, 31)] = r.u64() as u8;
            b
        }
        8 | 9 => denc(&nasty_point(r).0),
        _ => r.arr(),
    }
}

fn codec(c: &mut Case) -> Res {
    let b = nasty_enc(&mut c.rng);
    c.state(&b);
    let prev = dirty(c)?;
    let want = dp(&b);
    c.log(format!("decode {}", hex::encode(b)));
    let mut p = prev;
    let r = nopanic("decode", || p.unmarshal_binary(&b))?;
    match (&want, r) {
        (Some(d), Ok(())) => {
            c.ev("accepted");
            same(c, "decode-value", &p, d, || format!("decoding {}", hex::encode(b)))?;
            // re-encode, re-decode
            let e = pbytes(&p)?;
            let q = kp(&e)?;
            ensure!(q == p, "roundtrip", "decode(encode(P)) != P for {}", hex::encode(b));
            // arithmetic on the decoded point (checks all four coordinates)
            let t = Point::new().add(&p, &Point::new().base());
            same(c, "decode-usable", &t, &(d + dbase()), || format!("decoded {} plus base", hex::encode(b)))?;
        }
        (None, Err(_)) => c.ev("refused"),
        (Some(_), Err(e)) => return fail("decode-refuses-valid", format!("{} refused: {:?}", hex::encode(b), e)),
        (None, Ok(())) => return fail("decode-accepts-invalid", format!("{} accepted", hex::encode(b))),
    }
    // streams
    let mut src = b.to_vec();
    src.extend_from_slice(b"rest");
    let mut rd = &src[..];
    let mut p2 = prev;
    let r2 = p2.unmarshal_from(&mut rd);
    ensure!(r2.is_ok() == want.is_some(), "stream-decode", "stream decode of {} disagrees", hex::encode(b));
    ensure!(rd == b"rest", "stream-overread", "stream decode consumed {} bytes", src.len() - rd.len());
    if let Some(d) = &want {
        same(c, "stream-decode-value", &p2, d, || hex::encode(b))?;
        let mut w = vec![];
        ok(p2.marshal_to(&mut w), "stream-encode")?;
        ensure!(w == denc(d), "stream-encode", "stream encoding differs");
    }
    Ok(())
}

fn codec_len(c: &mut Case) -> Res {
    let n = match c.rng.below(5) {
        0 => 31,
        1 => 33,
        2 => 64,
        3 => 0,
        _ => c.rng.range(0, 100),
    };
    if n == 32 {
        return Ok(());
    }
    let mut b = denc(&nasty_point(&mut c.rng).0).to_vec();
    b.resize(n, 0);
    c.state(&b);
    let mut p = dirty(c)?;
    let r = nopanic("decode-length", || p.unmarshal_binary(&b))?;
    ensure!(r.is_err(), "decode-length", "accepted {} bytes", n);
    if n < 32 {
        let r = nopanic("decode-short-stream", || p.unmarshal_from(&mut &b[..]))?;
        ensure!(r.is_err(), "decode-short-stream", "accepted a {} byte stream", n);
    }
    // a reader that delivers one byte at a time is still fine
    struct Drip(Vec<u8>, usize);
    impl std::io::Read for Drip {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if b.is_empty() || self.1 >= self.0.len() {
                return Ok(0);
            }
            b[0] = self.0[self.1];
            self.1 += 1;
            Ok(1)
        }
    }
    let (d, _) = nasty_point(&mut c.rng);
    let mut q = dirty(c)?;
    ok(q.unmarshal_from(&mut Drip(denc(&d).to_vec(), 0)), "decode-drip")?;
    same(c, "decode-drip", &q, &d, String::new)?;
    // a failing writer is reported
    struct Bad;
    impl std::io::Write for Bad {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
            Err(std::io::Error::new(std::io::ErrorKind::Other, "no"))
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    ensure!(q.marshal_to(&mut Bad).is_err(), "encode-bad-writer", "failing writer not reported");
    ensure!(q.marshal_size() == 32, "size", "size {}", q.marshal_size());
    c.ev("length-refused");
    Ok(())
}

fn encode_any(c: &mut Case) -> Res {
    let (d, kind) = nasty_point(&mut c.rng);
    let p = repr(c, &d)?;
    c.state(&denc(&d));
    same(c, "encode", &p, &d, || kind.to_string())?;
    let h = hex::encode(denc(&d));
    ensure!(format!("{:x}", p) == h, "hex", "lower hex {:x} want {}", p, h);
    ensure!(format!("{:X}", p) == h.to_uppercase(), "hex", "upper hex");
    // serde keeps the element
    let s = ok(bincode::serialize(&p), "serde")?;
    let q: Point = ok(bincode::deserialize(&s), "serde")?;
    same(c, "serde", &q, &d, || kind.to_string())?;
    let j = ok(serde_json::to_string(&p), "serde")?;
    let q: Point = ok(serde_json::from_str(&j), "serde")?;
    same(c, "serde", &q, &d, || kind.to_string())?;
    Ok(())
}

pub fn run_c03(ctx: &Ctx) {
    ctx.rule("byte strings around every decoder decision (near the field prime, sign bit, bit flips of valid encodings, torsion, random) and points in several representations; distinct by bytes; accept/refuse and value compared with an independent codec");
    ctx.assume("curve25519-dalek decompression is trusted");
    ctx.family("codec", ctx.n(40_000, 1_000_000), codec);
    ctx.family("lengths", ctx.n(3000, 50_000), codec_len);
    ctx.family("encode", ctx.n(10_000, 300_000), encode_any);
    ctx.require("accepted", 1000);
    ctx.require("refused", 1000);
}

// ---------------------------------------------------------------- C04

fn hash_of(p: &Point) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

fn equality(c: &mut Case) -> Res {
    let (d1, k1) = nasty_point(&mut c.rng);
    let d2 = match c.rng.below(6) {
        0 => d1,
        1 => -d1,
        2 => d1 + torsion(c.rng.range(1, 7)),
        3 => {
            // same y, other sign / neighbours
            let mut b = denc(&d1);
            b[31] ^= 0x80;
            dp(&b).unwrap_or(d1)
        }
        4 => {
            let (e, _) = nasty_point(&mut c.rng);
            e
        }
        _ => d1,
    };
    let (p, q) = (repr(c, &d1)?, repr(c, &d2)?);
    let eq = denc(&d1) == denc(&d2);
    let mut st = denc(&d1).to_vec();
    st.extend_from_slice(&denc(&d2));
    c.state(&st);
    c.ev(if eq { "equal-pairs" } else { "distinct-pairs" });
    ensure!((p == q) == eq, "eq", "== says {} for {} ({}) and {}", p == q, hex::encode(denc(&d1)), k1, hex::encode(denc(&d2)));
    ensure!((p != q) != eq, "eq", "!= inconsistent");
    use std::cmp::Ordering::*;
    let o = p.cmp(&q);
    ensure!((o == Equal) == eq, "cmp", "cmp is {:?} but equality is {} ({}, {})", o, eq, k1, hex::encode(denc(&d1)));
    ensure!(q.cmp(&p) == o.reverse(), "cmp-antisymmetry", "cmp not antisymmetric");
    ensure!(p.partial_cmp(&q) == Some(o), "partial-cmp", "partial_cmp differs from cmp");
    if eq {
        ensure!(hash_of(&p) == hash_of(&q), "hash", "equal points hash differently");
    }
    // order does not depend on the representation
    let (p2, q2) = (repr(c, &d1)?, repr(c, &d2)?);
    ensure!(p2.cmp(&q2) == o, "cmp-representation", "order depends on the representation");
    // transitivity with a third
    let (d3, _) = nasty_point(&mut c.rng);
    let r = repr(c, &d3)?;
    let mut v = [p, q, r];
    v.sort();
    ensure!(v[0] <= v[1] && v[1] <= v[2] && v[0] <= v[2], "cmp-transitivity", "sorted order not a chain");
    // usable as keys
    let set: std::collections::HashSet<Point> = [p, q, p2, q2].into_iter().collect();
    ensure!(set.len() == if eq { 1 } else { 2 }, "hash-set", "hash set has {} members", set.len());
    let bt: std::collections::BTreeSet<Point> = [p, q, p2, q2].into_iter().collect();
    ensure!(bt.len() == if eq { 1 } else { 2 }, "btree-set", "ordered set has {} members", bt.len());
    Ok(())
}

fn predicates(c: &mut Case) -> Res {
    let b = nasty_enc(&mut c.rng);
    c.state(&b);
    let p0 = Point::new();
    let can = nopanic("is-canonical", || p0.is_canonical(&b))?;
    let mut y = b;
    y[31] &= 0x7f;
    let want = from_le(&y) < p25519();
    c.ev(if want { "canonical" } else { "noncanonical" });
    ensure!(can == want, "is-canonical", "is_canonical({}) = {} want {}", hex::encode(b), can, want);
    let n = c.rng.range(0, 70);
    if n != 32 {
        let mut v = b.to_vec();
        v.resize(n, 0);
        ensure!(!nopanic("is-canonical-length", || p0.is_canonical(&v))?, "is-canonical-length", "canonical with {} bytes", n);
    }
    // small order
    let (d, kind) = match c.rng.below(4) {
        0 => (torsion(c.rng.below(8)), "torsion"),
        1 => (prime_point(&mut c.rng) + torsion(c.rng.below(8)), "mixed"),
        2 => {
            // neighbours of the weak encodings
            let mut e = denc(&torsion(c.rng.below(8)));
            e[c.rng.below(32)] ^= 1 << c.rng.below(8);
            match dp(&e) {
                Some(x) => (x, "weak-neighbour"),
                None => (dbase(), "base"),
            }
        }
        _ => nasty_point(&mut c.rng),
    };
    let p = repr(c, &d)?;
    let small = d.is_small_order();
    c.ev(if small { "small-order" } else { "large-order" });
    let got = nopanic("small-order", || p.has_small_order())?;
    ensure!(got == small, "small-order", "has_small_order({}) = {} ({})", hex::encode(denc(&d)), got, kind);
    // also when reached through a non-canonical encoding
    if let Some(d) = dp(&b) {
        let q = kp(&b)?;
        ensure!(q.has_small_order() == d.is_small_order(), "small-order-decoded", "decoded {}", hex::encode(b));
    }
    Ok(())
}

pub fn run_c04(ctx: &Ctx) {
    ctx.rule("pairs of points (equal, opposite, torsion-shifted, unrelated) in independently produced representations, encodings around the field prime, all small-order points and neighbours; distinct by bytes");
    ctx.assume("curve25519-dalek classification of small order is trusted");
    ctx.family("equality", ctx.n(10_000, 300_000), equality);
    ctx.family("predicates", ctx.n(30_000, 500_000), predicates);
    for e in ["equal-pairs", "distinct-pairs", "canonical", "noncanonical", "small-order", "large-order"] {
        ctx.require(e, 100);
    }
}

// ---------------------------------------------------------------- C05

fn embed(c: &mut Case) -> Res {
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 28,
        3 => 29,
        4 => 30,
        5 => c.rng.range(31, 200),
        _ => c.rng.range(0, 29),
    };
    let mut data = c.rng.bytes(n);
    match c.rng.below(4) {
        0 => data.iter_mut().for_each(|x| *x = 0),
        1 => data.iter_mut().for_each(|x| *x = 0xff),
        _ => {}
    }
    let r = dirty(c)?;
    c.state(&data);
    let cap = r.embed_len();
    ensure!(cap == 29, "embed-len", "capacity {}", cap);
    let seed = c.rng.bytes(12);
    let s = MonSuite {};
    let p = r.embed(Some(&data), &mut s.xof(Some(&seed)));
    c.ev("embedded");
    let want = &data[..n.min(cap)];
    let got = ok(p.data(), "data")?;
    ensure!(got == want, "embed-data", "embedded {} got {}", hex::encode(want), hex::encode(&got));
    let d = dalek_of(&p)?;
    ensure!(d.is_torsion_free(), "embed-subgroup", "embedded point {} outside the prime-order subgroup", hex::encode(denc(&d)));
    let q = kp(&pbytes(&p)?)?;
    ensure!(q == p && ok(q.data(), "data")? == want, "embed-roundtrip", "data lost in encoding");
    // only the stream decides
    let r2 = dirty(c)?;
    let p2 = r2.embed(Some(&data), &mut s.xof(Some(&seed)));
    ensure!(p2 == p, "embed-receiver", "embedding depends on the receiver");
    // other streams give other points
    if cap - n.min(cap) >= 8 || n <= 20 {
        let p3 = r2.embed(Some(&data), &mut MonStream::open());
        ensure!(p3 != p, "embed-random", "embedding ignores the random stream");
        ensure!(ok(p3.data(), "data")? == want, "embed-data", "embedding with other stream loses data");
    }
    Ok(())
}

fn pick(c: &mut Case) -> Res {
    let r = dirty(c)?;
    let seed = c.rng.bytes(12);
    let s = MonSuite {};
    let p = r.pick(&mut s.xof(Some(&seed)));
    let r2 = dirty(c)?;
    let p2 = r2.pick(&mut s.xof(Some(&seed)));
    let mut p3 = dirty(c)?;
    p3.unmarshal_from_random(&mut s.xof(Some(&seed)));
    ensure!(p == p2 && p == p3, "pick-receiver", "picking depends on the receiver");
    let d = dalek_of(&p)?;
    c.state(&denc(&d));
    c.ev("picked");
    ensure!(d.is_torsion_free(), "pick-subgroup", "picked point outside the prime-order subgroup");
    ensure!(!d.is_small_order(), "pick-null", "picked the neutral element");
    let q = r.pick(&mut MonStream::open());
    ensure!(q != p, "pick-random", "pick ignores its stream");
    // the point represents the coordinates it encodes
    let t = Point::new().add(&p, &Point::new().base());
    same(c, "pick-usable", &t, &(d + dbase()), String::new)?;
    Ok(())
}

/// a stream handing out given blocks first
struct Blocks(Vec<[u8; 32]>, usize, MonStream);
impl kyber_rs::cipher::Stream for Blocks {
    fn xor_key_stream(&mut self, d: &mut [u8], s: &[u8]) -> Result<(), kyber_rs::cipher::StreamError> {
        if s.len() == 32 && self.1 < self.0.len() {
            for i in 0..32 {
                d[i] = s[i] ^ self.0[self.1][i];
            }
            self.1 += 1;
            return Ok(());
        }
        self.2.xor_key_stream(d, s)
    }
}

/// the stream leads to unsuitable candidates first
fn pick_unlucky(c: &mut Case) -> Res {
    let mut b = vec![];
    for _ in 0..c.rng.range(1, 6) {
        b.push(match c.rng.below(3) {
            0 => denc(&torsion(c.rng.below(8))),
            1 => {
                let mut e = denc(&torsion(c.rng.below(8)));
                e[31] ^= 0x80;
                e
            }
            _ => {
                let mut e = [0xffu8; 32];
                e[0] = c.rng.range(0xe0, 0xff) as u8;
                e[31] = *c.rng.choose(&[0x7f, 0xff]);
                e
            }
        });
    }
    c.state(&b.concat());
    let r = dirty(c)?;
    let mut s = Blocks(b.clone(), 0, MonStream::open());
    let p = nopanic("pick", || r.pick(&mut s))?;
    let d = dalek_of(&p)?;
    ensure!(!d.is_small_order(), "pick-null", "picked the neutral element from {:?}", b.iter().map(hex::encode).collect::<Vec<_>>());
    ensure!(d.is_torsion_free(), "pick-subgroup", "picked point outside the prime-order subgroup");
    c.ev("picked-unlucky");
    // the same blocks below embedded data
    let n = c.rng.range(0, 29);
    let data = c.rng.bytes(n);
    let r = dirty(c)?;
    let mut s = Blocks(b, 0, MonStream::open());
    let q = nopanic("embed", || r.embed(Some(&data), &mut s))?;
    ensure!(dalek_of(&q)?.is_torsion_free(), "embed-subgroup", "embedding left the prime-order subgroup");
    ensure!(ok(nopanic("data", || q.data())?, "data")? == data, "embed-data", "embedded data lost");
    Ok(())
}

fn data(c: &mut Case) -> Res {
    let (d, _) = if c.rng.bool() {
        let mut b: [u8; 32] = c.rng.arr();
        b[0] = c.rng.range(25, 34) as u8;
        loop {
            if let Some(p) = dp(&b) {
                break (p, "len");
            }
            b[20] = b[20].wrapping_add(1);
            b[21] = c.rng.u64() as u8;
        }
    } else {
        nasty_point(&mut c.rng)
    };
    let p = repr(c, &d)?;
    let e = denc(&d);
    c.state(&e);
    let l = e[0] as usize;
    match nopanic("data", || p.data())? {
        Ok(v) => {
            c.ev("extracted");
            ensure!(l <= 29, "data-accepts", "extraction from length byte {}", l);
            ensure!(v == e[1..1 + l], "data-value", "wrong bytes extracted");
        }
        Err(_) => {
            c.ev("extract-refused");
            ensure!(l > 29, "data-refuses", "extraction refused for length byte {}", l);
        }
    }
    Ok(())
}

pub fn run_c05(ctx: &Ctx) {
    ctx.rule("payloads of every length 0..200 with extreme contents, random streams, arbitrary points for extraction; distinct by payload / encoding");
    ctx.assume("curve25519-dalek subgroup test is trusted");
    ctx.family("embed", ctx.n(2500, 60_000), embed);
    ctx.family("pick", ctx.n(2500, 60_000), pick);
    ctx.family("unlucky", ctx.n(300, 6000), pick_unlucky);
    ctx.family("data", ctx.n(8000, 200_000), data);
    ctx.require("picked-unlucky", 200);
    ctx.require("extracted", 300);
    ctx.require("extract-refused", 300);
    let _ = (Curve::new().point_len(), SuiteEd25519::default().scalar_len(), Scalar::new().marshal_binary());
}
