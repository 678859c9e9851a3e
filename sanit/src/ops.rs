//! The catalogue: operations as pure functions of shared values and a small parameter.
use crate::suite::{seed_thread, set_jitter, MonStream, MonSuite};
use crate::Rng;
use digest::Digest;
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::{self, BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::share::dkg::{pedersen as pdkg, rabin as rdkg};
use kyber_rs::share::poly::{self, PriPoly, PriShare, PubPoly};
use kyber_rs::share::vss::{pedersen as pv, rabin as rv};
use kyber_rs::sign::{dss, eddsa, schnorr};
use kyber_rs::util::key::{new_key_pair, Pair};
use kyber_rs::util::random as rnd;
use kyber_rs::{Point as _, Random, Scalar as _, XOFFactory};
use num_bigint_dig::{BigInt, Sign};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};

pub const PARAMS: usize = 6;

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Rd {
    seed: Vec<u8>,
    pos: u64,
}
impl Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut x = blake3::Hasher::new().update(&self.seed).finalize_xof();
        x.set_position(self.pos);
        x.fill(b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Own {
    commits: Vec<Point>,
    share: PriShare<Scalar>,
}
impl dss::DistKeyShare<MonSuite> for Own {
    fn pri_share(&self) -> PriShare<Scalar> {
        self.share.clone()
    }
    fn commitments(&self) -> Vec<Point> {
        self.commits.clone()
    }
}

/// the values all threads share
pub struct Fix {
    su: MonSuite,
    real: SuiteEd25519,
    pts: Vec<Point>,
    enc: Vec<[u8; 32]>,
    scs: Vec<Scalar>,
    ints: Vec<Int>,
    msgs: Vec<Vec<u8>>,
    longs: Vec<Scalar>,
    pubs: Vec<Point>,
    pairs: Vec<Pair<Point>>,
    eds: Vec<eddsa::EdDSA<Curve>>,
    esigs: Vec<Vec<u8>>,
    ssigs: Vec<Vec<u8>>,
    pri: Vec<PriPoly<MonSuite>>,
    pubp: Vec<PubPoly<MonSuite>>,
    shares: Vec<Vec<Option<PriShare<Scalar>>>>,
    pd: pv::vss::Dealer<MonSuite>,
    pe: Vec<pv::vss::EncryptedDeal<Point>>,
    pver: pv::vss::Verifier<MonSuite>,
    rdl: rv::vss::Dealer<MonSuite>,
    re: Vec<rv::vss::EncryptedDeal<Point>>,
    rver: rv::vss::Verifier<MonSuite>,
    own: Vec<(Own, Own)>,
    boxed: Vec<Vec<u8>>,
}

const T: usize = 2;
const N: usize = 3;

pub fn build() -> Fix {
    let mut r = Rng::new("fix");
    seed_thread("fix");
    set_jitter(0);
    let su = MonSuite {};
    let mut scs = vec![];
    for i in 0..8 {
        let mut b = r.bytes(32);
        b[31] &= 0x7f;
        let mut v = [0u8; 32];
        v.copy_from_slice(&b);
        scs.push(match i {
            0 => Scalar::default().one(),
            1 => Scalar::default().set_int64(-7),
            2 | 3 => Scalar { v },
            _ => Scalar::default().set_bytes(&b),
        });
    }
    let mut pts = vec![Point::default().null(), Point::default().base()];
    for s in &scs[2..6] {
        pts.push(Point::default().mul(s, None));
    }
    // not normalised
    pts.push(Point::default().add(&pts[2], &pts[3]));
    pts.push(Point::default().mul(&scs[4], Some(&pts[5])));
    let enc = pts.iter().map(pb).map(|b| b.try_into().unwrap()).collect();
    let mut ints = vec![];
    for (i, m) in [7i64, 1_000_003, 2_147_483_647, 97].iter().enumerate() {
        let bo = if i % 2 == 0 { ByteOrder::LittleEndian } else { ByteOrder::BigEndian };
        for _ in 0..2 {
            let mut v = r.bytes(5);
            v[0] |= 1;
            let x = Int::new_int_bytes(&v, &BigInt::from(*m), bo);
            ints.push(if x.nonzero() { x } else { x.one() });
        }
    }
    let big = BigInt::from_bytes_be(Sign::Plus, &[0xff; 32]) - BigInt::from(188);
    for _ in 0..2 {
        ints.push(Int::new_int_bytes(&r.bytes(40), &big, ByteOrder::BigEndian));
    }
    let msgs: Vec<Vec<u8>> = [0usize, 1, 31, 100, 257, 2000].iter().map(|n| r.bytes(*n)).collect();
    let longs: Vec<Scalar> = (0..N + 1).map(|_| Scalar::default().set_bytes(&r.bytes(32))).collect();
    let pubs: Vec<Point> = longs.iter().map(|s| Point::default().mul(s, None)).collect();
    let pairs: Vec<Pair<Point>> = (0..2).map(|_| new_key_pair(&su).unwrap()).collect();
    let mut eds: Vec<eddsa::EdDSA<Curve>> = (0..2).map(|_| eddsa::EdDSA::<Curve>::new(&mut MonStream::open()).unwrap()).collect();
    eds.push(pairs[0].clone().into());
    let esigs = (0..6).map(|i| eds[i % 3].sign(&msgs[i]).unwrap().to_vec()).collect();
    let ssigs = (0..6).map(|i| schnorr::sign(&su, &pairs[i % 2].private, &msgs[i]).unwrap()).collect();
    let pri: Vec<PriPoly<MonSuite>> =
        (0..2).map(|i| poly::new_pri_poly(su, T + 1, if i == 0 { None } else { Some(scs[3].clone()) }, MonStream::open())).collect();
    let pubp = vec![pri[0].commit(None), pri[1].commit(None), pri[0].commit(Some(&pts[4]))];
    let shares = pri.iter().map(|p| p.shares(5)).collect();
    let vp = &pubs[..N];
    let pd = pv::vss::new_dealer(su, longs[N].clone(), scs[4].clone(), vp, T).unwrap();
    let pe = pd.encrypted_deals().unwrap();
    let rdl = rv::vss::new_dealer(su, longs[N].clone(), scs[5].clone(), vp, T).unwrap();
    let re = rdl.encrypted_deals().unwrap();
    let mut pver = pv::vss::new_verifier(su, &longs[0], &pubs[N], vp).unwrap();
    pver.process_encrypted_deal(&pe[0]).unwrap();
    let mut rver = rv::vss::new_verifier(&su, &longs[0], &pubs[N], vp).unwrap();
    rver.process_encrypted_deal(&re[0]).unwrap();
    let (ka, kr) = (poly::new_pri_poly(su, T, None, MonStream::open()), poly::new_pri_poly(su, T, None, MonStream::open()));
    let own = (0..N)
        .map(|i| {
            (
                Own { commits: ka.commit(None).info().1, share: ka.eval(i) },
                Own { commits: kr.commit(None).info().1, share: kr.eval(i) },
            )
        })
        .collect();
    let a = AEAD::<Curve>::new(pts[4], b"fix").unwrap();
    let boxed = (0..6).map(|i| a.seal(None, &[i as u8; 12], &msgs[i], Some(b"ad")).unwrap()).collect();
    Fix {
        su,
        real: SuiteEd25519::new_blake3_sha256_ed25519(),
        pts,
        enc,
        scs,
        ints,
        msgs,
        longs,
        pubs,
        pairs,
        eds,
        esigs,
        ssigs,
        pri,
        pubp,
        shares,
        pd,
        pe,
        pver,
        rdl,
        re,
        rver,
        own,
        boxed,
    }
}

fn pb(p: &Point) -> Vec<u8> {
    p.marshal_binary().expect("point")
}
fn sb(s: &Scalar) -> Vec<u8> {
    let mut v = s.v.to_vec();
    v.extend(s.marshal_binary().expect("scalar"));
    v
}
fn js<X: Serialize>(x: &X) -> Vec<u8> {
    // maps are printed in an order of their own in every process
    fn sorted(v: &serde_json::Value) -> String {
        match v {
            serde_json::Value::Object(m) => {
                let mut k: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", k, sorted(v))).collect();
                k.sort();
                format!("{{{}}}", k.join(","))
            }
            serde_json::Value::Array(a) => format!("[{}]", a.iter().map(sorted).collect::<Vec<_>>().join(",")),
            x => x.to_string(),
        }
    }
    sorted(&serde_json::to_value(x).expect("serialise")).into_bytes()
}
fn ib(i: &Int) -> Vec<u8> {
    let mut v = i.marshal_binary().unwrap_or_default();
    v.extend(i.to_string().into_bytes());
    v.extend(js(i));
    v
}

/// every shared value, down to the last limb
pub fn fingerprint(f: &Fix) -> Vec<u8> {
    let mut v = vec![];
    v.extend(js(&f.pts));
    v.extend(js(&f.scs));
    v.extend(js(&f.ints));
    v.extend(f.msgs.concat());
    v.extend(f.enc.concat());
    v.extend(js(&f.longs));
    v.extend(js(&f.pubs));
    v.extend(js(&f.pairs));
    v.extend(js(&f.eds));
    v.extend(f.esigs.concat());
    v.extend(f.ssigs.concat());
    v.extend(js(&f.pri));
    v.extend(js(&f.pubp));
    v.extend(js(&f.shares));
    v.extend(js(&f.pd));
    v.extend(js(&f.pe));
    v.extend(js(&f.pver));
    v.extend(js(&f.rdl));
    v.extend(js(&f.re));
    v.extend(js(&f.rver));
    v.extend(js(&f.own));
    v.extend(f.boxed.concat());
    v.extend(format!("{} {:?}", f.real, f.real).into_bytes());
    v
}

pub fn run(f: &Fix, o: usize, p: usize) -> Vec<u8> {
    let (name, op, _) = catalogue()[o];
    seed_thread(&format!("{}/{}", name, p));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(f, p)));
    set_jitter(0);
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("P {} {} {}", name, p, m.replace('\n', " "));
            b"panic".to_vec()
        }
    }
}

/// operations from plain bytes only
pub fn raw() -> &'static [(&'static str, fn() -> Vec<u8>)] {
    &[
        ("base-mul", || pb(&Point::default().mul(&Scalar { v: [9; 32] }, None))),
        ("decode", || {
            let mut p = Point::default();
            let e = p.unmarshal_binary(&[0x58, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66, 0x66]).is_ok();
            let mut v = pb(&p);
            v.push(e as u8);
            v
        }),
        ("canonical", || {
            let mut v = vec![];
            for i in 0..6u8 {
                let mut b = [0xffu8; 32];
                b[0] = 0xea + i * 3;
                b[31] = 0x7f;
                v.push(Point::default().is_canonical(&b) as u8);
                let mut p = Point::default();
                v.push(p.unmarshal_binary(&b).is_ok() as u8);
            }
            v
        }),
        ("small-order", || {
            let mut v = vec![];
            for b in [[0u8; 32], [1; 32]] {
                let mut p = Point::default();
                v.push(p.unmarshal_binary(&b).is_ok() as u8);
                v.push(p.has_small_order() as u8);
            }
            v
        }),
        ("scalar-inv", || sb(&Scalar::default().inv(&Scalar { v: [3; 32] }))),
        ("scalar-int", || sb(&Scalar::default().set_int64(-123456789))),
        ("scalar-canonical", || (0..40u8).map(|i| Scalar::default().is_canonical(&{ let mut b = [0u8; 32]; b[31] = 0x10; b[15] = 0x14; b[0] = i; b }) as u8).collect()),
        ("int", || ib(&Int::new_int64(-5, BigInt::from(1_000_003)))),
        ("int-sqrt", || {
            let mut i = Int::default();
            let e = i.sqrt(&Int::new_int64(5, BigInt::from(41))).is_ok();
            let mut v = ib(&i);
            v.push(e as u8);
            v
        }),
        ("xof", || {
            let mut x = SuiteEd25519::new_blake3_sha256_ed25519().xof(Some(b"seed"));
            let mut v = vec![0; 70];
            x.read_exact(&mut v).unwrap();
            v
        }),
        ("eddsa", || {
            seed_thread("raw-eddsa");
            let k = eddsa::EdDSA::<Curve>::new(&mut MonStream::open()).unwrap();
            let mut s = k.sign(b"raw").unwrap().to_vec();
            s.push(eddsa::verify(&k.public, b"raw", &s).is_ok() as u8);
            s
        }),
        ("schnorr", || {
            seed_thread("raw-schnorr");
            let x = Scalar { v: [5; 32] };
            let mut s = schnorr::sign(&MonSuite {}, &x, b"raw").unwrap();
            let p = Point::default().mul(&x, None);
            s.push(schnorr::verify(MonSuite {}, &p, b"raw", &s).is_ok() as u8);
            s
        }),
        ("hkdf", || <Curve as Dh>::hkdf(b"key", b"info", Some(77)).unwrap()),
        ("embed", || {
            seed_thread("raw-embed");
            let p = Point::default().embed(Some(b"some data"), &mut MonStream::open());
            let mut v = pb(&p);
            v.extend(p.data().unwrap());
            v
        }),
    ]
}

type Op = fn(&Fix, usize) -> Vec<u8>;
fn at<X>(v: &[X], p: usize) -> &X {
    &v[p % v.len()]
}
fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    MonSuite {}.random_stream().xor_key_stream(&mut v, &vec![0; n]).unwrap();
    v
}
fn round<X: Serialize + DeserializeOwned>(x: &X) -> Vec<u8> {
    let b = encoding::marshal_binary(x).unwrap();
    let y: X = bincode::deserialize(&b).unwrap();
    js(&y)
}
fn res<X, E: core::fmt::Debug>(r: Result<X, E>) -> Vec<u8> {
    match r {
        Ok(_) => b"ok".to_vec(),
        Err(e) => format!("{:?}", e).into_bytes(),
    }
}
fn other(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    let n = v.len() / 2;
    v[n] ^= 4;
    v
}

/// name, operation, heavy
pub fn catalogue() -> &'static [(&'static str, Op, bool)] {
    &[
        ("scalar-add", |f, p| sb(&(at(&f.scs, p).clone() + at(&f.scs, p + 3).clone())), false),
        ("scalar-sub", |f, p| sb(&Scalar::default().sub(at(&f.scs, p), at(&f.scs, p + 3))), false),
        ("scalar-mul", |f, p| sb(&(at(&f.scs, p).clone() * at(&f.scs, p + 3).clone())), false),
        ("scalar-div", |f, p| sb(&Scalar::default().div(at(&f.scs, p), at(&f.scs, p + 3))), false),
        ("scalar-inv", |f, p| sb(&Scalar::default().inv(at(&f.scs, p))), false),
        ("scalar-neg", |f, p| sb(&Scalar::default().neg(at(&f.scs, p))), false),
        ("scalar-bytes", |f, p| sb(&Scalar::default().set_bytes(at(&f.msgs, p))), false),
        ("scalar-pick", |_, _| sb(&Scalar::default().pick(&mut MonStream::open())), false),
        ("scalar-misc", |f, p| {
            let s = at(&f.scs, p);
            let mut v = sb(&Scalar::default().set(s));
            v.extend(sb(&Scalar::default().zero()));
            v.extend(sb(&Scalar::default().one()));
            v.extend(sb(&Scalar::default().set_int64(p as i64 - 3)));
            v.extend(format!("{} {:x} {:?}", s, s, s).into_bytes());
            v.push(s.is_canonical(&s.v) as u8);
            let mut d = Scalar::default();
            v.extend(res(d.unmarshal_binary(&f.enc[p % f.enc.len()])));
            v.extend(sb(&d));
            let mut w = vec![];
            v.extend(res(s.marshal_to(&mut w)));
            v.extend(w);
            v.extend(s.marshal_id());
            v
        }, false),
        ("point-add", |f, p| pb(&Point::default().add(at(&f.pts, p), at(&f.pts, p + 3))), false),
        ("point-sub", |f, p| pb(&Point::default().sub(at(&f.pts, p), at(&f.pts, p + 3))), false),
        ("point-neg", |f, p| pb(&Point::default().neg(at(&f.pts, p))), false),
        ("point-mul", |f, p| pb(&Point::default().mul(at(&f.scs, p), Some(at(&f.pts, p + 2)))), false),
        ("point-mul-other", |f, p| pb(&Point::default().mul(at(&f.scs, p + 1), Some(at(&f.pts, p + 2)))), false),
        ("base-mul", |f, p| pb(&Point::default().mul(at(&f.scs, p + 2), None)), false),
        ("point-misc", |f, p| {
            let x = at(&f.pts, p);
            let y = at(&f.pts, p + 1);
            let mut v = pb(&Point::default().null());
            v.extend(pb(&Point::default().base()));
            let mut z = Point::default();
            v.extend(pb(&z.set(x)));
            v.push((x == y) as u8);
            v.push((x == &z) as u8);
            v.push(x.cmp(y) as i8 as u8);
            v.push(x.has_small_order() as u8);
            v.push(x.is_canonical(&pb(y)) as u8);
            v.extend(format!("{} {:x} {:?}", x, y, pb(x)).into_bytes());
            let mut h = std::collections::hash_map::DefaultHasher::new();
            x.hash(&mut h);
            v.extend(h.finish().to_le_bytes());
            let mut w = vec![];
            v.extend(res(x.marshal_to(&mut w)));
            v.extend(w);
            v.extend(x.marshal_id());
            v
        }, false),
        ("point-decode", |f, p| {
            let mut x = Point::default();
            let mut v = res(x.unmarshal_binary(at(&f.enc, p)));
            v.extend(pb(&x));
            let mut x = Point::default();
            let mut e = *at(&f.enc, p + 4);
            e[7] ^= 0x20;
            v.extend(res(x.unmarshal_binary(&e)));
            v
        }, false),
        ("point-pick", |_, _| pb(&Point::default().pick(&mut MonStream::open())), false),
        ("point-embed", |f, p| {
            let d = at(&f.msgs, p);
            let d = &d[..d.len().min(29)];
            let x = Point::default().embed(Some(d), &mut MonStream::open());
            let mut v = pb(&x);
            v.extend(x.data().unwrap());
            v
        }, false),
        ("int-arith", |f, p| {
            // two of the same modulus
            let (a, b) = (&f.ints[p % 5 * 2], &f.ints[p % 5 * 2 + 1]);
            let mut v = ib(&(a.clone() + b.clone()));
            v.extend(ib(&(a.clone() * b.clone())));
            v.extend(ib(&Int::default().sub(a, b)));
            v.extend(ib(&Int::default().neg(a)));
            if p % 5 != 4 {
                v.extend(ib(&Int::default().inv(b)));
                v.extend(ib(&Int::default().div(a, b)));
            }
            v.extend(ib(&Int::default().exp(a, &BigInt::from(1000 + p))));
            v.extend(ib(&Int::default().jacobi(b)));
            v.push(a.cmp(b) as i8 as u8);
            v.push((a == b) as u8);
            v
        }, false),
        ("int-sqrt", |f, p| {
            let a = &f.ints[p];
            let s = a.clone() * a.clone();
            let mut x = Int::default();
            let mut v = res(x.sqrt(&s));
            v.extend(ib(&x));
            v.extend(res(x.sqrt(a)));
            v
        }, false),
        ("int-codec", |f, p| {
            let a = at(&f.ints, p);
            let mut v = ib(a);
            v.extend(a.little_endian(a.marshal_size(), 64).unwrap());
            v.extend(a.big_endian(a.marshal_size(), 64).unwrap());
            let mut b = a.clone().zero();
            v.extend(res(b.unmarshal_binary(&a.marshal_binary().unwrap())));
            v.extend(ib(&b));
            v.extend(ib(&a.clone().set_bytes(at(&f.msgs, p))));
            v.extend(ib(&a.clone().pick(&mut MonStream::open())));
            v.extend(round(a));
            v
        }, false),
        ("xof", |f, p| {
            let mut x = f.su.xof(Some(at(&f.msgs, p)));
            let mut v = vec![0; 33];
            x.read_exact(&mut v).unwrap();
            let mut y = x.clone();
            y.reseed();
            y.write_all(at(&f.msgs, p + 1)).unwrap();
            let mut w = vec![0; 90];
            y.read_exact(&mut w).unwrap();
            v.extend(&w);
            x.read_exact(&mut w).unwrap();
            v.extend(&w);
            v
        }, false),
        ("random", |f, p| {
            let mut s = MonStream::open();
            let mut v = rnd::bits(200 + p as u64, p % 2 == 0, &mut s);
            v.extend(rnd::random_int(&BigInt::from_bytes_be(Sign::Plus, &f.msgs[2]), &mut s).to_str_radix(16).into_bytes());
            let mut b = [0; 40];
            rnd::bytes(&mut b, &mut s).unwrap();
            v.extend(b);
            v
        }, false),
        ("reader-stream", |f, p| {
            let rd = Rd { seed: at(&f.msgs, p).clone(), pos: 0 };
            let mut s = rnd::RandStream::new(vec![Box::new(rd)]);
            let mut b = [0; 50];
            rnd::bytes(&mut b, &mut s).unwrap();
            b.to_vec()
        }, false),
        ("os-stream", |f, _| {
            // nothing to compare but that it works and differs
            let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
            rnd::bytes(&mut a, &mut f.real.random_stream()).unwrap();
            rnd::bytes(&mut b, &mut f.real.random_stream()).unwrap();
            vec![(a != b) as u8]
        }, false),
        ("key-pair", |f, _| js(&new_key_pair(&f.su).unwrap()), false),
        ("key-and-seed", |f, p| {
            let (s, _, d) = Curve::new().new_key_and_seed_with_input(at(&f.msgs, p));
            let mut v = sb(&s);
            v.extend(d);
            v
        }, false),
        ("eddsa-sign", |f, p| at(&f.eds, p).sign(at(&f.msgs, p)).unwrap().to_vec(), false),
        ("eddsa-verify", |f, p| {
            let k = &f.eds[p % 3].public;
            let mut v = res(eddsa::verify(k, &f.msgs[p], &f.esigs[p]));
            v.extend(res(eddsa::verify(k, &f.msgs[p], &other(&f.esigs[p]))));
            v.extend(res(eddsa::verify_with_checks(&pb(k), &f.msgs[p], &f.esigs[p])));
            v.extend(res(eddsa::verify_with_checks(&pb(k), &f.msgs[(p + 1) % 6], &f.esigs[p])));
            v
        }, false),
        ("eddsa-wrong-key", |f, p| res(eddsa::verify(&f.eds[(p + 1) % 3].public, &f.msgs[p], &f.esigs[p])), false),
        ("eddsa-codec", |f, p| {
            let k = &f.eds[p % 2];
            let b = k.marshal_binary().unwrap();
            let mut x = eddsa::EdDSA::<Curve>::default();
            let mut v = res(x.unmarshal_binary(&b));
            v.extend(b);
            v.extend(js(&x));
            v.extend(format!("{:?}", k).into_bytes());
            v
        }, false),
        ("eddsa-new", |_, _| js(&eddsa::EdDSA::<Curve>::new(&mut MonStream::open()).unwrap()), false),
        ("schnorr-sign", |f, p| schnorr::sign(&f.su, &f.pairs[p % 2].private, &f.msgs[p]).unwrap(), false),
        ("schnorr-verify", |f, p| {
            let k = &f.pairs[p % 2].public;
            let mut v = res(schnorr::verify(f.su, k, &f.msgs[p], &f.ssigs[p]));
            v.extend(res(schnorr::verify(f.su, k, &f.msgs[p], &other(&f.ssigs[p]))));
            v
        }, false),
        ("schnorr-wrong-message", |f, p| res(schnorr::verify(f.su, &f.pairs[p % 2].public, &f.msgs[(p + 1) % 6], &f.ssigs[p])), false),
        ("dh", |f, p| pb(&Curve::dh_exchange(f.real, at(&f.scs, p).clone(), *at(&f.pts, p + 3))), false),
        ("hkdf", |f, p| {
            let mut v = Curve::hkdf(at(&f.msgs, p), at(&f.msgs, p + 1), Some(60 + p)).unwrap();
            v.extend(<SuiteEd25519 as Dh>::hkdf(at(&f.msgs, p), at(&f.msgs, p + 1), None).unwrap());
            v
        }, false),
        ("aead", |f, p| {
            let a = AEAD::<Curve>::new(f.pts[4], b"fix").unwrap();
            let mut v = a.seal(None, &[p as u8; 12], &f.msgs[p], Some(b"ad")).unwrap();
            v.extend(a.open(None, &[p as u8; 12], &f.boxed[p], Some(b"ad")).unwrap());
            v.extend(res(a.open(None, &[p as u8; 12], &other(&f.boxed[p]), Some(b"ad"))));
            v
        }, false),
        ("ecies", |f, p| {
            let k = &f.pairs[p % 2];
            let c = ecies::encrypt(f.real, k.public, &f.msgs[p]).unwrap();
            let mut v = ecies::decrypt(f.real, k.private.clone(), &c).unwrap();
            v.extend(res(ecies::decrypt(f.real, k.private.clone(), &other(&c)).map_err(|_| ())));
            v.push((c != ecies::encrypt(f.real, k.public, &f.msgs[p]).unwrap()) as u8);
            v
        }, false),
        ("poly-eval", |f, p| js(&at(&f.pri, p).eval(p * 7)), false),
        ("poly-new", |f, p| js(&poly::new_pri_poly(f.su, p + 1, None, MonStream::open())), false),
        ("poly-ops", |f, p| {
            let (a, b) = (at(&f.pri, p), at(&f.pri, p + 1));
            let mut v = js(&a.add(b).unwrap());
            v.extend(js(&a.mul(b)));
            v.push(a.equal(b).unwrap() as u8);
            v.extend(sb(&a.secret()));
            v.extend(js(&a.coefficients()));
            v.extend(a.string().into_bytes());
            v
        }, false),
        ("poly-commit", |f, p| {
            let c = at(&f.pri, p).commit(if p < 3 { None } else { Some(&f.pts[p]) });
            c.info().1.iter().flat_map(pb).collect()
        }, false),
        ("pub-eval", |f, p| {
            let e = at(&f.pubp, p).eval(p + 2);
            let mut v = pb(&e.v);
            v.extend(e.hash(f.su).unwrap());
            v
        }, false),
        ("pub-ops", |f, p| {
            let (a, b) = (&f.pubp[0], &f.pubp[1]);
            let mut v: Vec<u8> = a.add(b).unwrap().info().1.iter().flat_map(pb).collect();
            v.push(a.equal(at(&f.pubp, p)).unwrap() as u8);
            v.extend(pb(&at(&f.pubp, p).commit()));
            v
        }, false),
        ("share-check", |f, p| {
            let s = f.shares[p % 2][p % 5].clone().unwrap();
            let mut w = s.clone();
            w.i += 1;
            vec![f.pubp[p % 2].check(&s) as u8, f.pubp[p % 2].check(&w) as u8, f.pubp[(p + 1) % 2].check(&s) as u8, s.hash(f.su).unwrap()[p]]
        }, false),
        ("recover", |f, p| {
            let mut s = f.shares[p % 2].clone();
            s[p % 5] = None;
            let mut v = sb(&poly::recover_secret(f.su, &s, T + 1, 5).unwrap());
            v.extend(sb(&poly::recover_pri_poly(&f.su, &s, T + 1, 5).unwrap().secret()));
            let q = f.pubp[p % 2].shares(5);
            v.extend(pb(&poly::recover_commit(f.su, &q, T + 1, 5).unwrap()));
            v.extend(pb(&poly::recover_pub_poly(f.su, &q, T + 1, 5).unwrap().eval(9).v));
            v
        }, false),
        ("codec", |f, p| {
            let mut v = round(at(&f.pts, p));
            v.extend(round(at(&f.scs, p)));
            v.extend(round(at(&f.pri, p)));
            v.extend(round(at(&f.pubp, p)));
            v.extend(round(&f.eds[p % 3]));
            v.extend(round(&f.pairs[p % 2]));
            v.extend(round(&f.pd));
            v.extend(round(&f.rdl));
            v.extend(round(&f.pe[p % N]));
            v.extend(round(&f.re[p % N]));
            v
        }, false),
        ("ped-deal", |f, p| {
            let d = f.pd.encrypted_deal(p % N).unwrap();
            js(&d)
        }, false),
        ("rab-deal", |f, p| {
            let d = f.rdl.encrypted_deal(p % N).unwrap();
            js(&d)
        }, false),
        ("ped-verify", |f, p| {
            let i = p % N;
            let mut w = pv::vss::new_verifier(f.su, &f.longs[i], &f.pubs[N], &f.pubs[..N]).unwrap();
            let mut v = js(&w.process_encrypted_deal(&f.pe[i]).unwrap());
            v.extend(res(w.decrypt_deal(&f.pe[(i + 1) % N]).map_err(|_| ())));
            v.extend(js(&w.deal()));
            v.extend(js(&w));
            v.extend(js(&f.pver.deal()));
            v.push(f.pver.deal_certified() as u8);
            v.extend(f.pver.session_id());
            v
        }, false),
        ("rab-verify", |f, p| {
            let i = p % N;
            let mut w = rv::vss::new_verifier(&f.su, &f.longs[i], &f.pubs[N], &f.pubs[..N]).unwrap();
            let mut v = js(&w.process_encrypted_deal(&f.re[i]).unwrap());
            v.extend(res(w.decrypt_deal(&f.re[(i + 1) % N]).map_err(|_| ())));
            v.extend(js(&w.deal()));
            v.push(f.rver.deal_certified() as u8);
            v.extend(f.rver.session_id());
            v
        }, false),
        ("ped-vss", |f, p| {
            let mut d = pv::vss::new_dealer(f.su, f.longs[N].clone(), at(&f.scs, p).clone(), &f.pubs[..N], T).unwrap();
            let mut vs: Vec<_> = (0..N).map(|i| pv::vss::new_verifier(f.su, &f.longs[i], &f.pubs[N], &f.pubs[..N]).unwrap()).collect();
            let rs: Vec<_> = d.encrypted_deals().unwrap().iter().enumerate().map(|(i, e)| vs[i].process_encrypted_deal(e).unwrap()).collect();
            for r in &rs {
                d.process_response(r).unwrap();
                for (i, w) in vs.iter_mut().enumerate() {
                    if i as u32 != r.index {
                        w.process_response(r).unwrap();
                    }
                }
            }
            let deals = vs.iter().map(|w| w.deal().unwrap()).collect();
            let mut v = sb(&pv::vss::recover_secret(f.su, deals, N, T).unwrap());
            v.extend(js(&d));
            v.extend(js(&rs));
            v
        }, true),
        ("rab-vss", |f, p| {
            let mut d = rv::vss::new_dealer(f.su, f.longs[N].clone(), at(&f.scs, p).clone(), &f.pubs[..N], T).unwrap();
            let mut vs: Vec<_> = (0..N).map(|i| rv::vss::new_verifier(&f.su, &f.longs[i], &f.pubs[N], &f.pubs[..N]).unwrap()).collect();
            let rs: Vec<_> = d.encrypted_deals().unwrap().iter().enumerate().map(|(i, e)| vs[i].process_encrypted_deal(e).unwrap()).collect();
            for r in &rs {
                d.process_response(r).unwrap();
                for (i, w) in vs.iter_mut().enumerate() {
                    if i as u32 != r.index {
                        w.process_response(r).unwrap();
                    }
                }
            }
            let deals = vs.iter().map(|w| w.deal().unwrap()).collect();
            let mut v = sb(&rv::vss::recover_secret(f.su, deals, N, T).unwrap());
            v.extend(js(&rs));
            v
        }, true),
        ("ped-dkg", |f, p| {
            let mut ds: Vec<_> = (0..N)
                .map(|i| {
                    pdkg::new_dist_key_handler(pdkg::Config::<MonSuite, Rd> {
                        suite: f.su,
                        longterm: f.longs[i].clone(),
                        new_nodes: f.pubs[..N].to_vec(),
                        threshold: T,
                        reader: Some(Rd { seed: vec![i as u8, p as u8], pos: 0 }),
                        user_reader_only: true,
                        ..Default::default()
                    })
                    .unwrap()
                })
                .collect();
            let mut rs = vec![];
            for i in 0..N {
                let mut deals: Vec<_> = ds[i].deals().unwrap().into_iter().collect();
                deals.sort_by_key(|x| x.0);
                for (k, d) in deals {
                    rs.push(ds[k].process_deal(&d).unwrap());
                }
            }
            for r in &rs {
                for (i, d) in ds.iter_mut().enumerate() {
                    if r.response.index != i as u32 {
                        assert!(d.process_response(r).unwrap().is_none());
                    }
                }
            }
            let mut v = vec![];
            for d in &ds {
                assert!(d.certified());
                let s = d.dist_key_share().unwrap();
                v.extend(s.commits.iter().flat_map(pb));
                v.extend(sb(&s.share.v));
            }
            v
        }, true),
        ("rab-dkg", |f, _| {
            let mut ds: Vec<_> = (0..N).map(|i| rdkg::new_dist_key_generator(&f.su, &f.longs[i], &f.pubs[..N], T).unwrap()).collect();
            let mut rs = vec![];
            for i in 0..N {
                let mut deals: Vec<_> = ds[i].deals().unwrap().into_iter().collect();
                deals.sort_by_key(|x| x.0);
                for (k, d) in deals {
                    rs.push(ds[k].process_deal(&d).unwrap());
                }
            }
            for r in &rs {
                for (i, d) in ds.iter_mut().enumerate() {
                    if r.response.index != i as u32 {
                        assert!(d.process_response(r).unwrap().is_none());
                    }
                }
            }
            let scs: Vec<_> = ds.iter_mut().map(|d| d.secret_commits().unwrap()).collect();
            for (i, d) in ds.iter_mut().enumerate() {
                for (k, s) in scs.iter().enumerate() {
                    if i != k {
                        assert!(d.process_secret_commits(s).unwrap().is_none());
                    }
                }
            }
            let mut v = vec![];
            for d in &ds {
                let s = d.dist_key_share().unwrap();
                v.extend(s.commits.iter().flat_map(pb));
                v.extend(sb(&s.share.v));
            }
            v
        }, true),
        ("dss", |f, p| {
            let m = &f.msgs[p];
            let mut ds: Vec<_> = (0..N).map(|i| dss::new_dss(f.su, &f.longs[i], &f.pubs[..N], &f.own[i].0, &f.own[i].1, m, T).unwrap()).collect();
            let ps: Vec<_> = ds.iter_mut().map(|d| d.partial_sig().unwrap()).collect();
            for (i, d) in ds.iter_mut().enumerate() {
                for (k, x) in ps.iter().enumerate() {
                    if i != k {
                        d.process_partial_sig(x.clone()).unwrap();
                    }
                }
            }
            let mut v = vec![];
            for d in &ds {
                let s = d.signature().unwrap();
                v.extend(res(dss::verify(&f.own[0].0.commits[0], m, &s)));
                v.extend(s);
            }
            v
        }, true),
        ("hash", |f, p| {
            let mut h = <MonSuite as kyber_rs::group::HashFactory>::T::new();
            h.update(at(&f.msgs, p));
            let mut v = h.finalize().to_vec();
            v.extend(bytes(20));
            v
        }, false),
    ]
}
