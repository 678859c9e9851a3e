//! C06: generic modular integers against plain big-integer arithmetic.
use crate::core::*;
use crate::ensure;
use crate::suite::MonSuite;
use kyber_rs::XOFFactory;
use crate::oracle::{ell, emod, p25519};
use crate::suite::MonStream;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::Scalar;
use num_bigint_dig::{BigInt, BigUint, Sign};

fn bi(v: i64) -> BigInt {
    BigInt::from(v)
}
fn big(b: &[u8]) -> BigInt {
    BigInt::from_bytes_be(Sign::Plus, b)
}
fn size_of(m: &BigInt) -> usize {
    // independent bit count
    let s = m.to_str_radix(2);
    (s.len() + 7) / 8
}
/// fixed-length big-endian rendering
fn be(v: &BigInt, len: usize) -> Vec<u8> {
    let h = v.to_str_radix(16);
    let h = if h.len() % 2 == 1 { format!("0{}", h) } else { h };
    let b = hex::decode(h).unwrap();
    let b: Vec<u8> = b.into_iter().skip_while(|x| *x == 0).collect();
    let mut o = vec![0u8; len.saturating_sub(b.len())];
    o.extend_from_slice(&b);
    o
}
fn egcd_inv(a: &BigInt, m: &BigInt) -> Option<BigInt> {
    let (mut r0, mut r1) = (m.clone(), emod(a, m));
    let (mut s0, mut s1) = (bi(0), bi(1));
    while r1 != bi(0) {
        let q = &r0 / &r1;
        let t = &r0 - &q * &r1;
        r0 = r1;
        r1 = t;
        let t = &s0 - &q * &s1;
        s0 = s1;
        s1 = t;
    }
    if r0 == bi(1) {
        Some(emod(&s0, m))
    } else {
        None
    }
}
fn powm(a: &BigInt, e: &BigInt, m: &BigInt) -> BigInt {
    let mut r = emod(&bi(1), m);
    for ch in e.to_str_radix(2).bytes() {
        r = (&r * &r) % m;
        if ch == b'1' {
            r = (&r * a) % m;
        }
    }
    r
}
fn primes() -> Vec<BigInt> {
    let h = |s: &str| BigInt::from(BigUint::parse_bytes(s.as_bytes(), 16).unwrap());
    vec![
        BigInt::from(p25519()),
        BigInt::from(ell()),
        // high two-adicity (NIST P-224 field), 3 mod 4 (P-256), 1 mod 8 (BLS12-381 r)
        h("ffffffffffffffffffffffffffffffff000000000000000000000001"),
        h("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        h("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
        h("ffffffff00000001"),
        h("10001"),
        h("7fffffff"),
        h("ffffffffffffffc5"),
    ]
}
const SMALL_PRIMES: &[i64] = &[3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 127, 193, 241, 251, 257, 337, 509, 521, 577, 641, 769, 65537];

pub fn modulus(r: &mut Rng) -> BigInt {
    match r.below(10) {
        0 => bi(r.range(2, 300) as i64),
        1 => r.choose(&primes()).clone(),
        2 => bi(*r.choose(SMALL_PRIMES)),
        3 => bi(1) << r.range(1, 520),
        4 => (bi(1) << r.range(2, 520)) - bi(1),
        5 => (bi(1) << r.range(2, 520)) + bi(1),
        6 => bi(*r.choose(&[255, 256, 257, 65535, 65536, 65537, 1 << 31, (1 << 32) - 1, i64::MAX])),
        _ => {
            let n = r.range(1, 64);
            let mut b = r.bytes(n);
            b[0] |= 1;
            let v = big(&b);
            if v < bi(2) {
                bi(2)
            } else {
                v
            }
        }
    }
}
pub fn value(r: &mut Rng, m: &BigInt) -> BigInt {
    match r.below(8) {
        0 => bi(0),
        1 => emod(&bi(1), m),
        2 => m - bi(1),
        3 => emod(&(bi(1) << r.below(520)), m),
        4 => emod(&bi(r.below(600) as i64), m),
        5 => emod(&(m / bi(2)), m),
        _ => big(&r.bytes(66)) % m,
    }
}
pub fn order(r: &mut Rng) -> ByteOrder {
    if r.bool() {
        ByteOrder::LittleEndian
    } else {
        ByteOrder::BigEndian
    }
}
pub fn mk(v: &BigInt, m: &BigInt, bo: ByteOrder) -> Int {
    let mut i = Int::new_int(v.clone(), m.clone());
    i.bo = bo;
    i
}
/// a receiver that held something else before, for another modulus
fn dirty(c: &mut Case) -> Int {
    match c.rng.below(3) {
        0 => Int::default(),
        _ => {
            let m = modulus(&mut c.rng);
            let v = value(&mut c.rng, &m);
            mk(&v, &m, order(&mut c.rng))
        }
    }
}
/// the value held, observed three ways
fn check(c: &mut Case, op: &str, got: &Int, want: &BigInt, m: &BigInt, inp: &str) -> Res {
    c.ev(op);
    let n = size_of(m);
    let mut g = got.clone();
    ensure!(g.marshal_size() == n, format!("{op}:size"), "{op}: encoded size {} instead of {} ({inp})", g.marshal_size(), n);
    let wbe = be(want, n);
    let mut wle = wbe.clone();
    wle.reverse();
    g.bo = ByteOrder::BigEndian;
    let b = ok(nopanic(&format!("{op}:encode"), || g.marshal_binary())?, &format!("{op}:encode"))?;
    ensure!(b == wbe, op.to_string(), "{op}: holds {} want {} mod {} ({inp})", hex::encode(&b), want, m);
    g.bo = ByteOrder::LittleEndian;
    let b = ok(nopanic(&format!("{op}:encode"), || g.marshal_binary())?, &format!("{op}:encode"))?;
    ensure!(b == wle, op.to_string(), "{op}: little-endian {} want {} ({inp})", hex::encode(&b), hex::encode(&wle));
    let canon = Int::new_int(want.clone(), m.clone());
    ensure!(g == canon && g.equal(&canon), op.to_string(), "{op}: not equal to the exact result {} mod {} ({inp})", want, m);
    ensure!(g.nonzero() == (*want != bi(0)), op.to_string(), "{op}: nonzero() wrong for {} ({inp})", want);
    Ok(())
}

fn all_ops(c: &mut Case, a: &BigInt, b: &BigInt, m: &BigInt, bo: ByteOrder) -> Res {
    let inp = format!("a={} b={} m={}", a, b, m);
    c.log(&inp);
    let x = mk(a, m, bo);
    let y = mk(b, m, bo);
    check(c, "init", &x, a, m, &inp)?;
    check(c, "add", &(&x + &y), &emod(&(a + b), m), m, &inp)?;
    check(c, "mul", &(&x * &y), &emod(&(a * b), m), m, &inp)?;
    check(c, "mul-alias", &(&x * &x), &emod(&(a * a), m), m, &inp)?;
    check(c, "add-owned", &(x.clone() + y.clone()), &emod(&(a + b), m), m, &inp)?;
    let d = dirty(c);
    check(c, "sub", &d.sub(&x, &y), &emod(&(a - b), m), m, &inp)?;
    check(c, "sub-alias", &x.clone().sub(&x, &y), &emod(&(a - b), m), m, &inp)?;
    check(c, "sub-alias", &y.clone().sub(&x, &y), &emod(&(a - b), m), m, &inp)?;
    let d = dirty(c);
    check(c, "neg", &d.neg(&x), &emod(&(-a), m), m, &inp)?;
    check(c, "neg-alias", &x.clone().neg(&x), &emod(&(-a), m), m, &inp)?;
    let d = dirty(c);
    check(c, "set", &d.set(&x), a, m, &inp)?;
    check(c, "zero", &x.clone().zero(), &bi(0), m, &inp)?;
    check(c, "one", &x.clone().one(), &bi(1), m, &inp)?;
    if let Some(bi_) = egcd_inv(b, m) {
        let d = dirty(c);
        check(c, "inv", &nopanic("inv", || d.inv(&y))?, &bi_, m, &inp)?;
        check(c, "inv-alias", &nopanic("inv", || y.clone().inv(&y))?, &bi_, m, &inp)?;
        let d = dirty(c);
        check(c, "div", &nopanic("div", || d.div(&x, &y))?, &emod(&(a * &bi_), m), m, &inp)?;
        check(c, "div-alias", &nopanic("div", || y.clone().div(&x, &y))?, &emod(&(a * &bi_), m), m, &inp)?;
    }
    // comparison
    ensure!((x == y) == (a == b), "eq", "eq wrong ({inp})");
    ensure!(x.partial_cmp(&y) == Some(a.cmp(b)) && x.cmp(&y) == a.cmp(b) && x.cmpr(&y) == a.cmp(b), "cmp", "cmp wrong ({inp})");
    // operands untouched
    check(c, "operands-untouched", &x, a, m, &inp)?;
    check(c, "operands-untouched", &y, b, m, &inp)
}

fn small(c: &mut Case) -> Res {
    // exhaustive over all operand pairs of one small modulus
    let m = c.idx as i64 + 2;
    let bm = bi(m);
    for a in 0..m {
        for b in 0..m {
            all_ops(c, &bi(a), &bi(b), &bm, ByteOrder::BigEndian)?;
        }
        c.state(format!("{} {}", m, a).as_bytes());
        for e in [0i64, 1, 2, 3, 5, m - 1, m, 2 * m + 1] {
            let got = dirty(c).exp(&mk(&bi(a), &bm, ByteOrder::BigEndian), &bi(e));
            check(c, "exp", &got, &powm(&bi(a), &bi(e), &bm), &bm, &format!("{}^{} mod {}", a, e, m))?;
        }
    }
    for v in -3 * m..3 * m {
        let r = mk(&bi(1), &bm, ByteOrder::BigEndian);
        check(c, "set_int64", &r.clone().set_int64(v), &emod(&bi(v), &bm), &bm, &v.to_string())?;
        check(c, "new_int64", &Int::new_int64(v, bm.clone()), &emod(&bi(v), &bm), &bm, &v.to_string())?;
    }
    Ok(())
}

fn ops(c: &mut Case) -> Res {
    let m = modulus(&mut c.rng);
    let a = value(&mut c.rng, &m);
    let b = if c.rng.below(6) == 0 { a.clone() } else { value(&mut c.rng, &m) };
    let bo = order(&mut c.rng);
    c.state(format!("{} {} {}", m, a, b).as_bytes());
    all_ops(c, &a, &b, &m, bo)?;
    let x = mk(&a, &m, bo);
    // exponents: zero, tiny, around the modulus, larger than it
    let n = c.rng.range(1, 40);
    let e = match c.rng.below(6) {
        0 => bi(0),
        1 => bi(c.rng.below(20) as i64),
        2 => &m - bi(1),
        3 => &m + bi(c.rng.below(3) as i64),
        _ => big(&c.rng.bytes(n)),
    };
    let d = dirty(c);
    check(c, "exp", &d.exp(&x, &e), &powm(&a, &e, &m), &m, &format!("{}^{} mod {}", a, e, m))?;
    check(c, "exp-alias", &x.clone().exp(&x, &e), &powm(&a, &e, &m), &m, &format!("{}^{} mod {}", a, e, m))?;
    check(c, "exp-operand", &x, &a, &m, "operand of exp")?;
    Ok(())
}

fn history(c: &mut Case) -> Res {
    // register machine over one modulus
    let m = modulus(&mut c.rng);
    let n = 4;
    let mut sh: Vec<BigInt> = (0..n).map(|_| value(&mut c.rng, &m)).collect();
    let mut rg: Vec<Int> = sh.iter().map(|v| mk(v, &m, ByteOrder::BigEndian)).collect();
    let steps = if c.thorough() { 60 } else { 30 };
    for _ in 0..steps {
        let (i, j, k) = (c.rng.below(n), c.rng.below(n), c.rng.below(n));
        let op = c.rng.below(12);
        let (a, b) = (rg[i].clone(), rg[j].clone());
        let r = rg[k].clone();
        let (g, w) = match op {
            0 => (&a + &b, emod(&(&sh[i] + &sh[j]), &m)),
            1 => (&a * &b, emod(&(&sh[i] * &sh[j]), &m)),
            2 => (r.sub(&a, &b), emod(&(&sh[i] - &sh[j]), &m)),
            3 => (r.neg(&a), emod(&-&sh[i], &m)),
            4 => match egcd_inv(&sh[i], &m) {
                Some(v) => (r.inv(&a), v),
                None => continue,
            },
            5 => match egcd_inv(&sh[j], &m) {
                Some(v) => (r.div(&a, &b), emod(&(&sh[i] * v), &m)),
                None => continue,
            },
            6 => {
                let v = c.rng.u64() as i64 >> c.rng.below(60);
                (r.set_int64(v), emod(&bi(v), &m))
            }
            7 => {
                let v = c.rng.u64() >> c.rng.below(60);
                (r.set_uint64(v), emod(&BigInt::from(v), &m))
            }
            8 => {
                let l = c.rng.below(80);
                let b = c.rng.bytes(l);
                let mut d = b.clone();
                if rg[k].bo == ByteOrder::LittleEndian {
                    d.reverse();
                }
                (r.set_bytes(&b), emod(&big(&d), &m))
            }
            9 => (r.set(&a), sh[i].clone()),
            10 => {
                let e = BigInt::from(c.rng.u64() >> c.rng.below(60));
                (r.exp(&a, &e), powm(&sh[i], &e, &m))
            }
            _ => {
                let v = -big(&c.rng.bytes(70));
                (Int::new_int(v.clone(), m.clone()), emod(&v, &m))
            }
        };
        check(c, "history", &g, &w, &m, &format!("op {} on {} , {} mod {}", op, sh[i], sh[j], m))?;
        c.log(format!("op{} r{}<-r{},r{}", op, k, i, j));
        rg[k] = g;
        sh[k] = w;
        if c.rng.below(5) == 0 {
            rg[k].bo = order(&mut c.rng);
        }
    }
    for i in 0..n {
        check(c, "history-end", &rg[i].clone(), &sh[i].clone(), &m, "register")?;
        c.state(sh[i].to_string().as_bytes());
    }
    Ok(())
}

fn imports(c: &mut Case) -> Res {
    let m = modulus(&mut c.rng);
    let nn = c.rng.below(90);
    let b = match c.rng.below(4) {
        0 => vec![0u8; nn],
        1 => vec![0xff; nn],
        _ => c.rng.bytes(nn),
    };
    c.state(&b);
    let inp = format!("bytes {} mod {}", hex::encode(&b), m);
    let vb = emod(&big(&b), &m);
    let mut rev = b.clone();
    rev.reverse();
    let vl = emod(&big(&rev), &m);
    let x = Int::new_int_bytes(&b, &m, ByteOrder::BigEndian);
    check(c, "new_int_bytes-be", &x, &vb, &m, &inp)?;
    let y = Int::new_int_bytes(&b, &m, ByteOrder::LittleEndian);
    check(c, "new_int_bytes-le", &y, &vl, &m, &inp)?;
    let d = dirty(c).init_bytes(&b, &m, ByteOrder::LittleEndian);
    check(c, "init_bytes", &d, &vl, &m, &inp)?;
    let v = match c.rng.below(4) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => -(c.rng.below(1000) as i64),
        _ => c.rng.u64() as i64,
    };
    check(c, "new_int64", &Int::new_int64(v, m.clone()), &emod(&bi(v), &m), &m, &v.to_string())?;
    let d64 = dirty(c).init64(v, m.clone());
    check(c, "init64", &d64, &emod(&bi(v), &m), &m, &v.to_string())?;
    let u = c.rng.u64() >> c.rng.below(64);
    let zu = y.set_uint64(u);
    check(c, "set_uint64", &zu, &emod(&BigInt::from(u), &m), &m, &u.to_string())?;
    // export of small values
    if m > BigInt::from(u) {
        ensure!(zu.uint64() == u, "uint64", "uint64 of {} gave {}", u, zu.uint64());
        if u <= i64::MAX as u64 {
            ensure!(zu.int64() == u as i64, "int64", "int64 of {} gave {}", u, zu.int64());
        }
        c.ev("export");
    }
    let neg = c.rng.bool();
    let w0 = big(&c.rng.bytes(70));
    let w = if neg { -w0 } else { w0 };
    check(c, "new_int", &Int::new_int(w.clone(), m.clone()), &emod(&w, &m), &m, &w.to_string())?;
    // picking stays in range and only uses the stream
    let p = x.clone().pick(&mut MonStream::open());
    let mut pb = p.clone();
    pb.bo = ByteOrder::BigEndian;
    let e = ok(nopanic("pick", || pb.marshal_binary())?, "pick")?;
    let pv = big(&e);
    ensure!(pv < m && e.len() == size_of(&m), "pick-range", "picked {} not below {}", pv, m);
    if m > BigInt::from(3) {
        let seed = c.rng.bytes(16);
        let a = x.clone().pick(&mut MonSuite {}.xof(Some(&seed)));
        let mut b = x.clone();
        nopanic("unmarshal_from_random", || b.unmarshal_from_random(&mut MonSuite {}.xof(Some(&seed))))?;
        ensure!(a == b, "pick-decode", "picking and decoding from randomness differ modulo {}", m);
    }
    check(c, "pick", &p, &pv, &m, "picked")
}

fn strings(c: &mut Case) -> Res {
    let m = modulus(&mut c.rng);
    let radix = c.rng.range(2, 36) as u32;
    let n0 = match c.rng.below(3) {
        0 => bi(c.rng.below(100) as i64),
        1 => value(&mut c.rng, &m),
        _ => big(&c.rng.bytes(70)),
    };
    let n = if c.rng.bool() { n0 } else { -n0 };
    let k = c.rng.below(30);
    let d0 = if c.rng.bool() { bi(1 + k as i64) } else { big(&c.rng.bytes(k + 1)) };
    let d = if c.rng.below(4) == 0 { -d0 } else { d0 };
    let (ns, ds) = (n.to_str_radix(radix), d.to_str_radix(radix));
    let inp = format!("{}/{} base {} mod {}", ns, ds, radix, m);
    c.log(&inp);
    c.state(inp.as_bytes());
    let x = nopanic("new_int_string", || Int::new_int_string(ns.clone(), String::new(), radix as i32, &m))?;
    check(c, "string-integer", &x, &emod(&n, &m), &m, &inp)?;
    if let Some(di) = egcd_inv(&d, &m) {
        let want = emod(&(&n * di), &m);
        let x = nopanic("new_int_string", || Int::new_int_string(ns.clone(), ds.clone(), radix as i32, &m))?;
        check(c, "string-fraction", &x, &want, &m, &inp)?;
        let v = value(&mut c.rng, &m);
        let y = mk(&v, &m, ByteOrder::BigEndian);
        let y = ok(nopanic("set_string", || y.set_string(ns.clone(), ds.clone(), radix as i32))?, "set_string")?;
        check(c, "set_string", &y, &want, &m, &inp)?;
    }
    // text that is no number is refused
    for bad in ["", "x!", "1 2", "--3", "0x12", "1.5"] {
        let y = mk(&bi(1), &m, ByteOrder::BigEndian);
        let r = nopanic("set_string-bad", || y.set_string(bad.to_string(), String::new(), 10))?;
        ensure!(r.is_err(), "set_string-bad", "{:?} accepted as a number", bad);
        let y = mk(&bi(1), &m, ByteOrder::BigEndian);
        if !bad.is_empty() {
            let r = nopanic("set_string-bad", || y.set_string("1".into(), bad.to_string(), 10))?;
            ensure!(r.is_err(), "set_string-bad", "{:?} accepted as a denominator", bad);
        }
        c.ev("string-refused");
    }
    Ok(())
}

fn codec(c: &mut Case) -> Res {
    let m = modulus(&mut c.rng);
    let n = size_of(&m);
    let a = value(&mut c.rng, &m);
    let bo = order(&mut c.rng);
    let x = mk(&a, &m, bo);
    let inp = format!("{} mod {} {:?}", a, m, bo);
    c.log(&inp);
    c.state(inp.as_bytes());
    let enc = ok(nopanic("marshal", || x.marshal_binary())?, "marshal")?;
    let mut want = be(&a, n);
    if bo == ByteOrder::LittleEndian {
        want.reverse();
    }
    ensure!(enc == want, "marshal", "{} encodes to {} want {}", inp, hex::encode(&enc), hex::encode(&want));
    ensure!(x.marshal_id() == *b"mod.int ", "marshal-id", "{:?}", x.marshal_id());
    let mut w = vec![];
    ok(nopanic("marshal_to", || x.marshal_to(&mut w))?, "marshal_to")?;
    ensure!(w == want, "marshal_to", "{} writes {}", inp, hex::encode(&w));
    // decode into a register with another value
    let mut y = mk(&value(&mut c.rng, &m), &m, bo);
    ok(nopanic("unmarshal", || y.unmarshal_binary(&enc))?, "unmarshal")?;
    check(c, "roundtrip", &y, &a, &m, &inp)?;
    let mut z = mk(&value(&mut c.rng, &m), &m, bo);
    let mut rd = &w[..];
    ok(nopanic("unmarshal_from", || z.unmarshal_from(&mut rd))?, "unmarshal_from")?;
    check(c, "roundtrip-io", &z, &a, &m, &inp)?;
    // refusals leave the value alone
    let held = value(&mut c.rng, &m);
    for kind in 0..5 {
        let bad: Vec<u8> = match kind {
            0 => c.rng.bytes(n + 1),
            1 => c.rng.bytes(n - 1),
            2 => {
                let mut b = c.rng.bytes(n);
                b.push(0);
                b
            }
            3 => {
                let mut b = be(&m, n);
                if bo == ByteOrder::LittleEndian {
                    b.reverse();
                }
                b
            }
            _ => {
                let top = (bi(1) << (8 * n)) - bi(1);
                let k = BigInt::from(c.rng.u64() >> c.rng.below(60));
                let v = if c.rng.bool() { &m + k } else { &top - k };
                if v > top || v < m {
                    continue;
                }
                let mut b = be(&v, n);
                if bo == ByteOrder::LittleEndian {
                    b.reverse();
                }
                b
            }
        };
        let mut h = mk(&held, &m, bo);
        let r = nopanic("unmarshal-bad", || h.unmarshal_binary(&bad))?;
        ensure!(r.is_err(), "unmarshal-accepts", "{} accepted {} ({:?})", m, hex::encode(&bad), kind);
        check(c, "refused-untouched", &h, &held, &m, &format!("after refusing {}", hex::encode(&bad)))?;
    }
    // explicit-length encodings
    let sig = be(&a, 0).len().max(1);
    for _ in 0..4 {
        let min = c.rng.below(n + 6);
        let max = if c.rng.bool() { 0 } else { c.rng.range(1, n + 6) };
        let q = format!("{} min={} max={}", inp, min, max);
        // little endian: the minimal number of bytes, padded to `min`
        let need = sig.max(min);
        let r = nopanic("little_endian", || x.little_endian(min, max))?;
        c.ev("little_endian");
        if max != 0 && need > max {
            ensure!(r.is_err(), "little_endian", "accepted {}", q);
        } else {
            let b = ok(r, "little_endian")?;
            let mut wb = be(&a, need);
            wb.reverse();
            ensure!(b == wb, "little_endian", "{}: {} want {}", q, hex::encode(&b), hex::encode(&wb));
        }
        let need = n.max(min);
        let r = nopanic("big_endian", || x.big_endian(min, max))?;
        c.ev("big_endian");
        if max != 0 && need > max {
            ensure!(r.is_err(), "big_endian", "accepted {}", q);
        } else {
            let b = ok(r, "big_endian")?;
            ensure!(b == be(&a, need), "big_endian", "{}: {} want {}", q, hex::encode(&b), hex::encode(be(&a, need)));
        }
    }
    // printed forms denote the value
    for s in [format!("{}", x), format!("{:x}", x), format!("{:X}", x), format!("{:#x}", x)] {
        let t = s.trim_start_matches("0x").trim_start_matches("0X").to_string();
        let v = BigUint::parse_bytes(t.as_bytes(), 16).map(BigInt::from);
        ensure!(v.as_ref() == Some(&a), "format", "{} printed as {}", inp, s);
        c.ev("printed");
    }
    Ok(())
}

fn sqrt_one(c: &mut Case, a: &BigInt, p: &BigInt) -> Res {
    let x = mk(a, p, ByteOrder::BigEndian);
    let mut r = dirty(c);
    let res = nopanic("sqrt", || r.sqrt(&x))?;
    let leg = powm(a, &((p - bi(1)) / bi(2)), p);
    let is_sq = *a == bi(0) || leg == bi(1);
    let j = x.jacobi(&x).int64();
    let wantj = if *a == bi(0) {
        0
    } else if is_sq {
        1
    } else {
        -1
    };
    ensure!(j == wantj, "jacobi", "jacobi({} / {}) = {} want {}", a, p, j, wantj);
    c.ev("jacobi");
    if is_sq {
        ok(res, "sqrt")?;
        let sq = &r * &r;
        check(c, "sqrt", &sq, a, p, &format!("square of sqrt({}) mod {}", a, p))?;
    } else {
        ensure!(res.is_err(), "sqrt-nonsquare", "sqrt of the non-square {} mod {} returned a value", a, p);
        c.ev("sqrt-refused");
    }
    Ok(())
}
fn sqrt_small(c: &mut Case) -> Res {
    let p = SMALL_PRIMES[c.idx];
    let n = p.min(if c.thorough() { 70000 } else { 600 });
    for a in 0..n {
        sqrt_one(c, &bi(a), &bi(p))?;
    }
    c.state(&p.to_le_bytes());
    Ok(())
}
fn sqrt_big(c: &mut Case) -> Res {
    let ps = primes();
    let p = c.rng.choose(&ps).clone();
    let v = value(&mut c.rng, &p);
    let a = if c.rng.bool() { emod(&(&v * &v), &p) } else { v };
    c.state(format!("{} {}", a, p).as_bytes());
    sqrt_one(c, &a, &p)
}

pub fn run(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial and distinct by (modulus, operands).");
    ctx.assume("moduli are at least 2; operands of one operation share their modulus (documented precondition); inverses are only taken of invertible elements; sqrt moduli are odd primes (documented)");
    ctx.family("small", ctx.n(30, 64), small);
    ctx.family("ops", ctx.n(12000, 400000), ops);
    ctx.family("history", ctx.n(2500, 60000), history);
    ctx.family("imports", ctx.n(12000, 400000), imports);
    ctx.family("strings", ctx.n(2000, 40000), strings);
    ctx.family("codec", ctx.n(12000, 400000), codec);
    ctx.family("sqrt-small", SMALL_PRIMES.len(), sqrt_small);
    ctx.family("sqrt-big", ctx.n(2000, 40000), sqrt_big);
    for e in ["add", "mul", "sub", "neg", "inv", "div", "exp", "sqrt", "sqrt-refused", "roundtrip", "refused-untouched", "string-fraction"] {
        ctx.require(e, 100);
    }
}
