//! C01: scalar arithmetic against big-integer arithmetic modulo the group order.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::MonStream;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::scalar::sc_mul_add;
use kyber_rs::group::edwards25519::{Scalar, SimpleCTScalar};
use kyber_rs::Scalar as ScalarT;
use num_bigint_dig::{BigInt, BigUint, ModInverse, Sign};

/// the scalar implementations monitored
pub trait S: ScalarT + Copy {
    const NAME: &'static str;
    fn raw(&self) -> [u8; 32];
    fn mk(b: &[u8; 32]) -> Self;
    fn addr(a: &Self, b: &Self) -> Self;
    fn mulr(a: &Self, b: &Self) -> Self;
}
impl S for Scalar {
    const NAME: &'static str = "scalar";
    fn raw(&self) -> [u8; 32] {
        self.v
    }
    fn mk(b: &[u8; 32]) -> Self {
        Scalar { v: *b }
    }
    fn addr(a: &Self, b: &Self) -> Self {
        a + b
    }
    fn mulr(a: &Self, b: &Self) -> Self {
        a * b
    }
}
impl S for SimpleCTScalar {
    const NAME: &'static str = "simplect";
    fn raw(&self) -> [u8; 32] {
        self.v
    }
    fn mk(b: &[u8; 32]) -> Self {
        let mut s = SimpleCTScalar::new();
        s.v = *b;
        s
    }
    fn addr(a: &Self, b: &Self) -> Self {
        a + b
    }
    fn mulr(a: &Self, b: &Self) -> Self {
        a * b
    }
}

fn chk(c: &mut Case, name: &str, op: &str, got: [u8; 32], want: &BigUint, inputs: &str) -> Res {
    c.ev(op);
    let w = le32(want);
    ensure!(
        got == w,
        format!("{}-{}", name, op),
        "{} {}: got {} want {} for {}",
        name,
        op,
        hex::encode(got),
        hex::encode(w),
        inputs
    );
    Ok(())
}

fn ops<T: S>(c: &mut Case) -> Res {
    let l = ell();
    let ab = nasty32(&mut c.rng);
    let bb = nasty32(&mut c.rng);
    let rb = nasty32(&mut c.rng);
    let (a, b, r) = (T::mk(&ab), T::mk(&bb), T::mk(&rb));
    let (an, bn) = (modl(&from_le(&ab)), modl(&from_le(&bb)));
    let inp = format!("a={} b={} receiver={}", hex::encode(ab), hex::encode(bb), hex::encode(rb));
    c.log(format!("{} {}", T::NAME, inp));
    let mut st = ab.to_vec();
    st.extend_from_slice(&bb);
    c.state(&st);
    let n = T::NAME;
    chk(c, n, "add", (a + b).raw(), &((&an + &bn) % &l), &inp)?;
    chk(c, n, "add", T::addr(&a, &b).raw(), &((&an + &bn) % &l), &inp)?;
    chk(c, n, "mul", (a * b).raw(), &((&an * &bn) % &l), &inp)?;
    chk(c, n, "mul", T::mulr(&a, &b).raw(), &((&an * &bn) % &l), &inp)?;
    chk(c, n, "sub", r.sub(&a, &b).raw(), &((&an + &l - &bn) % &l), &inp)?;
    chk(c, n, "neg", r.neg(&a).raw(), &((&l - &an) % &l), &inp)?;
    // aliasing
    chk(c, n, "sub-alias", a.sub(&a, &a).raw(), &BigUint::from(0u8), &inp)?;
    chk(c, n, "sub-alias2", b.sub(&a, &b).raw(), &((&an + &l - &bn) % &l), &inp)?;
    chk(c, n, "zero", r.zero().raw(), &BigUint::from(0u8), &inp)?;
    chk(c, n, "one", r.one().raw(), &BigUint::from(1u8), &inp)?;
    ensure!(r.set(&a).raw() == ab, format!("{}-set", n), "set does not copy: {}", inp);
    if an != BigUint::from(0u8) {
        let ai = (&an).mod_inverse(&l).and_then(|x| x.to_biguint());
        let ai = ai.unwrap() % &l;
        chk(c, n, "inv", r.inv(&a).raw(), &ai, &inp)?;
        chk(c, n, "div", r.div(&b, &a).raw(), &((&bn * &ai) % &l), &inp)?;
    }
    // small integers, over whatever the receiver held
    let v: i64 = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => i64::MAX,
        4 => i64::MIN,
        5 => c.rng.below(70000) as i64,
        6 => -(c.rng.below(70000) as i64),
        _ => c.rng.u64() as i64,
    };
    let want = emod(&BigInt::from(v), &BigInt::from_biguint(Sign::Plus, l.clone())).to_biguint().unwrap();
    chk(c, n, "set_int64", r.set_int64(v).raw(), &want, &format!("v={} receiver={}", v, hex::encode(rb)))?;
    // byte strings of any length
    let len = match c.rng.below(6) {
        0 => 0,
        1 => c.rng.range(1, 31),
        2 => 32,
        3 => 64,
        4 => c.rng.range(33, 130),
        _ => c.rng.range(0, 64),
    };
    let mut by = c.rng.bytes(len);
    if c.rng.chance(1, 4) {
        for x in by.iter_mut() {
            *x = 0xff;
        }
    } else if c.rng.chance(1, 3) && len > 0 {
        // trailing / leading zero bytes
        let k = c.rng.below(len);
        if c.rng.bool() {
            for x in by[k..].iter_mut() {
                *x = 0;
            }
        } else {
            for x in by[..k].iter_mut() {
                *x = 0;
            }
        }
    }
    chk(
        c,
        n,
        "set_bytes",
        r.set_bytes(&by).raw(),
        &modl(&from_le(&by)),
        &format!("bytes={} receiver={}", hex::encode(&by), hex::encode(rb)),
    )?;
    // equality is value equality on reduced scalars
    let (ra, rb2) = (T::mk(&le32(&an)), T::mk(&le32(&bn)));
    ensure!((ra == rb2) == (an == bn), format!("{}-eq", n), "equality disagrees with value: {}", inp);
    ensure!(ra == ra.set(&ra), format!("{}-eq", n), "scalar not equal to itself");
    ensure!((ra.cmp(&rb2) == std::cmp::Ordering::Equal) == (an == bn), format!("{}-ord", n), "order disagrees with equality");
    Ok(())
}

fn pick(c: &mut Case) -> Res {
    // pick into a dirty receiver, from suite randomness, an xof and a random source
    let l = ell();
    let rb = nasty32(&mut c.rng);
    let r = Scalar { v: rb };
    let seed = c.rng.bytes(16);
    let mk = || kyber_rs::XOFFactory::xof(&crate::suite::MonSuite {}, Some(&seed));
    let a = r.pick(&mut mk());
    let b = Scalar::new().pick(&mut mk());
    c.evn("pick", 2);
    ensure!(from_le(&a.v) < l, "pick-range", "picked scalar not reduced: {:x}", a);
    ensure!(
        a.v == b.v,
        "pick-receiver",
        "pick depends on the receiver's previous value: {:x} vs {:x}",
        a,
        b
    );
    let mut u = r;
    u.unmarshal_from_random(&mut mk());
    ensure!(u.v == b.v, "unmarshal-from-random", "random decode differs from pick on the same stream");
    let d = r.pick(&mut MonStream::open());
    ensure!(from_le(&d.v) < l, "pick-range", "picked scalar not reduced: {:x}", d);
    let e = r.pick(&mut MonStream::open());
    ensure!(d.v != e.v, "pick-repeat", "two picks from a random stream coincide");
    // no fixed bits: seen over the family through the accumulated state count
    c.state(&d.v);
    c.state(&a.v);
    Ok(())
}

fn codec(c: &mut Case) -> Res {
    let b = nasty32(&mut c.rng);
    let prev = nasty32(&mut c.rng);
    c.state(&b);
    let want = red(&b);
    let mut s = Scalar { v: prev };
    ok(s.unmarshal_binary(&b), "scalar-decode")?;
    let e = sbytes(&s)?;
    ensure!(e == want, "scalar-encode", "encode({}) = {} want {}", hex::encode(b), hex::encode(e), hex::encode(want));
    let mut w = vec![];
    ok(s.marshal_to(&mut w), "scalar-marshal-to")?;
    ensure!(w == want, "scalar-marshal-to", "stream encoding differs from binary encoding");
    ensure!(s.marshal_size() == 32, "scalar-size", "size {}", s.marshal_size());
    let mut s2 = Scalar { v: prev };
    let mut src = w.clone();
    src.extend_from_slice(b"tail");
    let mut rd = &src[..];
    ok(s2.unmarshal_from(&mut rd), "scalar-unmarshal-from")?;
    ensure!(s2.v == want && rd == b"tail", "scalar-unmarshal-from", "stream decoding wrong or over-reads");
    // canonicality test agrees with the integer order
    let can = {
        use kyber_rs::group::ScalarCanCheckCanonical;
        nopanic("scalar-is-canonical", || s.is_canonical(&b))?
    };
    c.ev(if can { "canonical" } else { "noncanonical" });
    ensure!(can == (from_le(&b) < ell()), "scalar-is-canonical", "is_canonical({}) = {}", hex::encode(b), can);
    // wrong lengths are refused
    let len = c.rng.below(70);
    if len != 32 {
        let junk = c.rng.bytes(len);
        let mut t = Scalar { v: prev };
        ensure!(t.unmarshal_binary(&junk).is_err(), "scalar-decode-length", "accepted {} bytes", len);
        ensure!(t.v == prev, "scalar-decode-clobber", "failed decode changed the receiver");
        use kyber_rs::group::ScalarCanCheckCanonical;
        ensure!(!s.is_canonical(&junk), "scalar-canonical-length", "canonical with {} bytes", len);
        if len < 32 {
            let mut t = Scalar { v: prev };
            ensure!(t.unmarshal_from(&mut &junk[..]).is_err(), "scalar-short-read", "accepted short stream");
        }
        c.ev("wrong-length-refused");
    }
    // serde keeps the value
    let ser = bincode::serialize(&s).map_err(|e| Fail { key: "scalar-serde".into(), msg: e.to_string() })?;
    let back: Scalar = ok(bincode::deserialize(&ser), "scalar-serde")?;
    ensure!(back.v == s.v, "scalar-serde", "serde round trip changed the scalar");
    c.ev("codec");
    Ok(())
}

fn muladd(c: &mut Case) -> Res {
    let (a, b, d) = (nasty32(&mut c.rng), nasty32(&mut c.rng), nasty32(&mut c.rng));
    let mut s = nasty32(&mut c.rng);
    sc_mul_add(&mut s, &a, &b, &d);
    let want = modl(&(from_le(&a) * from_le(&b) + from_le(&d)));
    let mut st = a.to_vec();
    st.extend_from_slice(&b);
    st.extend_from_slice(&d);
    c.state(&st);
    chk(c, "scalar", "mul_add", s, &want, &format!("a={} b={} c={}", hex::encode(a), hex::encode(b), hex::encode(d)))
}

/// a long history over a register file, each step compared with the shadow
fn history(c: &mut Case) -> Res {
    let l = ell();
    let mut regs: Vec<Scalar> = vec![];
    let mut sh: Vec<BigUint> = vec![];
    for _ in 0..6 {
        let b = nasty_canon(&mut c.rng);
        regs.push(Scalar { v: b });
        sh.push(from_le(&b));
    }
    let steps = if c.thorough() { 600 } else { 150 };
    for st in 0..steps {
        let (i, j, k) = (c.rng.below(6), c.rng.below(6), c.rng.below(6));
        let (a, b) = (regs[i], regs[j]);
        let (an, bn) = (sh[i].clone(), sh[j].clone());
        let op = c.rng.below(11);
        let (v, n, name) = match op {
            0 | 1 => (a + b, (&an + &bn) % &l, "add"),
            2 | 3 => (a * b, (&an * &bn) % &l, "mul"),
            4 | 5 => (regs[k].sub(&a, &b), (&an + &l - &bn) % &l, "sub"),
            6 => (regs[k].neg(&a), (&l - &an) % &l, "neg"),
            7 => (regs[k].set(&a), an.clone(), "set"),
            8 => {
                let v = c.rng.u64() as i64 >> c.rng.below(63);
                let w = emod(&BigInt::from(v), &BigInt::from_biguint(Sign::Plus, l.clone()));
                (regs[k].set_int64(v), w.to_biguint().unwrap(), "set_int64")
            }
            9 => {
                let n = c.rng.range(0, 40);
                let by = c.rng.bytes(n);
                (regs[k].set_bytes(&by), modl(&from_le(&by)), "set_bytes")
            }
            _ => {
                if bn == BigUint::from(0u8) {
                    (regs[k].one(), BigUint::from(1u8), "one")
                } else {
                    let bi = (&bn).mod_inverse(&l).and_then(|x| x.to_biguint()).unwrap() % &l;
                    (regs[k].div(&a, &b), (&an * bi) % &l, "div")
                }
            }
        };
        regs[k] = v;
        sh[k] = n;
        c.log(format!("{}: r{} = {} r{} r{}", st, k, name, i, j));
        let w = sh[k].clone();
        chk(c, "history", name, regs[k].v, &w, &format!("step {} r{}=op(r{},r{})", st, k, i, j))?;
        for q in 0..6 {
            ensure!(from_le(&regs[q].v) == sh[q], "history-interference", "register {} changed by a step on {}", q, k);
        }
    }
    c.state(&regs.iter().flat_map(|r| r.v.to_vec()).collect::<Vec<u8>>());
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("operands drawn from carry/limb/reduction corner classes and uniform 256-bit strings, receivers dirty; a case is distinct by its operand bytes; every result is compared with integer arithmetic modulo the group order");
    ctx.assume("num-bigint-dig is trusted as the integer oracle");
    ctx.family("ops", ctx.n(6000, 200_000), ops::<Scalar>);
    ctx.family("ops-simplect", ctx.n(800, 20_000), ops::<SimpleCTScalar>);
    ctx.family("muladd", ctx.n(30_000, 2_000_000), muladd);
    ctx.family("codec", ctx.n(10_000, 300_000), codec);
    ctx.family("pick", ctx.n(2000, 60_000), pick);
    ctx.family("history", ctx.n(100, 2000), history);
    ctx.require("inv", 1000);
    ctx.require("canonical", 100);
    ctx.require("noncanonical", 100);
    let _ = Scalar::new().marshal_binary();
}
