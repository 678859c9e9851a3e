//! C15 Lagrange reconstruction, C16 polynomials and commitments.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::{MonStream, MonSuite};
use curve25519_dalek::edwards::EdwardsPoint;
use kyber_rs::group::edwards25519::{Point, Scalar, SuiteEd25519};
use kyber_rs::group::Group;
use kyber_rs::share::poly::{
    coefficients_to_pri_poly, new_pri_poly, recover_commit, recover_pri_poly, recover_pub_poly,
    recover_secret, PriPoly, PriShare, PubPoly, PubShare,
};
use num_bigint_dig::BigUint;

/// reference polynomial over the integers modulo the group order
#[derive(Clone, Debug, PartialEq)]
pub struct RefPoly(pub Vec<BigUint>);
impl RefPoly {
    pub fn eval(&self, i: usize) -> BigUint {
        let l = ell();
        let x = BigUint::from(i as u64) + BigUint::from(1u8);
        let mut v = BigUint::from(0u8);
        for c in self.0.iter().rev() {
            v = (v * &x + c) % &l;
        }
        v
    }
    pub fn mul(&self, o: &RefPoly) -> RefPoly {
        if self.0.is_empty() || o.0.is_empty() {
            return RefPoly(vec![]);
        }
        let mut r = vec![BigUint::from(0u8); self.0.len() + o.0.len() - 1];
        for (i, a) in self.0.iter().enumerate() {
            for (j, b) in o.0.iter().enumerate() {
                r[i + j] = (&r[i + j] + a * b) % ell();
            }
        }
        RefPoly(r)
    }
    pub fn add(&self, o: &RefPoly) -> RefPoly {
        RefPoly(self.0.iter().zip(o.0.iter()).map(|(a, b)| (a + b) % ell()).collect())
    }
}

fn coeff(r: &mut Rng) -> [u8; 32] {
    match r.below(6) {
        0 => [0u8; 32],
        1 => nasty255(r),
        _ => nasty_canon(r),
    }
}
/// library polynomial and its reference, from chosen coefficients
fn poly<G: Group<POINT = Point>>(g: &G, r: &mut Rng, t: usize) -> Res<(PriPoly<G>, RefPoly)> {
    let mut cs = vec![];
    let mut rf = vec![];
    for _ in 0..t {
        let b = coeff(r);
        cs.push(ks(&b)?);
        rf.push(modl(&from_le(&b)));
    }
    Ok((coefficients_to_pri_poly(g, &cs), RefPoly(rf)))
}
fn coeffs_of<G: Group<POINT = Point>>(p: &PriPoly<G>) -> Res<Vec<BigUint>> {
    p.coefficients().iter().map(|c| Ok(from_le(&sbytes(c)?))).collect()
}
fn base(r: &mut Rng) -> (Option<Point>, EdwardsPoint) {
    if r.bool() {
        (None, dbase())
    } else {
        let q = prime_point(r);
        (kp(&denc(&q)).ok(), q)
    }
}
fn sval(s: &Scalar) -> Res<BigUint> {
    Ok(from_le(&sbytes(s)?))
}
fn spread<T: Clone>(r: &mut Rng, mut v: Vec<T>) -> Vec<Option<T>> {
    r.shuffle(&mut v);
    let mut o: Vec<Option<T>> = v.into_iter().map(Some).collect();
    for _ in 0..r.below(4) {
        let at = r.below(o.len() + 1);
        o.insert(at, None);
    }
    o
}

struct Setup<G: Group<POINT = Point>> {
    g: G,
    rf: RefPoly,
    bpt: Option<Point>,
    bq: EdwardsPoint,
    pri: PriPoly<G>,
    pubp: PubPoly<G>,
}
fn setup<G: Group<POINT = Point>>(g: G, r: &mut Rng, t: usize) -> Res<Setup<G>> {
    let (pri, rf) = poly(&g, r, t)?;
    let (bpt, bq) = base(r);
    let pubp = nopanic("commit", || pri.commit(bpt.as_ref()))?;
    Ok(Setup { g, rf, bpt, bq, pri, pubp })
}

/// all four reconstructions from the shares with the given indices (>= t distinct)
fn recover_all<G: Group<POINT = Point>>(c: &mut Case, s: &Setup<G>, idx: &[usize], t: usize, n: usize) -> Res {
    let l0 = &s.rf.0[0];
    let ctx = || format!("t={} n={} indices {:?}", t, n, idx);
    let ps: Vec<PriShare<Scalar>> = idx.iter().map(|i| Ok(PriShare { i: *i, v: ks(&le32(&s.rf.eval(*i)))? })).collect::<Res<_>>()?;
    let ps = spread(&mut c.rng, ps);
    let sec = ok(nopanic("recover_secret", || recover_secret(s.g.clone(), &ps, t, n))?, "recover_secret")?;
    ensure!(&sval(&sec)? == l0, "secret", "wrong secret from {}", ctx());
    let pp = ok(nopanic("recover_pri_poly", || recover_pri_poly(&s.g, &ps, t, n))?, "recover_pri_poly")?;
    let mut want = s.rf.0.clone();
    want.resize(t, BigUint::from(0u8));
    ensure!(coeffs_of(&pp)? == want, "pri-poly", "wrong private polynomial from {}", ctx());
    let qs: Vec<PubShare<Point>> = idx
        .iter()
        .map(|i| Ok(PubShare { i: *i, v: kp(&denc(&imul(&le32(&s.rf.eval(*i)), &s.bq)))? }))
        .collect::<Res<_>>()?;
    let qs = spread(&mut c.rng, qs);
    let com = ok(nopanic("recover_commit", || recover_commit(s.g.clone(), &qs, t, n))?, "recover_commit")?;
    let c0 = denc(&imul(&le32(l0), &s.bq));
    ensure!(pbytes(&com)? == c0, "commit", "wrong commitment from {}", ctx());
    let pb = ok(nopanic("recover_pub_poly", || recover_pub_poly(s.g.clone(), &qs, t, n))?, "recover_pub_poly")?;
    let got: Vec<[u8; 32]> = pb.info().1.iter().map(pbytes).collect::<Res<_>>()?;
    let wantp: Vec<[u8; 32]> = want.iter().map(|k| denc(&imul(&le32(k), &s.bq))).collect();
    ensure!(got == wantp, "pub-poly", "wrong public polynomial from {}", ctx());
    if s.bpt.is_none() {
        let i = c.rng.below(50);
        let sh = PriShare { i, v: ks(&le32(&s.rf.eval(i)))? };
        ensure!(nopanic("check", || pb.check(&sh))?, "recovered-pub-poly-base", "recovered public polynomial refuses share {}", i);
        if t == s.rf.0.len() {
            ensure!(ok(nopanic("equal", || pb.equal(&s.pubp))?, "equal")?, "recovered-pub-poly-eq", "recovered public polynomial differs from the original");
        }
    }
    c.evn("recoveries", 4);
    Ok(())
}
/// fewer than t distinct shares (possibly duplicated): every reconstruction must refuse
fn refuse_all<G: Group<POINT = Point>>(c: &mut Case, s: &Setup<G>, idx: &[usize], t: usize, n: usize) -> Res {
    let ctx = || format!("t={} n={} indices {:?}", t, n, idx);
    let ps: Vec<PriShare<Scalar>> = idx.iter().map(|i| Ok(PriShare { i: *i, v: ks(&le32(&s.rf.eval(*i)))? })).collect::<Res<_>>()?;
    let ps = spread(&mut c.rng, ps);
    ensure!(nopanic("recover_secret", || recover_secret(s.g.clone(), &ps, t, n))?.is_err(), "few-secret", "value from too few shares {}", ctx());
    ensure!(nopanic("recover_pri_poly", || recover_pri_poly(&s.g, &ps, t, n))?.is_err(), "few-pri-poly", "value from too few shares {}", ctx());
    let qs: Vec<PubShare<Point>> = idx
        .iter()
        .map(|i| Ok(PubShare { i: *i, v: kp(&denc(&imul(&le32(&s.rf.eval(*i)), &s.bq)))? }))
        .collect::<Res<_>>()?;
    let qs = spread(&mut c.rng, qs);
    ensure!(nopanic("recover_commit", || recover_commit(s.g.clone(), &qs, t, n))?.is_err(), "few-commit", "value from too few shares {}", ctx());
    ensure!(nopanic("recover_pub_poly", || recover_pub_poly(s.g.clone(), &qs, t, n))?.is_err(), "few-pub-poly", "value from too few shares {}", ctx());
    c.evn("refusals", 4);
    Ok(())
}
fn gap_indices(r: &mut Rng, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    while v.len() < k {
        let i = match r.below(8) {
            0 => r.below(4),
            1 | 2 => r.below(k * 3 + 1),
            3 => r.below(1000),
            4 => (u32::MAX as usize) - 2 + r.below(5),
            5 => (1usize << r.range(8, 62)) - 1 + r.below(3),
            6 => (i64::MAX as usize) - 1 - r.below(4),
            _ => r.below(2 * k + 4),
        };
        if !v.contains(&i) {
            v.push(i);
        }
    }
    v
}
/// every subset of n shares, for small n and every t
fn enum_case(c: &mut Case) -> Res {
    // idx -> (n, t)
    let mut k = c.idx;
    let mut n = 1;
    while k >= n {
        k -= n;
        n += 1;
    }
    let t = k + 1;
    let s = setup(MonSuite {}, &mut c.rng, t)?;
    for m in 0u32..(1 << n) {
        let idx: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
        c.state(format!("{}/{}/{:?}", n, t, idx).as_bytes());
        if idx.len() >= t {
            recover_all(c, &s, &idx, t, n)?;
            c.ev("enumerated_subset_ok");
        } else {
            refuse_all(c, &s, &idx, t, n)?;
            c.ev("enumerated_subset_few");
        }
    }
    Ok(())
}
/// every order of the shares of one subset
fn order_case(c: &mut Case) -> Res {
    let k = c.rng.range(2, 4);
    let t = c.rng.range(1, k);
    let idx = gap_indices(&mut c.rng, k);
    let s = setup(MonSuite {}, &mut c.rng, t)?;
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..k {
        perms = perms
            .into_iter()
            .flat_map(|p| {
                (0..=p.len()).map(move |at| {
                    let mut q = p.clone();
                    q.insert(at, i);
                    q
                })
            })
            .collect();
    }
    for p in perms {
        let ps: Vec<Option<PriShare<Scalar>>> =
            p.iter().map(|j| Ok(Some(PriShare { i: idx[*j], v: ks(&le32(&s.rf.eval(idx[*j])))? }))).collect::<Res<_>>()?;
        let sec = ok(nopanic("recover_secret", || recover_secret(s.g, &ps, t, k))?, "recover_secret")?;
        ensure!(sval(&sec)? == s.rf.0[0], "order-secret", "wrong secret for order {:?} of {:?}", p, idx);
        let qs: Vec<Option<PubShare<Point>>> = p
            .iter()
            .map(|j| Ok(Some(PubShare { i: idx[*j], v: kp(&denc(&imul(&le32(&s.rf.eval(idx[*j])), &s.bq)))? })))
            .collect::<Res<_>>()?;
        let com = ok(nopanic("recover_commit", || recover_commit(s.g, &qs, t, k))?, "recover_commit")?;
        ensure!(pbytes(&com)? == denc(&imul(&le32(&s.rf.0[0]), &s.bq)), "order-commit", "wrong commitment for order {:?} of {:?}", p, idx);
        c.ev("orders");
    }
    c.state(format!("{:?}", idx).as_bytes());
    Ok(())
}
fn random_case(c: &mut Case) -> Res {
    let max = if c.thorough() { 40 } else { 14 };
    let n = c.rng.range(1, max);
    let t = c.rng.range(1, n);
    let real_t = if c.rng.chance(1, 6) { c.rng.range(1, t) } else { t };
    let g = SuiteEd25519::new_blake3_sha256_ed25519();
    let s = setup(g, &mut c.rng, real_t)?;
    let all: Vec<usize> = if c.rng.bool() { (0..n).collect() } else { gap_indices(&mut c.rng, n) };
    let k = if c.rng.bool() { t } else { c.rng.range(t, n) };
    let mut idx: Vec<usize> = c.rng.subset(n, k).iter().map(|i| all[*i]).collect();
    if c.rng.chance(1, 2) {
        for _ in 0..c.rng.range(1, 3) {
            let d = *c.rng.choose(&idx);
            idx.push(d);
            c.ev("duplicate_share");
        }
    }
    c.state(format!("{}/{:?}", t, idx).as_bytes());
    recover_all(c, &s, &idx, t, n)?;
    // shares the library itself issued
    let mine = nopanic("shares", || s.pri.shares(n))?;
    let sub = c.rng.subset(n, k);
    let sel: Vec<_> = (0..n).map(|i| if sub.contains(&i) { mine[i] } else { None }).collect();
    let sec = ok(nopanic("recover_secret", || recover_secret(s.g, &sel, t, n))?, "recover_secret")?;
    ensure!(sval(&sec)? == s.rf.0[0], "issued-shares", "wrong secret from issued shares {:?} t={}", sub, t);
    let minep = nopanic("pub shares", || s.pubp.shares(n))?;
    let sel: Vec<_> = (0..n).map(|i| if sub.contains(&i) { minep[i] } else { None }).collect();
    let com = ok(nopanic("recover_commit", || recover_commit(s.g, &sel, t, n))?, "recover_commit")?;
    ensure!(pbytes(&com)? == denc(&imul(&le32(&s.rf.0[0]), &s.bq)), "issued-pub-shares", "wrong commitment from issued public shares {:?}", sub);
    // too few, padded with duplicates and holes
    if t > 1 {
        let k = c.rng.range(0, t - 1);
        let mut few: Vec<usize> = c.rng.subset(n, k).iter().map(|i| all[*i]).collect();
        while !few.is_empty() && few.len() < t + 2 {
            let d = *c.rng.choose(&few);
            few.push(d);
        }
        refuse_all(c, &s, &few, t, n)?;
    }
    Ok(())
}
/// t-1 shares say nothing: a polynomial drawn by the library really has t
/// unpredictable coefficients and t-1 shares do not interpolate to the secret
fn secrecy_case(c: &mut Case) -> Res {
    let t = c.rng.range(2, 8);
    let n = t + c.rng.below(4);
    let g = MonSuite {};
    let given = if c.rng.bool() { Some(ks(&nasty_canon(&mut c.rng))?) } else { None };
    let p = nopanic("new_pri_poly", || new_pri_poly(g, t, given, MonStream::open()))?;
    ensure!(p.threshold() == t, "threshold", "asked for threshold {}, got {}", t, p.threshold());
    let cs = coeffs_of(&p)?;
    ensure!(cs.len() == t, "threshold", "asked for {} coefficients, got {}", t, cs.len());
    if let Some(x) = &given {
        ensure!(cs[0] == sval(x)?, "given-secret", "polynomial does not hold the given secret");
    }
    ensure!(sval(&nopanic("secret", || p.secret())?)? == cs[0], "secret-value", "secret() is not the constant term");
    let z = BigUint::from(0u8);
    ensure!(cs[1..].iter().all(|x| x != &z), "degenerate", "a drawn coefficient is zero");
    for i in 0..t {
        for j in 0..i {
            ensure!(i == 0 || j == 0 || cs[i] != cs[j], "repeated-coefficient", "coefficients {} and {} coincide", i, j);
        }
    }
    let shares = nopanic("shares", || p.shares(n))?;
    let sub = c.rng.subset(n, t - 1);
    let sel: Vec<_> = sub.iter().map(|i| shares[*i]).collect();
    let r = ok(nopanic("recover_secret", || recover_secret(g, &sel, t - 1, n))?, "recover_secret")?;
    ensure!(sval(&r)? != cs[0], "leak", "{} shares of threshold {} reveal the secret", t - 1, t);
    let q = nopanic("new_pri_poly", || new_pri_poly(g, t, given, MonStream::open()))?;
    ensure!(coeffs_of(&q)?[1..] != cs[1..], "repeated-polynomial", "two polynomials share their coefficients");
    c.state(&le32(&cs[1]));
    c.ev("secrecy_checked");
    Ok(())
}

pub fn run_c15(ctx: &Ctx) {
    ctx.rule("Reference polynomials over the integers mod the group order (num-bigint) and dalek curve. A case is a distinct (threshold, index set) selection; every subset of up to n shares for small n is enumerated for every t, plus random gaps, huge indices (below 2^63), duplicates, holes and orders.");
    ctx.assume("thresholds are at least 1 and share indices at most 2^63-2 (index+1 is imported as a signed 64-bit integer)");
    ctx.assume("commitment bases are of prime order, coefficients below 2^255");
    let upto = ctx.n(6, 7);
    ctx.family("enum", upto * (upto + 1) / 2, enum_case);
    ctx.family("order", ctx.n(40, 600), order_case);
    ctx.family("random", ctx.n(800, 6000), random_case);
    ctx.family("secrecy", ctx.n(200, 10000), secrecy_case);
    ctx.require("recoveries", 500);
    ctx.require("refusals", 200);
    ctx.require("duplicate_share", 20);
    ctx.require("secrecy_checked", 50);
}

// ---------------------------------------------------------------- C16

fn some_index(r: &mut Rng) -> usize {
    gap_indices(r, 1)[0]
}
fn eval_case(c: &mut Case) -> Res {
    let max = if c.thorough() { 30 } else { 10 };
    let t = c.rng.range(0, max);
    let g = MonSuite {};
    let s = setup(g, &mut c.rng, t)?;
    ensure!(s.pri.threshold() == t && s.pubp.threshold() == t, "threshold", "threshold of {} coefficients", t);
    let (b, cm) = s.pubp.info();
    ensure!(b == s.bpt, "info-base", "info() returns another base point");
    for (i, p) in cm.iter().enumerate() {
        ensure!(pbytes(p)? == denc(&imul(&le32(&s.rf.0[i]), &s.bq)), "commitment", "commitment {} is not coefficient times base", i);
    }
    if t > 0 {
        ensure!(sval(&s.pri.secret())? == s.rf.0[0], "secret-value", "secret() is not the constant term");
        ensure!(s.pubp.commit() == cm[0], "commit-value", "commit() is not the first commitment");
    }
    for _ in 0..4 {
        let i = some_index(&mut c.rng);
        let v = nopanic("eval", || s.pri.eval(i))?;
        let want = s.rf.eval(i);
        ensure!(v.i == i && sval(&v.v)? == want, "pri-eval", "p({}) wrong for t={}", i, t);
        let w = nopanic("pub-eval", || s.pubp.eval(i))?;
        ensure!(w.i == i && pbytes(&w.v)? == denc(&imul(&le32(&want), &s.bq)), "pub-eval", "P({}) wrong for t={}", i, t);
        c.ev("evaluations");
        // check() accepts exactly the evaluation
        ensure!(nopanic("check", || s.pubp.check(&v))?, "check-rejects-valid", "check refuses the share at {}", i);
        let mut bad = vec![];
        bad.push(PriShare { i, v: ks(&le32(&((&want + BigUint::from(1u8)) % ell())))? });
        bad.push(PriShare { i, v: ks(&nasty_canon(&mut c.rng))? });
        bad.push(PriShare { i, v: ks(&le32(&((ell() - &want) % ell())))? });
        bad.push(PriShare { i: if i == 0 { 1 } else { i - 1 }, v: v.v });
        bad.push(PriShare { i: some_index(&mut c.rng), v: v.v });
        bad.push(PriShare { i: (i ^ (1 << c.rng.below(60))).min(i64::MAX as usize - 1), v: v.v });
        // same value in another representation must still be accepted
        let alt = le32(&(&want + ell()));
        bad.push(PriShare { i, v: ks(&alt)? });
        for x in bad {
            let exp = sval(&x.v)? == s.rf.eval(x.i);
            let got = nopanic("check", || s.pubp.check(&x))?;
            ensure!(got == exp, "check-decision", "check says {} for share at {} (evaluation {})", got, x.i, exp);
            c.ev(if exp { "check_accept" } else { "check_reject" });
        }
        c.state(&le32(&want));
    }
    let n = c.rng.below(6);
    let sh = nopanic("shares", || s.pri.shares(n))?;
    ensure!(sh.len() == n, "shares-len", "shares({}) has {} entries", n, sh.len());
    for (i, x) in sh.iter().enumerate() {
        let x = some(*x, "shares-none")?;
        ensure!(x.i == i && sval(&x.v)? == s.rf.eval(i), "shares", "shares({})[{}] wrong", n, i);
    }
    let sh = nopanic("pub shares", || s.pubp.shares(n))?;
    ensure!(sh.len() == n, "shares-len", "shares({}) has {} entries", n, sh.len());
    for (i, x) in sh.iter().enumerate() {
        let x = some(*x, "shares-none")?;
        ensure!(x.i == i && pbytes(&x.v)? == denc(&imul(&le32(&s.rf.eval(i)), &s.bq)), "pub-shares", "pub shares({})[{}] wrong", n, i);
    }
    Ok(())
}
fn algebra_case(c: &mut Case) -> Res {
    let max = if c.thorough() { 16 } else { 7 };
    let g = MonSuite {};
    let t1 = c.rng.range(0, max);
    let t2 = if c.rng.bool() { t1 } else { c.rng.range(0, max) };
    let (a, ra) = poly(&g, &mut c.rng, t1)?;
    let (mut b, mut rb) = poly(&g, &mut c.rng, t2)?;
    if c.rng.chance(1, 3) {
        // coefficients opposite or equal to the other's, often the leading ones
        let k = c.rng.below(t1.min(t2) + 1);
        let top = c.rng.bool();
        let neg = c.rng.chance(2, 3);
        for i in 0..t1.min(t2) {
            if if top { i >= t1.min(t2) - k } else { c.rng.bool() } {
                rb.0[i] = if neg { modl(&(ell() - &ra.0[i])) } else { ra.0[i].clone() };
            }
        }
        let co: Vec<Scalar> = rb.0.iter().map(|x| ks(&le32(x))).collect::<Res<_>>()?;
        b = coefficients_to_pri_poly(&g, &co);
        c.ev("related-polynomials");
    }
    let (a0, b0) = (coeffs_of(&a)?, coeffs_of(&b)?);
    // products
    let m = nopanic("mul", || a.mul(&b))?;
    let rm = ra.mul(&rb);
    ensure!(coeffs_of(&m)? == rm.0, "mul", "product of degrees {} and {} wrong", t1, t2);
    let i = some_index(&mut c.rng);
    ensure!(sval(&m.eval(i).v)? == (ra.eval(i) * rb.eval(i)) % ell(), "mul-eval", "product evaluates wrongly at {}", i);
    c.ev("products");
    // sums
    let s = nopanic("add", || a.add(&b))?;
    ensure!(s.is_ok() == (t1 == t2), "add-mismatch", "adding thresholds {} and {}: ok={}", t1, t2, s.is_ok());
    let (bp, bq) = base(&mut c.rng);
    let (pa, pb) = (a.commit(bp.as_ref()), b.commit(bp.as_ref()));
    let ps = nopanic("pub-add", || pa.add(&pb))?;
    ensure!(ps.is_ok() == (t1 == t2), "pub-add-mismatch", "adding thresholds {} and {}: ok={}", t1, t2, ps.is_ok());
    if let (Ok(s), Ok(ps)) = (s, ps) {
        let rs = ra.add(&rb);
        ensure!(coeffs_of(&s)? == rs.0, "add", "sum wrong");
        ensure!(s.threshold() == t1 && ps.threshold() == t1 && ps.info().1.len() == t1, "sum-threshold", "sum of thresholds {} has {} and {}", t1, s.threshold(), ps.threshold());
        for (i, p) in ps.info().1.iter().enumerate() {
            ensure!(pbytes(p)? == denc(&imul(&le32(&rs.0[i]), &bq)), "pub-add", "sum of commitments wrong at {}", i);
        }
        ensure!(ps.info().0 == bp, "pub-add-base", "sum of commitments has another base");
        // the base of a sum over different bases is the first one's
        let (bo, _) = base(&mut c.rng);
        let mixed = ok(nopanic("pub-add", || pa.add(&b.commit(bo.as_ref())))?, "pub-add")?;
        ensure!(mixed.info().0 == bp, "pub-add-base", "sum over two bases does not keep the first");
        let i = some_index(&mut c.rng);
        let sh = PriShare { i, v: ks(&le32(&rs.eval(i)))? };
        ensure!(nopanic("check", || ps.check(&sh))?, "add-check", "sum of commitments refuses the sum of shares");
        c.ev("sums");
    } else {
        c.ev("mismatched_sums");
    }
    // equality
    let eq_pairs = |c: &mut Case, x: &PriPoly<MonSuite>, y: &PriPoly<MonSuite>, want: bool| -> Res {
        let e = ok(nopanic("equal", || x.equal(y))?, "equal")?;
        ensure!(e == want, "equal", "equal() says {} instead of {} (thresholds {} {})", e, want, x.threshold(), y.threshold());
        let (px, py) = (x.commit(bp.as_ref()), y.commit(bp.as_ref()));
        let e = ok(nopanic("pub-equal", || px.equal(&py))?, "pub-equal")?;
        ensure!(e == want, "pub-equal", "PubPoly::equal says {} instead of {} (thresholds {} {})", e, want, x.threshold(), y.threshold());
        c.ev(if want { "equal_yes" } else { "equal_no" });
        Ok(())
    };
    eq_pairs(c, &a, &a, true)?;
    eq_pairs(c, &a, &b, ra == rb)?;
    // the same values in another representation, one coefficient changed, prefix, extension
    let rep: Vec<Scalar> = ra
        .0
        .iter()
        .map(|k| {
            let alt = k + ell() * BigUint::from(c.rng.below(5) as u64);
            ks(&le32(&alt))
        })
        .collect::<Res<_>>()?;
    eq_pairs(c, &a, &coefficients_to_pri_poly(&g, &rep), true)?;
    if t1 > 0 {
        let mut x = a.coefficients();
        let at = c.rng.below(t1);
        x[at] = ks(&le32(&((&ra.0[at] + BigUint::from(1u8)) % ell())))?;
        eq_pairs(c, &a, &coefficients_to_pri_poly(&g, &x), false)?;
        let cut = coefficients_to_pri_poly(&g, &a.coefficients()[..t1 - 1]);
        eq_pairs(c, &a, &cut, false)?;
        eq_pairs(c, &cut, &a, false)?;
        if t1 > 1 {
            let mut x = a.coefficients();
            x.reverse();
            let mut rr = ra.0.clone();
            rr.reverse();
            eq_pairs(c, &a, &coefficients_to_pri_poly(&g, &x), rr == ra.0)?;
        }
    }
    let mut x = a.coefficients();
    x.push(ks(&[0u8; 32])?);
    eq_pairs(c, &a, &coefficients_to_pri_poly(&g, &x), false)?;
    // PubPoly::new agrees
    let pn = PubPoly::new(&g, bp, &pa.info().1);
    ensure!(ok(pn.equal(&pa), "equal")? && pn == pa, "pub-new", "PubPoly::new differs from commit()");
    // operands untouched
    ensure!(coeffs_of(&a)? == a0 && coeffs_of(&b)? == b0, "operands", "an operand was changed");
    if !ra.0.is_empty() {
        c.state(&le32(&ra.0[0]));
    }
    Ok(())
}
/// the same curve under different names
#[derive(Clone, Debug, PartialEq)]
struct Named(&'static str);
impl Default for Named {
    fn default() -> Self {
        Named("Ed25519")
    }
}
impl core::fmt::Display for Named {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl kyber_rs::dh::Dh for Named {
    type H = sha2::Sha256;
}
impl Group for Named {
    type POINT = Point;
    fn scalar_len(&self) -> usize {
        32
    }
    fn scalar(&self) -> Scalar {
        Scalar::new()
    }
    fn point_len(&self) -> usize {
        32
    }
    fn point(&self) -> Point {
        Point::default()
    }
    fn is_prime_order(&self) -> Option<bool> {
        None
    }
}
/// polynomials over groups with different names do not mix
fn groups_case(c: &mut Case) -> Res {
    let names = ["Ed25519", "Ed25519x", "Ed2551", "ed25519", "", "P256"];
    let (x, y) = (Named(c.rng.choose(&names)), Named(c.rng.choose(&names)));
    let same = x.0 == y.0;
    let t = c.rng.range(0, 5);
    let mut cs = vec![];
    for _ in 0..t {
        cs.push(ks(&coeff(&mut c.rng))?);
    }
    let (a, b) = (coefficients_to_pri_poly(&x, &cs), coefficients_to_pri_poly(&y, &cs));
    let (pa, pb) = (a.commit(None), b.commit(None));
    ensure!(nopanic("add", || a.add(&b))?.is_ok() == same, "group-add", "adding over {:?} and {:?}", x.0, y.0);
    ensure!(nopanic("pub-add", || pa.add(&pb))?.is_ok() == same, "group-pub-add", "adding over {:?} and {:?}", x.0, y.0);
    let e = nopanic("equal", || a.equal(&b))?;
    ensure!(matches!(e, Ok(true)) == same, "group-equal", "equal over {:?} and {:?}: {:?}", x.0, y.0, e.is_ok());
    let e = nopanic("pub-equal", || pa.equal(&pb))?;
    ensure!(matches!(e, Ok(true)) == same, "group-pub-equal", "equal over {:?} and {:?}: {:?}", x.0, y.0, e.is_ok());
    c.state(format!("{:?}{:?}{}", x.0, y.0, t).as_bytes());
    c.ev(if same { "same_group" } else { "other_group" });
    Ok(())
}
pub fn run_c16(ctx: &Ctx) {
    ctx.rule("Reference polynomials over the integers mod the group order and dalek curve; a case is a distinct polynomial/index; shares altered in value, index and representation, polynomials altered in one coefficient, order, prefix, extension, representation.");
    ctx.assume("commitment bases are of prime order, coefficients below 2^255, indices at most 2^63-2; secret()/commit() of a polynomial without coefficients is a precondition violation");
    ctx.family("eval", ctx.n(600, 6000), eval_case);
    ctx.family("algebra", ctx.n(800, 6000), algebra_case);
    ctx.family("groups", ctx.n(200, 4000), groups_case);
    ctx.require("same_group", 20);
    ctx.require("other_group", 100);
    ctx.require("evaluations", 400);
    ctx.require("check_accept", 50);
    ctx.require("check_reject", 400);
    ctx.require("products", 100);
    ctx.require("sums", 40);
    ctx.require("mismatched_sums", 20);
    ctx.require("equal_no", 100);
}
