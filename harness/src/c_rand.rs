//! C07 extendable output, C08 random sources, C09 key pairs.
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::{with_log, MonStream, MonSuite};
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::{Group, HashFactory};
use kyber_rs::util::key::{new_key_pair, Generator, KeyError};
use kyber_rs::util::random as random_stream;
use kyber_rs::util::random::RandStream;
use kyber_rs::{Point as PointT, Random, Scalar as ScalarT, XOFFactory, XOF};
use num_bigint_dig::{BigInt, Sign};
use sha2::{Digest, Sha512};
use std::cell::RefCell;
use std::io::Read;
use std::rc::Rc;

// ---------------------------------------------------------------- C07

struct Model {
    absorbed: Vec<u8>,
    pos: usize,
    reading: bool,
}
impl Model {
    fn new(seed: &[u8]) -> Model {
        Model { absorbed: seed.to_vec(), pos: 0, reading: false }
    }
    fn copy(&self) -> Model {
        Model { absorbed: self.absorbed.clone(), pos: self.pos, reading: self.reading }
    }
    fn next(&mut self, n: usize) -> Vec<u8> {
        self.reading = true;
        let mut h = blake3::Hasher::new();
        h.update(&self.absorbed);
        let mut r = h.finalize_xof();
        r.set_position(self.pos as u64);
        let mut o = vec![0u8; n];
        r.fill(&mut o);
        self.pos += n;
        o
    }
    fn reseed(&mut self) {
        let k = self.next(128);
        *self = Model::new(&k);
    }
}

fn chunk(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.below(3),
        1 => *r.choose(&[63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 2048, 4096, 8192, 65536, 70001]),
        2 => r.below(3000),
        _ => r.below(200),
    }
}

fn xof_history(c: &mut Case) -> Res {
    let suite = SuiteEd25519::new_blake3_sha256_ed25519();
    let sn = chunk(&mut c.rng);
    let seed = c.rng.bytes(sn);
    let none = c.rng.below(5) == 0;
    let x = if none { suite.xof(None) } else { suite.xof(Some(&seed)) };
    let mut pool: Vec<(Box<dyn XOF>, Model)> = vec![(x, Model::new(if none { &[] } else { &seed }))];
    let steps = if c.thorough() { 60 } else { 30 };
    let mut h: Vec<u8> = vec![];
    for _ in 0..steps {
        let i = c.rng.below(pool.len());
        let n = chunk(&mut c.rng);
        let op = c.rng.below(10);
        h.extend_from_slice(&[i as u8, op as u8, n as u8, (n >> 8) as u8]);
        c.log(format!("x{} op{} n{}", i, op, n));
        let (x, m) = &mut pool[i];
        match op {
            0..=2 => {
                let data = c.rng.bytes(n);
                if m.reading {
                    let e = nopanic("write", || x.write(&data))?;
                    match e {
                        Ok(_) => return fail("write-after-read", "absorbing after output started was accepted"),
                        Err(e) => {
                            ensure!(e.kind() != std::io::ErrorKind::Interrupted, "write-retryable",
                                "write after read reports a retryable error, write_all never returns");
                        }
                    }
                    ensure!(x.write_all(&data).is_err() || n == 0, "write-after-read", "write_all after read accepted");
                    c.ev("write-refused");
                } else {
                    match op {
                        0 => ok(nopanic("write", || x.write_all(&data))?, "write")?,
                        _ => {
                            let mut at = 0;
                            while at < n {
                                let k = 1 + c.rng.below(n - at);
                                let w = ok(nopanic("write", || x.write(&data[at..at + k]))?, "write")?;
                                ensure!(w > 0 && w <= k, "write", "write of {} returned {}", k, w);
                                at += w;
                            }
                        }
                    }
                    if c.rng.below(4) == 0 {
                        ok(nopanic("flush", || x.flush())?, "flush")?;
                    }
                    m.absorbed.extend_from_slice(&data);
                    c.ev("absorb");
                }
            }
            3 | 4 => {
                let n = n.max(1);
                let mut b = vec![0xa5u8; n];
                if op == 3 {
                    ok(nopanic("read", || x.read_exact(&mut b))?, "read")?;
                } else {
                    let mut at = 0;
                    while at < n {
                        let k = 1 + c.rng.below(n - at);
                        let w = ok(nopanic("read", || x.read(&mut b[at..at + k]))?, "read")?;
                        ensure!(w > 0 && w <= k, "read", "read of {} returned {}", k, w);
                        at += w;
                    }
                }
                let want = m.next(n);
                ensure!(b == want, "output", "read of {} bytes differs from BLAKE3 XOF of {} absorbed bytes", n, m.absorbed.len());
                c.ev("read");
            }
            5 | 6 => {
                let n = n.max(1);
                let src = c.rng.bytes(n);
                let extra = c.rng.below(20);
                let mut dst = c.rng.bytes(n + extra);
                let tail = dst[n..].to_vec();
                ok(nopanic("xor", || x.xor_key_stream(&mut dst, &src))?, "xor")?;
                let want: Vec<u8> = m.next(n).iter().zip(src.iter()).map(|(a, b)| a ^ b).collect();
                ensure!(dst[..n] == want[..], "keystream", "key stream of {} bytes is not the output stream", n);
                ensure!(dst[n..] == tail[..], "keystream-tail", "bytes beyond the source were touched");
                c.ev("xor");
            }
            7 => {
                if op == 7 && c.rng.bool() {
                    // too short a destination: refused, nothing consumed
                    let n = n.max(1);
                    let src = c.rng.bytes(n);
                    let mut dst = vec![0u8; c.rng.below(n)];
                    let r = nopanic("xor-short", || x.xor_key_stream(&mut dst, &src))?;
                    ensure!(r.is_err(), "xor-short", "short destination accepted");
                    c.ev("xor-refused");
                } else {
                    let n = n.max(1);
                    let mut b = vec![0x5au8; n];
                    ok(nopanic("fill", || random_stream::bytes(&mut b, x))?, "fill")?;
                    let want = m.next(n);
                    ensure!(b == want, "fill", "random fill of {} bytes is not the output stream", n);
                    c.ev("fill");
                }
            }
            8 => {
                ok(nopanic("reseed", || Ok::<(), ()>(x.reseed()))?, "reseed")?;
                m.reseed();
                c.ev("reseed");
            }
            _ => {
                if pool.len() < 5 {
                    let (x, m) = &pool[i];
                    let y = if c.rng.bool() { XOF::clone(&**x) } else { XOF::clone(x) };
                    let m2 = m.copy();
                    pool.push((y, m2));
                    c.ev("clone");
                }
            }
        }
    }
    for (x, m) in pool.iter_mut() {
        let mut b = vec![0u8; 300];
        ok(nopanic("read", || x.read_exact(&mut b))?, "read")?;
        let want = m.next(300);
        ensure!(b == want, "output", "final read differs from BLAKE3 XOF of {} absorbed bytes at {}", m.absorbed.len(), m.pos);
        c.ev("final-read");
    }
    c.state(&h);
    Ok(())
}

pub fn run_c07(ctx: &Ctx) {
    ctx.rule("A history of operations on an XOF and its clones counts by its sequence of (object, operation, length).");
    ctx.assume("a read or key stream of zero bytes is not issued (whether it starts the output is unspecified); BLAKE3 itself is the trusted blake3 crate");
    ctx.family("history", ctx.n(20000, 400000), xof_history);
    for e in ["read", "xor", "fill", "reseed", "clone", "absorb", "write-refused", "xor-refused", "final-read"] {
        ctx.require(e, 200);
    }
}

// ---------------------------------------------------------------- C08

/// entropy source of scripted behaviour
struct Src {
    data: Vec<u8>,
    at: usize,
    /// bytes available before it fails
    limit: usize,
    chunk: usize,
    hard_error: bool,
    reads: Rc<RefCell<usize>>,
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        *self.reads.borrow_mut() += 1;
        if self.at >= self.limit {
            if self.hard_error {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "entropy source died"));
            }
            return Ok(0);
        }
        let n = b.len().min(self.chunk).min(self.limit - self.at);
        for i in 0..n {
            b[i] = self.data[(self.at + i) % self.data.len()];
        }
        self.at += n;
        Ok(n)
    }
}
#[derive(Clone)]
struct SrcSpec {
    data: Vec<u8>,
    limit: usize,
    chunk: usize,
    hard_error: bool,
}
fn build(specs: &[SrcSpec]) -> RandStream {
    let v: Vec<Box<dyn Read>> = specs
        .iter()
        .map(|s| {
            Box::new(Src {
                data: s.data.clone(),
                at: 0,
                limit: s.limit,
                chunk: s.chunk,
                hard_error: s.hard_error,
                reads: Rc::new(RefCell::new(0)),
            }) as Box<dyn Read>
        })
        .collect();
    RandStream::new(v)
}
fn draw(s: &mut RandStream, n: usize) -> Res<Result<Vec<u8>, StreamError>> {
    nopanic("xor_key_stream", || {
        let mut d = vec![0u8; n];
        let z = vec![0u8; n];
        s.xor_key_stream(&mut d, &z).map(|_| d)
    })
}

fn mixing(c: &mut Case) -> Res {
    let n = c.rng.range(1, 5);
    let calls = 3;
    let mut specs: Vec<SrcSpec> = (0..n)
        .map(|_| {
            let alive_calls = c.rng.below(calls + 1);
            let live = c.rng.bool();
            SrcSpec {
                data: c.rng.bytes(32 * calls),
                // full, or delivers only some calls (possibly dying in the middle of a request)
                limit: if live { 32 * calls } else { 32 * alive_calls + c.rng.below(32) },
                chunk: *c.rng.choose(&[1, 5, 31, 32, 64]),
                hard_error: c.rng.bool(),
            }
        })
        .collect();
    if c.rng.below(5) == 0 && n > 1 {
        // two identical sources must not cancel
        specs[1] = specs[0].clone();
    }
    let mut st = vec![];
    for s in &specs {
        st.extend_from_slice(&s.data[..8]);
        st.push(s.limit as u8);
        st.push(s.chunk as u8);
    }
    c.state(&st);
    let len = c.rng.range(16, 100);
    let mut a = build(&specs);
    let mut a2 = build(&specs);
    let mut outs = vec![];
    for k in 0..calls {
        let alive: Vec<usize> = (0..n).filter(|i| specs[*i].limit >= 32 * (k + 1)).collect();
        let r = draw(&mut a, len)?;
        let r2 = draw(&mut a2, len)?;
        if alive.is_empty() {
            ensure!(matches!(r, Err(StreamError::ReadersFailure)), "all-failed", "no source delivered, yet {:?}", r.map(hex::encode));
            c.ev("all-sources-failed");
        } else {
            let o = ok(r, "one-alive")?;
            let o2 = ok(r2, "one-alive")?;
            ensure!(o == o2, "sources-only", "same sources, different output");
            ensure!(o.iter().any(|b| *b != 0), "no-output", "no key stream applied");
            c.ev(if alive.len() == n { "all-alive" } else { "some-alive" });
            outs.push(o.clone());
            // every delivering source matters, in every byte
            for i in &alive {
                let mut alt = specs.clone();
                let byte = 32 * k + c.rng.below(32);
                alt[*i].data[byte] ^= 1 << c.rng.below(8);
                let mut b = build(&alt);
                let mut last = None;
                for kk in 0..=k {
                    let r = draw(&mut b, len)?;
                    if kk == k {
                        last = Some(ok(r, "one-alive")?);
                    }
                }
                ensure!(last.unwrap() != o, "source-ignored", "output does not depend on byte {} of source {} of {} (alive {:?})", byte, i, n, alive);
                c.ev("source-sensitivity");
            }
            // twins changed together must not cancel
            if n > 1 && specs[0].data == specs[1].data && alive.contains(&0) {
                let mut alt = specs.clone();
                let byte = 32 * k + c.rng.below(32);
                alt[0].data[byte] ^= 0x41;
                alt[1].data[byte] ^= 0x41;
                let mut b = build(&alt);
                let mut last = None;
                for kk in 0..=k {
                    let r = draw(&mut b, len)?;
                    if kk == k {
                        last = Some(ok(r, "one-alive")?);
                    }
                }
                ensure!(last.unwrap() != o, "sources-cancel", "identical sources cancel out");
            }
        }
    }
    for i in 0..outs.len() {
        for j in 0..i {
            ensure!(outs[i] != outs[j], "repeats", "successive draws repeat");
        }
    }
    Ok(())
}

fn lengths(c: &mut Case) -> Res {
    let mut s = if c.rng.bool() {
        // without sources the operating system's randomness is used
        if c.rng.bool() {
            RandStream::default()
        } else {
            RandStream::new(vec![])
        }
    } else {
        build(&[SrcSpec { data: c.rng.bytes(64), limit: usize::MAX, chunk: 32, hard_error: false }])
    };
    let a = c.rng.below(100);
    let b = c.rng.below(100);
    let mut d = vec![0u8; a];
    let src = c.rng.bytes(b);
    c.state(&[a as u8, b as u8]);
    let r = nopanic("xor_key_stream", || s.xor_key_stream(&mut d, &src))?;
    if a != b {
        ensure!(matches!(r, Err(StreamError::WrongBufferLengths)), "lengths", "dst {} src {} gave {:?}", a, b, r);
        ensure!(d.iter().all(|x| *x == 0), "lengths-touched", "refused call wrote output");
        c.ev("lengths-refused");
    } else {
        ok(r, "lengths")?;
        if a > 16 {
            ensure!(d != src, "no-output", "source passed through unchanged");
        }
        c.ev("lengths-equal");
    }
    Ok(())
}

/// scripted cipher stream for the helpers
struct Script {
    bytes: Vec<u8>,
    at: usize,
    ok_calls: usize,
    calls: usize,
}
impl Stream for Script {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        self.calls += 1;
        if self.calls > self.ok_calls {
            return Err(StreamError::ReadersFailure);
        }
        for i in 0..src.len() {
            dst[i] = src[i] ^ self.bytes[self.at % self.bytes.len()];
            self.at += 1;
        }
        Ok(())
    }
}

fn bit_strings(c: &mut Case) -> Res {
    let n = c.idx as u64;
    let bytes = ((n + 7) / 8) as usize;
    for exact in [false, true] {
        if exact && n == 0 {
            continue;
        }
        let mut or = vec![0u8; bytes];
        let mut and = vec![0xffu8; bytes];
        let reps = 96;
        let mut seen = std::collections::HashSet::new();
        let mut st = MonStream::open();
        for _ in 0..reps {
            let b = nopanic("bits", || random_stream::bits(n, exact, &mut st))?;
            ensure!(b.len() == bytes, "bits-length", "{} bits gave {} bytes", n, b.len());
            let v = BigInt::from_bytes_be(Sign::Plus, &b);
            let bl = if v.sign() == Sign::NoSign { 0 } else { v.to_str_radix(2).len() as u64 };
            ensure!(bl <= n, "bits-too-long", "asked for {} bits, got {}", n, bl);
            if exact {
                ensure!(bl == n, "bits-not-exact", "asked for exactly {} bits, got {}", n, bl);
            }
            for i in 0..bytes {
                or[i] |= b[i];
                and[i] &= b[i];
            }
            seen.insert(b);
            c.ev("bits");
        }
        // each free bit took both values (probability of a false alarm 2^-95 per bit)
        for bit in 0..n {
            let (i, m) = (bytes - 1 - (bit / 8) as usize, 1u8 << (bit % 8));
            let fixed = exact && bit == n - 1;
            if !fixed {
                ensure!(or[i] & m != 0 && and[i] & m == 0, "bits-stuck", "bit {} of {} is stuck", bit, n);
            }
        }
        if n > 40 {
            ensure!(seen.len() == reps, "bits-repeat", "{} random bits repeat", n);
        }
        // failed source: no predictable value
        let mut s = Script { bytes: vec![1], at: 0, ok_calls: 0, calls: 0 };
        if n > 0 {
            if let Guard::Val(v) = guard(|| random_stream::bits(n, exact, &mut s)) {
                return fail("bits-failed-source", format!("random source failed but {} bits came back: {}", n, hex::encode(v)));
            }
            c.ev("failed-source-noticed");
        }
    }
    c.state(&n.to_le_bytes());
    Ok(())
}

fn ints(c: &mut Case) -> Res {
    // uniformity for a small bound
    let m = c.idx + 2;
    let per = if c.thorough() { 4000 } else { 600 };
    let total = per * (m - 1);
    let mut cnt = vec![0u64; m];
    let bm = BigInt::from(m as u64);
    let mut st = MonStream::open();
    for _ in 0..total {
        let v = nopanic("random_int", || random_stream::random_int(&bm, &mut st))?;
        let u = v.to_str_radix(10).parse::<usize>().unwrap_or(usize::MAX);
        ensure!(u < m, "int-range", "{} not below {}", v, m);
        cnt[u] += 1;
        c.ev("small-int");
    }
    // near uniform over the admissible values: each within 8 sigma
    let mean = per as f64;
    for v in 1..m {
        let dev = (cnt[v] as f64 - mean).abs();
        ensure!(dev < 8.0 * mean.sqrt() + 1.0, "int-bias", "bound {}: value {} came {} times, expected {}", m, v, cnt[v], mean);
    }
    // zero is either never drawn (documented as non-zero) or not more frequent than the others
    ensure!((cnt[0] as f64) < mean + 8.0 * mean.sqrt() + 1.0, "int-bias", "bound {}: zero came {} times", m, cnt[0]);
    c.state(&(m as u64).to_le_bytes());
    Ok(())
}

fn big_ints(c: &mut Case) -> Res {
    let l = c.rng.range(1, 70);
    let mut b = c.rng.bytes(l);
    if c.rng.below(3) == 0 {
        b = vec![0; l];
        b[0] = 1 << c.rng.below(8);
    }
    let mut m = BigInt::from_bytes_be(Sign::Plus, &b);
    if m < BigInt::from(2) {
        m = BigInt::from(2);
    }
    c.state(&b);
    let mut st = MonStream::open();
    let mut top = false;
    let half = &m / BigInt::from(2);
    let mut low = false;
    for _ in 0..80 {
        let v = nopanic("random_int", || random_stream::random_int(&m, &mut st))?;
        ensure!(v < m && v.sign() != Sign::Minus, "int-range", "{} not below {}", v, m);
        top |= v >= half;
        low |= v <= half;
        c.ev("big-int");
    }
    ensure!(top && low, "int-range-half", "80 draws below {} all in one half", m);
    // source dies after some draws: never a value made up from nothing
    let k = c.rng.below(3);
    let mut s = Script { bytes: vec![0xff], at: 0, ok_calls: k, calls: 0 };
    // 0xff.. exceeds the bound unless the bound is all ones; then accept the value drawn
    match guard(|| random_stream::random_int(&m, &mut s)) {
        Guard::Val(v) => {
            ensure!(s.calls <= k, "int-failed-source", "source failed, yet random_int returned {}", v);
        }
        Guard::Panic { .. } => c.ev("failed-source-noticed"),
    }
    Ok(())
}

fn helpers_fail(c: &mut Case) -> Res {
    // nothing secret comes out of a dead source
    let mut s = Script { bytes: vec![0], at: 0, ok_calls: 0, calls: 0 };
    let mut b = vec![7u8; 32];
    let r = nopanic("bytes", || random_stream::bytes(&mut b, &mut s))?;
    ensure!(r.is_err(), "bytes-failed-source", "random_stream::bytes reported success on a dead source");
    let mut b2 = vec![0u8; 40];
    let before = b2.clone();
    let mut live = MonStream::open();
    ok(nopanic("bytes", || random_stream::bytes(&mut b2, &mut live))?, "bytes")?;
    ensure!(b2 != before, "bytes", "no random bytes written");
    if let Guard::Val(x) = guard(|| Scalar::new().pick(&mut s)) {
        return fail("pick-failed-source", format!("scalar {} picked from a dead source", x));
    }
    if let Guard::Val(x) = guard(|| Point::new().pick(&mut s)) {
        return fail("pick-failed-source", format!("point {} picked from a dead source", x));
    }
    if let Guard::Val(x) = guard(|| Point::new().embed(Some(b"hi"), &mut s)) {
        return fail("pick-failed-source", format!("embedding {} padded from a dead source", x));
    }
    c.ev("helpers-dead-source");
    // the default stream never repeats
    let su = SuiteEd25519::new_blake3_sha256_ed25519();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..4 {
        let mut st = su.random_stream();
        for _ in 0..4 {
            let mut d = [0u8; 32];
            ok(st.xor_key_stream(&mut d, &[0u8; 32]), "default-stream")?;
            ensure!(seen.insert(d), "default-stream-repeats", "default random stream repeats");
            c.ev("default-draw");
        }
    }
    c.state(&[c.idx as u8]);
    Ok(())
}

pub fn run_c08(ctx: &Ctx) {
    ctx.rule("Mixing cases count by source contents and failure pattern; bit strings and bounds by their size.");
    ctx.assume("random_int needs a bound of at least 2 (it never returns zero, as in the Go original); a dead source may surface as an error or as a panic of the helper, both are taken as reports");
    ctx.family("mixing", ctx.n(30000, 600000), mixing);
    ctx.family("lengths", ctx.n(3000, 30000), lengths);
    ctx.family("bits", ctx.n(300, 1100), bit_strings);
    ctx.family("ints", ctx.n(70, 300), ints);
    ctx.family("bigints", ctx.n(2000, 30000), big_ints);
    ctx.family("helpers", ctx.n(16, 64), helpers_fail);
    for e in ["all-sources-failed", "some-alive", "all-alive", "source-sensitivity", "lengths-refused", "bits", "small-int", "big-int", "failed-source-noticed"] {
        ctx.require(e, 100);
    }
}

// ---------------------------------------------------------------- C09

/// a suite without special key generation: plain random scalars
#[derive(Clone, Copy, Debug, Default)]
struct Plain;
impl core::fmt::Display for Plain {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "plain")
    }
}
impl Group for Plain {
    type POINT = Point;
    fn scalar_len(&self) -> usize {
        32
    }
    fn scalar(&self) -> Scalar {
        Scalar::new()
    }
    fn point_len(&self) -> usize {
        32
    }
    fn point(&self) -> Point {
        Point::new()
    }
    fn is_prime_order(&self) -> Option<bool> {
        None
    }
}
impl Random for Plain {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(MonStream::open())
    }
}
impl XOFFactory for Plain {
    fn xof(&self, s: Option<&[u8]>) -> Box<dyn XOF> {
        MonSuite {}.xof(s)
    }
}
impl HashFactory for Plain {
    type T = sha2::Sha256;
}
impl Generator<Scalar> for Plain {
    fn new_key<S: Stream>(&self, _: &mut S) -> Result<Option<Scalar>, KeyError> {
        Ok(None)
    }
}
impl kyber_rs::util::key::Suite for Plain {}

fn clamp(seed: &[u8]) -> ([u8; 32], Vec<u8>) {
    let d = Sha512::digest(seed);
    let mut k: [u8; 32] = d[..32].try_into().unwrap();
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    (k, d[32..].to_vec())
}

/// the integer a private key stands for, seen through its action on points only
fn acts_as(c: &mut Case, key: &Scalar, want: &[u8; 32], what: &str) -> Res {
    let (d, _) = nasty_point(&mut c.rng);
    let p = kp(&denc(&d))?;
    let got = pbytes(&Point::new().mul(key, Some(&p)))?;
    ensure!(got == denc(&imul(want, &d)), "key-value", "{}: key does not act as the clamped hash on {}", what, hex::encode(denc(&d)));
    let got = pbytes(&Point::new().mul(key, None))?;
    ensure!(got == denc(&imul(want, &dbase())), "key-value", "{}: wrong public point", what);
    Ok(())
}

fn pairs(c: &mut Case) -> Res {
    with_log(|l| l.recording = true);
    let s = MonSuite {};
    let kp_ = ok(nopanic("new_key_pair", || new_key_pair(&s))?, "new_key_pair")?;
    let draws = with_log(|l| std::mem::take(&mut l.draws));
    let drawn: Vec<u8> = draws.iter().flat_map(|d| d.1.clone()).collect();
    ensure!(drawn.len() >= 32, "key-entropy", "key made from {} random bytes", drawn.len());
    c.state(&drawn);
    let (want, _) = clamp(&drawn[..32]);
    acts_as(c, &kp_.private, &want, "new_key_pair")?;
    let pubb = pbytes(&kp_.public)?;
    ensure!(pubb == denc(&imul(&want, &dbase())), "pair-mismatch", "public {} is not private times base", hex::encode(pubb));
    let dk = ed25519_dalek::SigningKey::from_bytes(&drawn[..32].try_into().unwrap());
    ensure!(dk.verifying_key().to_bytes() == pubb, "rfc8032-key", "public key differs from RFC 8032 derivation");
    c.ev("pair");
    // next draw, different key
    let k2 = ok(nopanic("new_key_pair", || new_key_pair(&s))?, "new_key_pair")?;
    ensure!(k2.private != kp_.private && k2.public != kp_.public, "key-repeats", "two generated keys coincide");
    // group without generator: a uniformly picked scalar
    let k3 = ok(nopanic("new_key_pair", || new_key_pair(&Plain))?, "new_key_pair")?;
    let b = sbytes(&k3.private)?;
    ensure!(from_le(&b) < ell() && from_le(&b) != 0u8.into(), "plain-key", "picked key out of range");
    ensure!(pbytes(&k3.public)? == denc(&imul(&b, &dbase())), "pair-mismatch", "picked pair inconsistent");
    let k4 = ok(nopanic("new_key_pair", || new_key_pair(&Plain))?, "new_key_pair")?;
    ensure!(k4.private != k3.private, "key-repeats", "two picked keys coincide");
    c.ev("plain-pair");
    // a dead stream is reported
    with_log(|l| l.fail = true);
    let r = guard(|| new_key_pair(&s));
    let r2 = guard(|| new_key_pair(&Plain));
    with_log(|l| l.fail = false);
    match r {
        Guard::Val(Ok(_)) => return fail("dead-stream", "a key came out of a dead random stream"),
        Guard::Val(Err(_)) => c.ev("dead-stream-reported"),
        Guard::Panic { loc, msg } => return fail("dead-stream-panic", format!("{} {}", loc, msg)),
    }
    if let Guard::Val(Ok(_)) = r2 {
        return fail("dead-stream", "a key was picked from a dead random stream");
    }
    // the library suite's own randomness
    if c.idx < 50 {
        let su = SuiteEd25519::new_blake3_sha256_ed25519();
        let a = ok(new_key_pair(&su), "new_key_pair")?;
        let b = ok(new_key_pair(&su), "new_key_pair")?;
        ensure!(a.private != b.private && a.public != b.public, "key-repeats", "default suite repeats keys");
        c.ev("default-suite-pair");
    }
    Ok(())
}

fn seeds(c: &mut Case) -> Res {
    let n = match c.rng.below(4) {
        0 => c.rng.below(200),
        _ => 32,
    };
    let seed = match c.rng.below(6) {
        0 => vec![0u8; n],
        1 => vec![0xffu8; n],
        _ => c.rng.bytes(n),
    };
    c.state(&seed);
    let (want, pre) = clamp(&seed);
    let cv = Curve::new();
    let (k, inp, dig) = nopanic("seed-key", || cv.new_key_and_seed_with_input(&seed))?;
    ensure!(inp == &seed[..] && dig == pre, "seed-parts", "seed or hash half wrong for seed {}", hex::encode(&seed));
    acts_as(c, &k, &want, "new_key_and_seed_with_input")?;
    if n == 32 {
        let a: [u8; 32] = seed.clone().try_into().unwrap();
        let dk = ed25519_dalek::SigningKey::from_bytes(&a);
        let p = pbytes(&Point::new().mul(&k, None))?;
        ensure!(dk.verifying_key().to_bytes() == p, "rfc8032-key", "seed {} gives public {}", hex::encode(&seed), hex::encode(p));
    }
    c.ev("seed");
    // from a stream: the seed handed back is the one drawn
    let mut s = Script { bytes: seed.iter().cloned().chain([9]).collect(), at: 0, ok_calls: 9, calls: 0 };
    let want_seed: Vec<u8> = (0..32).map(|i| s.bytes[i % s.bytes.len()]).collect();
    let (k, sd, dig) = ok(nopanic("stream-key", || cv.new_key_and_seed(&mut s))?, "stream-key")?;
    ensure!(sd == want_seed, "stream-seed", "seed {} is not the drawn {}", hex::encode(&sd), hex::encode(&want_seed));
    let (w2, p2) = clamp(&sd);
    ensure!(dig == p2, "stream-seed", "hash half wrong");
    acts_as(c, &k, &w2, "new_key_and_seed")?;
    let mut s = Script { bytes: want_seed.clone(), at: 0, ok_calls: 9, calls: 0 };
    let k = some(ok(nopanic("new_key", || cv.new_key(&mut s))?, "new_key")?, "new_key")?;
    acts_as(c, &k, &w2, "new_key")?;
    c.ev("stream-key");
    for calls in 0..1 {
        let mut s = Script { bytes: want_seed.clone(), at: 0, ok_calls: calls, calls: 0 };
        ensure!(nopanic("new_key-dead", || cv.new_key_and_seed(&mut s))?.is_err(), "dead-stream", "key from dead stream");
        ensure!(nopanic("new_key-dead", || cv.new_key(&mut s))?.is_err(), "dead-stream", "key from dead stream");
        c.ev("dead-stream-reported");
    }
    Ok(())
}

pub fn run_c09(ctx: &Ctx) {
    ctx.rule("Key cases count by their 32-byte seed / drawn bytes.");
    ctx.assume("SHA-512 (sha2) and ed25519-dalek are the independent derivation");
    ctx.family("pairs", ctx.n(5000, 100000), pairs);
    ctx.family("seeds", ctx.n(5000, 100000), seeds);
    for e in ["pair", "plain-pair", "seed", "stream-key", "dead-stream-reported"] {
        ctx.require(e, 500);
    }
}
