//! C29 digests, sizes, streamed encodings and text forms.
use crate::c_group::repr;
use crate::c_int::{mk, modulus, order, value};
use crate::core::*;
use crate::ensure;
use crate::oracle::*;
use crate::suite::MonSuite;
use crate::vss::{deal_from, DealView, Ped, Rab, Vss};
use kyber_rs::encoding::{BinaryMarshaler, Marshaling};
use kyber_rs::group::edwards25519::{Curve, Point, Scalar, SuiteEd25519};
use kyber_rs::group::integer_field::integer::Int;
use kyber_rs::share::dkg::rabin::{ComplaintCommits, ReconstructCommits, SecretCommits};
use kyber_rs::share::poly::{PriShare, PubShare};
use kyber_rs::sign::dss::PartialSig;
use kyber_rs::Group;
use num_bigint_dig::BigInt;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Write};

// -------------------------------------------------------------- text forms

/// the hexadecimal digits of a text: the longest run of them
fn hex_in(s: &str) -> String {
    let mut best = "";
    for run in s.split(|c: char| !c.is_ascii_hexdigit()) {
        if run.len() > best.len() {
            best = run;
        }
    }
    best.to_string()
}
fn texts<T: core::fmt::LowerHex + core::fmt::UpperHex + core::fmt::Display>(c: &mut Case, what: &str, x: &T, want: &[u8]) -> Res {
    let h = hex::encode(want);
    for (form, got, w) in [
        ("{:x}", format!("{:x}", x), h.clone()),
        ("{:X}", format!("{:X}", x), h.to_uppercase()),
        ("{:#x}", format!("{:#x}", x), format!("0x{}", h)),
    ] {
        ensure!(got == w, "hex", "{} prints {} as {} want {}", what, form, got, w);
    }
    let u = format!("{:#X}", x);
    ensure!(u.len() == h.len() + 2 && u[2..] == h.to_uppercase() && u[..2].eq_ignore_ascii_case("0x"), "hex", "{} prints {{:#X}} as {} want {}", what, u, h);
    let d = format!("{}", x);
    ensure!(d.to_lowercase().contains(&h), "display", "{} displays as {} and holds {}", what, d, h);
    c.ev("text-forms");
    Ok(())
}
fn text(c: &mut Case) -> Res {
    let (d, _) = nasty_point(&mut c.rng);
    let p = repr(c, &d)?;
    texts(c, "point", &p, &denc(&d))?;
    let raw = nasty32(&mut c.rng);
    let s = Scalar { v: raw };
    texts(c, "scalar", &s, &raw)?;
    let canon = ks(&red(&raw))?;
    texts(c, "scalar", &canon, &red(&raw))?;
    let m = modulus(&mut c.rng);
    let a = value(&mut c.rng, &m);
    let i = mk(&a, &m, order(&mut c.rng));
    let be = a.to_bytes_be().1;
    texts(c, "integer", &i, &be)?;
    let shown = BigInt::parse_bytes(hex_in(&format!("{}", i)).as_bytes(), 16);
    // "0x" leaves a stray zero run only for single digits
    ensure!(shown.as_ref() == Some(&a), "display", "{} displays as {}", a, i);
    c.state(&[&denc(&d)[..], &raw[..], &be[..]].concat());
    Ok(())
}

// ------------------------------------------------------- streams with faults

/// delivers the data in pieces of at most `step` bytes, interrupted now and then
struct Slow<'a> {
    data: &'a [u8],
    at: usize,
    step: usize,
    tick: usize,
    every: usize,
    /// fail for good once this many bytes were delivered
    dies: Option<usize>,
}
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.every > 0 && self.tick % self.every == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        let mut end = self.data.len();
        if let Some(d) = self.dies {
            if self.at >= d {
                return Err(Error::new(ErrorKind::Other, "dead"));
            }
            end = end.min(d);
        }
        let n = b.len().min(self.step).min(end - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
struct SlowSink {
    got: Vec<u8>,
    step: usize,
    tick: usize,
    every: usize,
    dies: Option<usize>,
}
impl Write for SlowSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.every > 0 && self.tick % self.every == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "again"));
        }
        let mut n = b.len().min(self.step);
        if let Some(d) = self.dies {
            if self.got.len() >= d {
                return Err(Error::new(ErrorKind::Other, "dead"));
            }
            n = n.min(d - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// one of the objects with a fixed-length encoding
enum Obj {
    P(Point),
    S(Scalar),
    I(Int, BigInt),
}
macro_rules! each {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Obj::P($x) => $e,
            Obj::S($x) => $e,
            Obj::I($x, _) => $e,
        }
    };
}
fn obj(c: &mut Case) -> Res<(Obj, Vec<u8>)> {
    Ok(match c.rng.below(3) {
        0 => {
            let (d, _) = nasty_point(&mut c.rng);
            (Obj::P(repr(c, &d)?), denc(&d).to_vec())
        }
        1 => {
            let raw = nasty32(&mut c.rng);
            (Obj::S(Scalar { v: raw }), red(&raw).to_vec())
        }
        _ => {
            let m = modulus(&mut c.rng);
            let a = value(&mut c.rng, &m);
            let i = mk(&a, &m, order(&mut c.rng));
            let b = ok(i.marshal_binary(), "encode")?;
            (Obj::I(i, m), b)
        }
    })
}
/// a receiver of the same kind which holds something else
fn blank(c: &mut Case, o: &Obj) -> Res<Obj> {
    Ok(match o {
        Obj::P(_) => {
            let (d, _) = nasty_point(&mut c.rng);
            Obj::P(repr(c, &d)?)
        }
        Obj::S(_) => Obj::S(Scalar { v: nasty32(&mut c.rng) }),
        Obj::I(i, m) => Obj::I(mk(&value(&mut c.rng, m), m, i.bo), m.clone()),
    })
}
fn stream(c: &mut Case) -> Res {
    let n = c.rng.range(1, 6);
    let mut objs = vec![];
    for _ in 0..n {
        objs.push(obj(c)?);
    }
    let all: Vec<u8> = objs.iter().flat_map(|o| o.1.clone()).collect();
    c.state(&all);
    let step = *c.rng.choose(&[1usize, 2, 3, 7, 31, 32, 33, 1000]);
    let every = *c.rng.choose(&[0usize, 2, 3, 5]);
    // one writer takes them all
    let mut w = SlowSink { got: vec![], step, tick: 0, every, dies: None };
    for (o, b) in &objs {
        let at = w.got.len();
        each!(o, x => {
            ensure!(nopanic("marshal_size", || x.marshal_size())? == b.len(), "size", "size {} but encoding has {} bytes", x.marshal_size(), b.len());
            ok(nopanic("marshal_to", || x.marshal_to(&mut w))?, "marshal_to")?;
        });
        ensure!(w.got[at..] == b[..], "written", "wrote {} want {}", hex::encode(&w.got[at..]), hex::encode(b));
        c.ev("written");
    }
    // and one reader gives them back, leaving what follows alone
    let mut data = all.clone();
    let xl = c.rng.below(40);
    let extra = c.rng.bytes(xl);
    data.extend(&extra);
    let mut r = Slow { data: &data, at: 0, step, tick: 0, every, dies: None };
    let mut end = 0;
    for (o, b) in &objs {
        let mut y = blank(c, o)?;
        end += b.len();
        each!(&mut y, x => {
            ok(nopanic("unmarshal_from", || x.unmarshal_from(&mut r))?, "unmarshal_from")?;
            ensure!(ok(x.marshal_binary(), "encode")? == *b, "read-back", "read {} want {}", hex::encode(x.marshal_binary().unwrap()), hex::encode(b));
        });
        ensure!(r.at == end, "over-read", "{} bytes taken from the stream, the encoding ends at {}", r.at, end);
        c.ev("read");
    }
    // a stream that ends or dies inside an object is an error, and the object keeps its value
    let (o, b) = c.rng.choose(&objs);
    let cut = { let k = b.len(); c.idx % k.max(1) };
    if !b.is_empty() {
        let dead = c.idx % 2 == 0;
        let mut r = Slow { data: &b[..if dead { b.len() } else { cut }], at: 0, step, tick: 0, every, dies: if dead { Some(cut) } else { None } };
        each!(o, x => {
            let mut x = x.clone();
            let before = ok(x.marshal_binary(), "encode")?;
            ensure!(nopanic("short-stream", || x.unmarshal_from(&mut r))?.is_err(), "short-stream", "decoded from {} of {} bytes", cut, b.len());
            ensure!(ok(x.marshal_binary(), "encode")? == before, "short-stream-value", "a failed read changed the object");
            let mut w = SlowSink { got: vec![], step, tick: 0, every, dies: Some(cut) };
            ensure!(nopanic("dead-writer", || x.marshal_to(&mut w))?.is_err(), "dead-writer", "the writer took {} of {} bytes and nobody noticed", cut, b.len());
        });
        c.ev("stream-fault-reported");
    }
    Ok(())
}

// ------------------------------------------------------------------- sizes

fn meta(c: &mut Case) -> Res {
    let (p, s) = (repr(c, &nasty_point(&mut c.rng.clone()).0)?, Scalar { v: nasty32(&mut c.rng) });
    let m = modulus(&mut c.rng);
    let i = mk(&value(&mut c.rng, &m), &m, order(&mut c.rng));
    let (g, cv, su) = (MonSuite {}, Curve::new(), SuiteEd25519::new_blake3_sha256_ed25519());
    for (n, pl, sl, pn) in [
        ("curve", cv.point_len(), cv.scalar_len(), cv.to_string()),
        ("suite", su.point_len(), su.scalar_len(), su.to_string()),
        ("monitored suite", g.point_len(), g.scalar_len(), g.to_string()),
    ] {
        ensure!(pl == p.marshal_size() && pl == ok(p.marshal_binary(), "encode")?.len(), "point-len", "{}: points of {} bytes", n, pl);
        ensure!(sl == s.marshal_size() && sl == ok(s.marshal_binary(), "encode")?.len(), "scalar-len", "{}: scalars of {} bytes", n, sl);
        ensure!(pn == cv.to_string(), "name", "{} calls itself {}", n, pn);
    }
    ensure!(p.marshal_id() == Point::default().marshal_id() && s.marshal_id() == Scalar::default().marshal_id() && i.marshal_id() == Int::default().marshal_id(), "id-varies", "type tag depends on the value");
    ensure!(p.marshal_id() != s.marshal_id() && p.marshal_id() != i.marshal_id() && s.marshal_id() != i.marshal_id(), "id-shared", "two kinds of object share a type tag");
    c.state(&s.v);
    c.ev("sizes-compared");
    Ok(())
}

// ----------------------------------------------------------------- digests

type Seen = BTreeMap<Vec<u8>, String>;
fn put(c: &mut Case, seen: &mut Seen, what: String, again: Vec<u8>, d: Vec<u8>) -> Res {
    ensure!(again == d, "digest-unstable", "two digests of the same {}", what);
    c.ev("digest");
    if let Some(w) = seen.insert(d, what.clone()) {
        return fail("digest-shared", format!("{} and {} have the same digest", w, what));
    }
    Ok(())
}
fn indices(r: &mut Rng) -> Vec<u32> {
    let a = match r.below(4) {
        0 => 0,
        1 => r.below(20) as u32,
        2 => u32::MAX - r.below(3) as u32,
        _ => r.u64() as u32,
    };
    let mut v = vec![a];
    for k in [1 << r.below(8), 1 << r.range(8, 15), 1 << r.range(16, 31), a.swap_bytes() ^ a] {
        if !v.contains(&(a ^ k)) {
            v.push(a ^ k);
        }
    }
    v
}
fn scalars(r: &mut Rng) -> Res<Vec<Scalar>> {
    let a = nasty_canon(r);
    let mut v: Vec<[u8; 32]> = vec![a];
    let mut rev = a;
    rev.reverse();
    for _ in 0..3 {
        let mut b = a;
        b[r.below(31)] ^= 1 << r.below(8);
        let b = red(&b);
        if !v.contains(&b) {
            v.push(b);
        }
    }
    let rev = red(&rev);
    if !v.contains(&rev) {
        v.push(rev);
    }
    v.iter().map(ks).collect()
}
fn point_variants(r: &mut Rng) -> Res<Vec<Point>> {
    let (d, _) = nasty_point(r);
    let mut v = vec![denc(&d), denc(&-d), denc(&(d + dbase())), denc(&(d + torsion(1))), denc(&(d + d))];
    v.sort();
    v.dedup();
    r.shuffle(&mut v);
    v.iter().map(kp).collect()
}
fn sids(r: &mut Rng) -> Vec<Vec<u8>> {
    let a = r.bytes(32);
    let mut v = vec![a.clone()];
    for at in [0, 31, r.range(1, 30)] {
        let mut b = a.clone();
        b[at] ^= 1 << r.below(8);
        v.push(b);
    }
    v
}
fn digests(c: &mut Case) -> Res {
    let su = MonSuite {};
    let (mut seen, mut seen_r, mut seen_p) = (Seen::new(), Seen::new(), Seen::new());
    // shares
    let (is, vs, ps, ss) = (indices(&mut c.rng), scalars(&mut c.rng)?, point_variants(&mut c.rng)?, sids(&mut c.rng));
    for (a, i) in is.iter().enumerate() {
        for (b, v) in vs.iter().enumerate() {
            let s = PriShare { i: *i as usize, v: *v };
            let d = ok(nopanic("hash", || s.hash(su))?, "hash")?;
            put(c, &mut seen, format!("private share {}/{}", a, b), ok(s.hash(su), "hash")?, d)?;
        }
        for (b, v) in ps.iter().enumerate() {
            let s = PubShare { i: *i as usize, v: *v };
            let d = ok(nopanic("hash", || s.hash(su))?, "hash")?;
            // a point and a scalar may have the same bytes
            put(c, &mut seen_p, format!("public share {}/{}", a, b), ok(PubShare { i: s.i, v: kp(&pbytes(v)?)? }.hash(su), "hash")?, d)?;
        }
    }
    // equal values in another representation have equal digests
    let s = PriShare { i: is[0] as usize, v: ks(&le32(&(from_le(&sbytes(&vs[0])?) + ell())))? };
    ensure!(ok(s.hash(su), "hash")? == ok(PriShare { i: s.i, v: vs[0] }.hash(su), "hash")?, "digest-representation", "the same share in another representation has another digest");
    // answers
    for (k, sid) in ss.iter().enumerate() {
        for (a, i) in is.iter().enumerate() {
            for yes in [true, false] {
                let r = |sig: &[u8]| -> <Ped as Vss>::R { crate::vss::unjs(serde_json::json!({"session_id": sid, "index": i, "status": yes, "signature": sig})) };
                let d = nopanic("hash", || Ped::r_hash(&r(&[])))?;
                put(c, &mut seen, format!("answer {}/{}/{}", k, a, yes), Ped::r_hash(&r(&[1, 2, 3])), d)?;
                let r = |sig: &[u8]| -> <Rab as Vss>::R { crate::vss::unjs(serde_json::json!({"session_id": sid, "index": i, "approved": yes, "signature": sig})) };
                let d = nopanic("hash", || Rab::r_hash(&r(&[])))?;
                // the two schemes share a format
                put(c, &mut seen_r, format!("answer {}/{}/{}", k, a, yes), Rab::r_hash(&r(&[1, 2, 3])), d)?;
            }
        }
    }
    // second phase messages
    let n = c.rng.range(1, 4);
    let com: Vec<Point> = (0..n).map(|_| kp(&denc(&prime_point(&mut c.rng)))).collect::<Res<_>>()?;
    let mut coms: Vec<Vec<Point>> = vec![com.clone()];
    for k in 0..n {
        let mut x = com.clone();
        x[k] = ps[0];
        coms.push(x);
    }
    coms.push(com.iter().chain(&ps[..1]).cloned().collect());
    coms.push(com[1..].to_vec());
    if n > 1 {
        let mut x = com.clone();
        x.swap(0, n - 1);
        coms.push(x);
    }
    let mut distinct: Vec<Vec<Point>> = vec![];
    for x in coms {
        if !distinct.contains(&x) {
            distinct.push(x);
        }
    }
    let coms = distinct;
    let sig = c.rng.bytes(64);
    for (k, sid) in ss.iter().enumerate() {
        for (a, i) in is.iter().enumerate() {
            for (b, cm) in coms.iter().enumerate() {
                if (k > 0) as u8 + (a > 0) as u8 + (b > 0) as u8 > 1 {
                    continue;
                }
                let mut m = SecretCommits::<MonSuite> { index: *i, commitments: cm.clone(), session_id: sid.clone(), signature: vec![] };
                let d = ok(nopanic("hash", || m.hash(&su))?, "hash")?;
                m.signature = sig.clone();
                put(c, &mut seen, format!("secret commitments {}/{}/{}", k, a, b), ok(m.hash(&su), "hash")?, d)?;
            }
            for (b, dl) in is.iter().enumerate() {
                for (e, v) in vs.iter().enumerate() {
                    for (f, si) in is.iter().enumerate() {
                        if (k > 0) as u8 + (a > 0) as u8 + (b > 0) as u8 + (e > 0) as u8 + (f > 0) as u8 > 1 {
                            continue;
                        }
                        let mut m = ReconstructCommits::<MonSuite> { session_id: sid.clone(), index: *i, dealer_index: *dl, share: PriShare { i: *si as usize, v: *v }, signature: vec![] };
                        let d = ok(nopanic("hash", || m.hash(&su))?, "hash")?;
                        m.signature = sig.clone();
                        put(c, &mut seen, format!("reconstruction {}/{}/{}/{}/{}", k, a, b, e, f), ok(m.hash(&su), "hash")?, d)?;
                    }
                }
            }
        }
    }
    // swapped roles are other messages
    if is.len() > 1 {
        let m = |x: u32, y: u32| ReconstructCommits::<MonSuite> { session_id: ss[0].clone(), index: x, dealer_index: y, share: PriShare { i: 1, v: vs[0] }, signature: vec![] };
        ensure!(ok(m(is[0], is[1]).hash(&su), "hash")? != ok(m(is[1], is[0]).hash(&su), "hash")?, "digest-shared", "member and dealer exchanged: same digest");
    }
    let base = DealView { sid: ss[0].clone(), i: is[0] as usize, f: sbytes(&vs[0])?, gi: is[0] as usize, g: sbytes(&vs[1 % vs.len()])?, t: n, commits: com.clone() };
    let mut deals = vec![base.clone()];
    for sid in &ss[1..] {
        deals.push(DealView { sid: sid.clone(), ..base.clone() });
    }
    for i in &is[1..] {
        deals.push(DealView { i: *i as usize, ..base.clone() });
        deals.push(DealView { gi: *i as usize, ..base.clone() });
    }
    for v in vs.iter() {
        let b = sbytes(v)?;
        if b != base.f {
            deals.push(DealView { f: b, ..base.clone() });
        }
        if b != base.g {
            deals.push(DealView { g: b, ..base.clone() });
        }
    }
    deals.push(DealView { t: n + 1, ..base.clone() });
    for cm in &coms[1..] {
        deals.push(DealView { commits: cm.clone(), ..base.clone() });
    }
    for (k, w) in deals.iter().enumerate() {
        let deal = deal_from::<Rab>(w)?;
        for (a, i) in is.iter().enumerate() {
            for (b, j) in is.iter().enumerate() {
                if (k > 0) as u8 + (a > 0) as u8 + (b > 0) as u8 > 1 {
                    continue;
                }
                let mut m = ComplaintCommits::<MonSuite> { index: *i, dealer_index: *j, deal: deal.clone(), signature: vec![] };
                let d = ok(nopanic("hash", || m.hash(&su))?, "hash")?;
                m.signature = sig.clone();
                put(c, &mut seen, format!("complaint {}/{}/{}", k, a, b), ok(m.hash(&su), "hash")?, d)?;
            }
        }
    }
    // partial signatures
    for (k, sid) in ss.iter().enumerate() {
        for (a, i) in is.iter().enumerate() {
            for (b, v) in vs.iter().enumerate() {
                let mut m = PartialSig::<MonSuite> { partial: PriShare { i: *i as usize, v: *v }, session_id: sid.clone(), signature: vec![] };
                let d = ok(nopanic("hash", || m.hash(su))?, "hash")?;
                m.signature = sig.clone();
                put(c, &mut seen, format!("partial {}/{}/{}", k, a, b), ok(m.hash(su), "hash")?, d)?;
            }
        }
    }
    c.evn("messages-told-apart", seen.len() as u64);
    c.state(&ss[0]);
    Ok(())
}

// ---------------------------------------------------- generic binary coding

fn blobs(c: &mut Case) -> Res {
    use kyber_rs::encoding::{marshal_binary, unmarshal_binary};
    macro_rules! trip {
        ($what:expr, $x:expr, $y:expr) => {{
            let (x, mut y) = ($x, $y);
            let b = ok(nopanic("encode", || marshal_binary(&x))?, "encode")?;
            let old = ok(marshal_binary(&y), "encode")?;
            for _ in 0..4 {
                let cut = c.rng.below(b.len());
                ensure!(nopanic("decode-cut", || unmarshal_binary(&mut y, &b[..cut]))?.is_err(), "cut-accepted", "{}: {} of {} bytes accepted", $what, cut, b.len());
                ensure!(ok(marshal_binary(&y), "encode")? == old, "cut-changed", "{}: a refused input changed the object", $what);
            }
            ok(nopanic("decode", || unmarshal_binary(&mut y, &b))?, "decode")?;
            ensure!(ok(marshal_binary(&y), "encode")? == b, "blob", "{}: read back differently", $what);
            c.ev("blob");
        }};
    }
    let r = &mut c.rng;
    let (vs, ps, is) = (scalars(r)?, point_variants(r)?, indices(r));
    let (v0, v1) = (vs[0], vs[vs.len() - 1]);
    trip!("scalar", v0, v1);
    trip!("point", ps[0], ps[ps.len() - 1]);
    trip!("private share", PriShare { i: is[0] as usize, v: v0 }, PriShare { i: 0, v: v1 });
    trip!("public share", PubShare { i: is[0] as usize, v: ps[0] }, PubShare { i: 0, v: ps[ps.len() - 1] });
    let p = kyber_rs::share::poly::coefficients_to_pri_poly(&MonSuite {}, &vs);
    let q = kyber_rs::share::poly::coefficients_to_pri_poly(&MonSuite {}, &vs[..1]);
    trip!("private polynomial", p.clone(), q.clone());
    trip!("public polynomial", p.commit(None), q.commit(Some(&ps[0])));
    let m = modulus(&mut c.rng);
    let (a, b) = (value(&mut c.rng, &m), value(&mut c.rng, &m));
    trip!("integer", mk(&a, &m, order(&mut c.rng)), mk(&b, &m, order(&mut c.rng)));
    c.state(&sbytes(&v0)?);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Text forms against the independent encoding of the held value; streamed encodings through readers and writers that fragment, interrupt, end early or fail; digests of a message and of every single-field variation of it, kept in one table across all kinds of message; distinct by the bytes of the object.");
    ctx.assume("session identifiers have the 32 bytes of the suite hash, share indices are below 2^32 (they are hashed as 32-bit numbers)");
    ctx.family("text", ctx.n(6000, 400_000), text);
    ctx.family("stream", ctx.n(6000, 400_000), stream);
    ctx.family("meta", ctx.n(500, 20_000), meta);
    ctx.family("digests", ctx.n(400, 20_000), digests);
    ctx.family("blobs", ctx.n(800, 40_000), blobs);
    ctx.require("text-forms", 1000);
    ctx.require("read", 1000);
    ctx.require("stream-fault-reported", 500);
    ctx.require("messages-told-apart", 10_000);
    ctx.require("blob", 500);
}
