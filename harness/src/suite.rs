//! A monitored cipher suite: the library's own Ed25519 suite with its random
//! stream replaced by a deterministic, logged, fault-injectable one.
use core::fmt::{Display, Formatter};
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::group::edwards25519::{Point, Scalar, SuiteEd25519};
use kyber_rs::group::{Group, HashFactory};
use kyber_rs::util::key::{Generator, KeyError};
use kyber_rs::{Random, XOFFactory, XOF};
use serde::{Deserialize, Serialize};
use sha2::Sha256;
use std::cell::RefCell;

#[derive(Default)]
pub struct RandLog {
    /// streams opened
    pub streams: u64,
    /// (stream number, bytes drawn) in order
    pub draws: Vec<(u64, Vec<u8>)>,
    pub recording: bool,
    /// bytes handed out
    pub bytes: u64,
    /// fail every draw from now on
    pub fail: bool,
    /// fail once this many draws were served
    pub fail_after: Option<u64>,
    pub served: u64,
    /// invert the lowest bit of the byte at this position of the whole stream
    pub flip: Option<u64>,
    pub failed_draws: u64,
}

thread_local! {
    static JITTER: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// make the scheduler switch at random draws of this thread
pub fn set_jitter(x: u64) {
    JITTER.with(|j| j.set(x));
}
fn jitter() {
    JITTER.with(|j| {
        let mut x = j.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            j.set(x);
            match x % 8 {
                0 | 1 => std::thread::yield_now(),
                2 => std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 63)),
                _ => (),
            }
        }
    })
}

thread_local! {
    static RNG: RefCell<blake3::OutputReader> = RefCell::new(blake3::Hasher::new().finalize_xof());
    static LOG: RefCell<RandLog> = RefCell::new(RandLog::default());
}

pub fn seed_thread(label: &str) {
    let mut h = blake3::Hasher::new();
    h.update(b"suite-random/");
    h.update(label.as_bytes());
    RNG.with(|r| *r.borrow_mut() = h.finalize_xof());
    LOG.with(|l| *l.borrow_mut() = RandLog::default());
}
pub fn with_log<T>(f: impl FnOnce(&mut RandLog) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}

pub struct MonStream {
    id: u64,
}
impl MonStream {
    pub fn open() -> MonStream {
        let id = with_log(|l| {
            l.streams += 1;
            l.streams
        });
        MonStream { id }
    }
}
impl Stream for MonStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if dst.len() < src.len() {
            return Err(StreamError::WrongBufferLengths);
        }
        jitter();
        if with_log(|l| {
            if l.fail_after == Some(l.served) {
                l.fail = true;
            }
            l.served += 1;
            if l.fail {
                l.failed_draws += 1;
            }
            l.fail
        }) {
            return Err(StreamError::ReadersFailure);
        }
        let mut k = vec![0u8; src.len()];
        RNG.with(|r| r.borrow_mut().fill(&mut k));
        with_log(|l| {
            if let Some(f) = l.flip {
                if f >= l.bytes && f < l.bytes + k.len() as u64 {
                    k[(f - l.bytes) as usize] ^= 1;
                }
            }
        });
        for i in 0..src.len() {
            dst[i] = src[i] ^ k[i];
        }
        let id = self.id;
        with_log(|l| {
            l.bytes += k.len() as u64;
            if l.recording {
                l.draws.push((id, k));
            }
        });
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct MonSuite {}

fn inner() -> SuiteEd25519 {
    SuiteEd25519::new_blake3_sha256_ed25519()
}

impl Display for MonSuite {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", inner())
    }
}
impl Group for MonSuite {
    type POINT = Point;
    fn scalar_len(&self) -> usize {
        inner().scalar_len()
    }
    fn scalar(&self) -> Scalar {
        inner().scalar()
    }
    fn point_len(&self) -> usize {
        inner().point_len()
    }
    fn point(&self) -> Point {
        inner().point()
    }
    fn is_prime_order(&self) -> Option<bool> {
        inner().is_prime_order()
    }
}
impl Generator<Scalar> for MonSuite {
    fn new_key<S: Stream>(&self, stream: &mut S) -> Result<Option<Scalar>, KeyError> {
        inner().new_key(stream)
    }
}
impl Random for MonSuite {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(MonStream::open())
    }
}
impl XOFFactory for MonSuite {
    fn xof(&self, seed: Option<&[u8]>) -> Box<dyn XOF> {
        inner().xof(seed)
    }
}
impl HashFactory for MonSuite {
    type T = Sha256;
}
impl kyber_rs::share::vss::suite::Suite for MonSuite {}
impl kyber_rs::sign::dss::Suite for MonSuite {}
impl kyber_rs::util::key::Suite for MonSuite {}
