//! Independent references: curve25519-dalek for the curve, num-bigint for integers.
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT, EIGHT_TORSION};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::traits::Identity;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
use kyber_rs::group::edwards25519::{Point, Scalar};
use num_bigint_dig::{BigInt, BigUint, Sign};

use crate::core::{fail, Res, Rng};

pub fn ell() -> BigUint {
    (BigUint::from(1u8) << 252)
        + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap()
}
pub fn p25519() -> BigUint {
    (BigUint::from(1u8) << 255) - BigUint::from(19u8)
}
pub fn le32(v: &BigUint) -> [u8; 32] {
    let mut b = v.to_bytes_le();
    b.resize(32, 0);
    let mut o = [0u8; 32];
    o.copy_from_slice(&b[..32]);
    o
}
pub fn from_le(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
pub fn modl(v: &BigUint) -> BigUint {
    v % ell()
}
pub fn red(b: &[u8]) -> [u8; 32] {
    le32(&modl(&from_le(b)))
}
pub fn emod(v: &BigInt, m: &BigInt) -> BigInt {
    let r = v % m;
    if r.sign() == Sign::Minus {
        r + m
    } else {
        r
    }
}

/// library scalar holding exactly these 32 bytes
pub fn ks(b: &[u8; 32]) -> Res<Scalar> {
    let mut s = Scalar::new();
    if let Err(e) = s.unmarshal_binary(b) {
        return fail("scalar-decode-error", format!("scalar decode of 32 bytes failed: {:?}", e));
    }
    Ok(s)
}
pub fn sbytes(s: &Scalar) -> Res<[u8; 32]> {
    match s.marshal_binary() {
        Ok(v) if v.len() == 32 => Ok(v.try_into().unwrap()),
        Ok(v) => fail("scalar-encode-length", format!("scalar encoded to {} bytes", v.len())),
        Err(e) => fail("scalar-encode-error", format!("{:?}", e)),
    }
}
pub fn pbytes(p: &Point) -> Res<[u8; 32]> {
    match p.marshal_binary() {
        Ok(v) if v.len() == 32 => Ok(v.try_into().unwrap()),
        Ok(v) => fail("point-encode-length", format!("point encoded to {} bytes", v.len())),
        Err(e) => fail("point-encode-error", format!("{:?}", e)),
    }
}
pub fn kp(b: &[u8; 32]) -> Res<Point> {
    let mut p = Point::new();
    match p.unmarshal_binary(b) {
        Ok(()) => Ok(p),
        Err(e) => fail("point-decode-rejects-valid", format!("decode of {} failed: {:?}", hex::encode(b), e)),
    }
}
pub fn dp(b: &[u8; 32]) -> Option<EdwardsPoint> {
    CompressedEdwardsY(*b).decompress()
}
pub fn dalek_of(p: &Point) -> Res<EdwardsPoint> {
    let b = pbytes(p)?;
    match dp(&b) {
        Some(q) => Ok(q),
        None => fail("encodes-off-curve", format!("library point encodes to non-point {}", hex::encode(b))),
    }
}
pub fn denc(p: &EdwardsPoint) -> [u8; 32] {
    p.compress().0
}
/// integer (not reduced) times point, double and add over dalek's addition
pub fn imul(k: &[u8; 32], p: &EdwardsPoint) -> EdwardsPoint {
    let mut acc = EdwardsPoint::identity();
    for i in (0..256).rev() {
        acc = acc + acc;
        if (k[i / 8] >> (i % 8)) & 1 == 1 {
            acc += p;
        }
    }
    acc
}
pub fn dbase() -> EdwardsPoint {
    ED25519_BASEPOINT_POINT
}
pub fn torsion(i: usize) -> EdwardsPoint {
    EIGHT_TORSION[i % 8]
}

/// 32-byte integers that stress carries, limb boundaries and reduction
pub fn nasty32(r: &mut Rng) -> [u8; 32] {
    let l = ell();
    let one = BigUint::from(1u8);
    match r.below(18) {
        16 => {
            // a border value with a few bytes changed
            let mut b = match r.below(4) {
                0 => le32(&l),
                1 => le32(&p25519()),
                2 => le32(&(&l * BigUint::from(r.range(1, 15) as u64))),
                _ => le32(&(&l - one)),
            };
            for _ in 0..r.range(1, 3) {
                let i = r.below(32);
                b[i] = match r.below(4) {
                    0 => b[i].wrapping_add(1),
                    1 => b[i].wrapping_sub(1),
                    2 => 0,
                    _ => r.u64() as u8,
                };
            }
            b
        }
        17 => {
            // every byte at, just off or far from that of the order
            let mut b = le32(&l);
            let keep = r.range(0, 7);
            for (i, x) in b.iter_mut().enumerate() {
                if r.below(8) >= keep && (i < 31 || r.bool()) {
                    *x = match r.below(5) {
                        0 => x.wrapping_add(1),
                        1 => x.wrapping_sub(1),
                        2 => 0xff,
                        3 => 0,
                        _ => r.u64() as u8,
                    };
                }
            }
            b
        }
        0 => le32(&BigUint::from(r.below(20) as u64)),
        1 => le32(&(&l - BigUint::from(1 + r.below(20) as u64))),
        2 => le32(&(&l + BigUint::from(r.below(20) as u64))),
        3 => {
            // multiples of l near the boundary, below 2^256
            let k = BigUint::from(r.range(1, 15) as u64);
            let d = BigUint::from(r.below(5) as u64);
            if r.bool() {
                le32(&(&l * k + d))
            } else {
                le32(&(&l * k - d))
            }
        }
        4 => le32(&(one << r.below(256))),
        5 => {
            let s = r.below(256);
            le32(&((BigUint::from(1u8) << s) - BigUint::from(1u8)))
        }
        6 => {
            // saturated 21-bit limbs
            let mut v = BigUint::from(0u8);
            for i in 0..12 {
                let limb: u64 = match r.below(4) {
                    0 => 0,
                    1 => 0x1fffff,
                    2 => 0x100000,
                    _ => r.u64() & 0x1fffff,
                };
                v += BigUint::from(limb) << (21 * i);
            }
            le32(&(v % (BigUint::from(1u8) << 255)))
        }
        7 => {
            // nibbles that provoke signed-digit carries
            let mut b = [0u8; 32];
            for x in b.iter_mut() {
                *x = *r.choose(&[0x00, 0x77, 0x78, 0x87, 0x88, 0x80, 0x08, 0x7f, 0xf8, 0xff, 0x8f]);
            }
            b[31] &= 0x7f;
            b
        }
        8 => {
            let mut b: [u8; 32] = r.arr();
            b[0] &= 0xf8;
            b[31] &= 0x7f;
            b[31] |= 0x40;
            b
        }
        9 => {
            let mut b = [0xffu8; 32];
            if r.bool() {
                b[r.below(32)] = r.u64() as u8;
            }
            b
        }
        10 => {
            let mut b = [0u8; 32];
            let n = r.range(1, 3);
            for _ in 0..n {
                b[r.below(32)] = r.u64() as u8;
            }
            b
        }
        11 => le32(&(from_le(&r.bytes(16)))),
        12 | 13 => red(&r.bytes(32)),
        _ => r.arr(),
    }
}
/// canonical scalar bytes
pub fn nasty_canon(r: &mut Rng) -> [u8; 32] {
    let b = nasty32(r);
    red(&b)
}
/// below 2^255
pub fn nasty255(r: &mut Rng) -> [u8; 32] {
    let mut b = nasty32(r);
    b[31] &= 0x7f;
    b
}
/// a curve point with known discrete log or a torsion part
pub fn nasty_point(r: &mut Rng) -> (EdwardsPoint, &'static str) {
    match r.below(12) {
        0 => (EdwardsPoint::identity(), "identity"),
        1 => (dbase(), "base"),
        2 => (torsion(r.below(8)), "torsion"),
        3 | 4 => {
            let k = nasty_canon(r);
            (imul(&k, &dbase()) + torsion(r.range(1, 7)), "mixed")
        }
        5 => (-dbase(), "negbase"),
        6 => {
            // arbitrary decodable y
            loop {
                let b = nasty32(r);
                if let Some(p) = dp(&b) {
                    return (p, "decoded");
                }
                let c: [u8; 32] = r.arr();
                if let Some(p) = dp(&c) {
                    return (p, "decoded");
                }
            }
        }
        7 => {
            let k = BigUint::from(r.below(64) as u64);
            (imul(&le32(&k), &dbase()), "smallmult")
        }
        _ => {
            let k = nasty_canon(r);
            (imul(&k, &dbase()), "prime")
        }
    }
}
pub fn prime_point(r: &mut Rng) -> EdwardsPoint {
    loop {
        let k = nasty_canon(r);
        if k != [0u8; 32] {
            return imul(&k, &dbase());
        }
    }
}
