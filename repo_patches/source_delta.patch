From 45589e30519a9067d3d825e1cc9e01c55deb0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 01/69] fix: pad little-endian integer encodings to the
 requested minimum length

little_endian(min, max) returned only the significant bytes of the value, so
fixed-length encodings came out short and Ed25519 scalars set from such an
encoding kept stale high bytes of the receiver.
---
 src/group/integer_field/integer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..423dd5f 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -128,9 +128,10 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let mut buf = vec![0; pad];
+        let v_bytes = reverse(&buf[0..act], &v_bytes);
+        buf[0..act].copy_from_slice(&v_bytes);
+        Ok(buf)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
-- 
2.43.0


From 6a199919b83a1db342fa1970941faef5d5a30930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 02/69] fix: SimpleCTScalar::sub computed b - a instead of a -
 b

---
 src/group/edwards25519/scalar_test_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index ecf1afd..baba922 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -159,8 +159,8 @@ impl ScalarTrait for SimpleCTScalar {
     }
     fn sub(self, s1: &Self, s2: &Self) -> Self {
         let mut s = self;
-        // a * b + c = -1 * a + c
-        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s1.v, &s2.v);
+        // a * b + c = -1 * s2 + s1
+        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s2.v, &s1.v);
         s
     }
 
-- 
2.43.0


From b5bfbf4ff0092fbcb7d51d25d4531c7577715df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 03/69] fix: Scalar::is_canonical relied on silent integer
 underflow

The range comparison subtracts u16 values that may underflow, which panics in
builds with overflow checks (the default debug profile of any dependent crate)
on inputs chosen by a peer.
---
 src/group/edwards25519/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index 6888733..a3d347e 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -67,8 +67,8 @@ impl ScalarCanCheckCanonical for Scalar {
         for i in (0..=31).rev() {
             // subtraction might lead to an underflow which needs
             // to be accounted for in the right shift
-            c |= (((sb[i] as u16) - (l[i] as u16)) >> 8) as u8 & n;
-            n &= ((((sb[i] as u16) ^ (l[i] as u16)) - 1) >> 8) as u8;
+            c |= ((sb[i] as u16).wrapping_sub(l[i] as u16) >> 8) as u8 & n;
+            n &= (((sb[i] as u16) ^ (l[i] as u16)).wrapping_sub(1) >> 8) as u8;
         }
 
         c != 0
-- 
2.43.0


From 705cda6b5edd1d818bdc04fbc08dae033e01a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 04/69] fix: Point::has_small_order and is_canonical relied on
 silent integer underflow

Both panicked on ordinary peer-supplied points in builds with overflow checks,
the default debug profile of any dependent crate.
---
 src/group/edwards25519/point.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..db7f88d 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -303,7 +303,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         // Constant time verification if one or more of the c's are zero
         let mut k = 0;
         (0..5).for_each(|i| {
-            k |= (c[i] as u16) - 1;
+            k |= (c[i] as u16).wrapping_sub(1);
         });
 
         (k >> 8) & 1 > 0
@@ -330,7 +330,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
         }
 
         // subtraction might underflow
-        c = (((c as u16) - 1) >> 8) as u8;
+        c = ((c as u16).wrapping_sub(1) >> 8) as u8;
         let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
 
         1 - (c & d & 1) == 1
-- 
2.43.0


From e9b1651a100cf2286f19eb6a1901318b3c8c7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 05/69] fix: Point::is_canonical rejected canonical encodings
 close to the field prime

The reference computes (0xED - 1 - b[0]) >> 8; the misplaced parenthesis made
it (0xED - (1 - b[0])) >> 8, which rejects canonical y coordinates whose upper
bytes are all ones.
---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index db7f88d..18ea49e 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -331,7 +331,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
 
         // subtraction might underflow
         c = ((c as u16).wrapping_sub(1) >> 8) as u8;
-        let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
+        let d = (0xEDu16.wrapping_sub(1).wrapping_sub(b[0] as u16) >> 8) as u8;
 
         1 - (c & d & 1) == 1
     }
-- 
2.43.0


From 0e6705c902a01abd81f8a33c79114975dff6ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 06/69] fix: order Points consistently with their equality

Ord was derived over the projective coordinates, so two representations of the
same group element compared equal with == but not with cmp().
---
 src/group/edwards25519/point.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 18ea49e..f1e5593 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -20,7 +20,7 @@ use super::{
 
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
-#[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
@@ -240,6 +240,23 @@ impl PartialEq for Point {
     }
 }
 
+impl Ord for Point {
+    /// [`cmp()`] orders two [`points`](Point) by their encoding, consistently with [`eq()`]
+    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
+        let mut b1 = [0_u8; 32];
+        let mut b2 = [0_u8; 32];
+        self.ge.write_bytes(&mut b1);
+        other.ge.write_bytes(&mut b2);
+        b1.cmp(&b2)
+    }
+}
+
+impl PartialOrd for Point {
+    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl core::hash::Hash for Point {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         let mut b = [0_u8; 32];
-- 
2.43.0


From 221e8159e31fe70a9e59063ea2b509f1ca45d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 07/69] fix: normalise imported modular integers to 0..m-1

Negative multiples of the modulus were imported as m instead of 0, negative
BigInt values stayed negative and decimal strings were not reduced at all.
---
 src/group/integer_field/integer.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 423dd5f..cd75a30 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -93,12 +93,7 @@ impl Int {
     pub fn init64(mut self, v: i64, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = BigInt::from(v);
-        // specify euclidean modulus for negative number
-        match self.v.sign() {
-            num_bigint::Sign::Minus => self.v = (self.v % m.clone()) + m.abs(),
-            _ => self.v %= m,
-        }
+        self.v = euclidean_mod(BigInt::from(v), &m);
         self
     }
 
@@ -106,7 +101,7 @@ impl Int {
     fn init(mut self, v: BigInt, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = v % m;
+        self.v = euclidean_mod(v, &m);
         self
     }
 
@@ -190,7 +185,7 @@ impl Int {
     /// Returns the [`Int`] on success or an [`Error`](BigIntError)
     /// if the string failed to parse
     pub fn set_string(mut self, n: String, d: String, base: i32) -> Result<Self, IntError> {
-        self.v = BigInt::from_str_radix(n.as_str(), base as u32)?;
+        self.v = euclidean_mod(BigInt::from_str_radix(n.as_str(), base as u32)?, &self.m);
         if !d.is_empty() {
             let mut di = Int {
                 m: self.m.clone(),
@@ -347,12 +342,7 @@ impl Scalar for Int {
     /// The `modulus` must already be initialized.
     fn set_int64(self, v: i64) -> Self {
         let mut i = self;
-        i.v = BigInt::from(v);
-        // specify euclidean modulus for negative number
-        match i.v.sign() {
-            num_bigint::Sign::Minus => i.v = (i.v % i.m.clone()) + i.m.abs(),
-            _ => i.v %= i.m.clone(),
-        }
+        i.v = euclidean_mod(BigInt::from(v), &i.m);
         i
     }
 
@@ -516,6 +506,15 @@ impl Int {
     }
 }
 
+/// [`euclidean_mod()`] returns the representative of `v` modulo `m` in the range from `0` to `m-1`.
+fn euclidean_mod(v: BigInt, m: &BigInt) -> BigInt {
+    let r = v % m;
+    match r.sign() {
+        Sign::Minus => r + m.abs(),
+        _ => r,
+    }
+}
+
 /// [`reverse()`] copies `src` into `dst` in byte-reversed order and returns `dst`,
 /// such that `src[0]` goes into `dst[len-1]` and vice versa.
 /// `dst` and `src` may be the same slice but otherwise must not overlap.
-- 
2.43.0


From 327a2b4e42603a9b3c84d0afabd0f11a40f6a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 08/69] fix: Int::div multiplied by the divisor instead of its
 inverse

It also took the modulus of the receiver rather than that of the operands.
Fractions passed to set_string were affected too.
---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index cd75a30..2079676 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -395,9 +395,9 @@ impl Scalar for Int {
 
     /// [`div()`] sets the target to `a * b^-1 mod m`, where `b^-1` is the modular inverse of `b`.
     fn div(mut self, a: &Self, b: &Self) -> Self {
-        let _t = BigInt::default();
-        self.v = a.v.clone() * b.v.clone();
-        self.v = self.v.clone() % self.m.clone();
+        self.m = a.m.clone();
+        let inverse = Int::default().inv(b);
+        self.v = (&a.v * &inverse.v) % &self.m;
         self
     }
 
-- 
2.43.0


From 610df0da964929b21b1b7143a5cb7f9d5a068a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 09/69] fix: Int::exp exponentiated the receiver instead of its
 argument

---
 src/group/integer_field/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 2079676..c7a3d3e 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -462,7 +462,7 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = self.v.modpow(e, &self.m);
+        self.v = a.v.modpow(e, &self.m);
         self
     }
 
-- 
2.43.0


From 4fb5e1644b7912be2af8774dc76453ab36955a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 10/69] fix: Int::big_endian panicked on values shorter than
 the modulus

---
 src/group/integer_field/integer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c7a3d3e..35403d3 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -501,6 +501,7 @@ impl Int {
         }
         let mut buf = vec![0_u8; pad];
         let b = self.v.to_bytes_be().1;
+        ofs += act - b.len();
         buf[ofs..].copy_from_slice(&b);
         Ok(buf)
     }
-- 
2.43.0


From 0ee2b2013e06a4c90e0f028ecd93a1859989975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 11/69] fix: Int::unmarshal_binary stored an out-of-range value
 before refusing it

The receiver was left holding a value that is not reduced modulo m.
---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 35403d3..d9d6a92 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -261,12 +261,13 @@ impl BinaryUnmarshaler for Int {
         if self.bo == LittleEndian {
             buf = reverse(&vec![0_u8; buf.len()], &buf.to_vec());
         }
-        self.v = BigInt::from_bytes_be(Plus, buf.as_slice());
-        if matches!(self.v.cmp(&self.m), Greater | Equal) {
+        let v = BigInt::from_bytes_be(Plus, buf.as_slice());
+        if matches!(v.cmp(&self.m), Greater | Equal) {
             return Err(MarshallingError::InvalidInput(
                 "unmarshal_binary: value out of range".to_owned(),
             ));
         }
+        self.v = v;
         Ok(())
     }
 }
-- 
2.43.0


From 8c2d4a869527d646c12655aacc215d920d736555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 12/69] fix: Int::sqrt computed the integer square root instead
 of the modular one

It returned the floor of the real root for any input, square or not. Use
Tonelli-Shanks for the documented odd prime moduli and report non-squares.
---
 src/group/integer_field/integer.rs | 47 ++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index d9d6a92..285eb64 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -478,13 +478,52 @@ impl Int {
 
     /// [`sqrt()`] computes some square root of a `mod m` of ONE exists.
     /// Assumes the modulus `m` is an `odd prime`.
-    /// Returns `true` on success, `false` if input a is not a square.
+    /// Returns an [`Error`](IntError::NotASquare) if input a is not a square.
     pub fn sqrt(&mut self, a_s: &Self) -> Result<(), IntError> {
         if a_s.v.sign() == Sign::Minus {
             return Err(IntError::ImaginaryRoot);
         }
-        self.v = a_s.v.sqrt() % a_s.m.clone();
-        self.m = a_s.m.clone();
+        let m = &a_s.m;
+        let a = &a_s.v % m;
+        if a.sign() == Sign::NoSign {
+            (self.v, self.m) = (a, m.clone());
+            return Ok(());
+        }
+        if jacobi(&a, m) != 1 {
+            return Err(IntError::NotASquare);
+        }
+        // Tonelli-Shanks: m - 1 = q * 2^s with q odd
+        let mut q = m - &*ONE;
+        let mut s = 0_u32;
+        while (&q % &*TWO).sign() == Sign::NoSign {
+            q /= &*TWO;
+            s += 1;
+        }
+        let mut z = TWO.clone();
+        while jacobi(&z, m) != -1 {
+            z += &*ONE;
+        }
+        let mut c = z.modpow(&q, m);
+        let mut t = a.modpow(&q, m);
+        let mut r = a.modpow(&((&q + &*ONE) / &*TWO), m);
+        while t != *ONE {
+            // least i such that t^(2^i) = 1
+            let mut i = 0_u32;
+            let mut t2 = t.clone();
+            while t2 != *ONE {
+                t2 = (&t2 * &t2) % m;
+                i += 1;
+            }
+            let mut b = c.clone();
+            for _ in 0..(s - i - 1) {
+                b = (&b * &b) % m;
+            }
+            s = i;
+            c = (&b * &b) % m;
+            t = (&t * &c) % m;
+            r = (&r * &b) % m;
+        }
+        (self.v, self.m) = (r, m.clone());
         Ok(())
     }
 
@@ -540,4 +579,6 @@ pub enum IntError {
     NotRepresentable,
     #[error("input is a negative number, square root is imaginary")]
     ImaginaryRoot,
+    #[error("input is not a square modulo m")]
+    NotASquare,
 }
-- 
2.43.0


From 310edbf6a0d73a0055f2731839ef393927cbba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 13/69] fix: XOF write after read reported a retryable error,
 making write_all spin forever

---
 src/xof/blake3/xof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..bf9d5b8 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -51,7 +51,7 @@ impl std::io::Write for Xof {
     fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
         match &mut self.implementation {
             HashState::Readable { reader: _ } => Err(std::io::Error::new(
-                std::io::ErrorKind::Interrupted,
+                std::io::ErrorKind::Other,
                 "write after read",
             )),
             HashState::Writeable { writer } => writer.write(buf),
-- 
2.43.0


From 70dae46310b7eed3c0e2fd7b45a280b36d9779e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 14/69] fix: XOF::flush panicked

---
 src/xof/blake3/xof.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index bf9d5b8..c27bd30 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -59,14 +59,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // everything written is absorbed immediately
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
-- 
2.43.0


From ef9ba107fcd8448d07012c2ac840c7c5ebe156be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 15/69] fix: random::bits returned predictable bits when the
 random stream failed

---
 src/util/random/random_stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..6371664 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -13,11 +13,13 @@ use crate::{
 };
 
 /// [`bits()`] chooses a uniform random [`BigInt`] with a given maximum `bit_len`.
-/// If `exact` is `true`, choose a [`BigInt`] with _exactly_ that `bit_len`, not less
+/// If `exact` is `true`, choose a [`BigInt`] with _exactly_ that `bit_len`, not less.
+/// Panics if the stream fails to deliver random bytes.
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("random stream failure");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From 6fb79f4c52ea77fad6d35a816c8264ce33391850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 16/69] fix: encoding an EdDSA key without a seed panicked

---
 src/sign/eddsa/eddsa_sig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..c9273e1 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -94,6 +94,11 @@ impl BinaryMarshaler for EdDSA<Curve> {
     /// [`marshal_binary()`] will return the representation used by the reference
     /// implementation of `SUPERCOP ref10`, which is `"seed || Public"`.
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
+        if self.seed.len() != 32 {
+            return Err(MarshallingError::InvalidInput(
+                "EdDSA private without a seed cannot be encoded".to_owned(),
+            ));
+        }
         let p_buff = self.public.marshal_binary()?;
 
         let mut eddsa = [0u8; 64];
-- 
2.43.0


From 23e864514abbba2cfe7b2ca03bbb2d449332d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 17/69] fix: EdDSA keys made from a key pair signed with
 publicly computable nonces

---
 src/sign/eddsa/eddsa_sig.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index c9273e1..1a7ad9c 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -109,13 +109,16 @@ impl BinaryMarshaler for EdDSA<Curve> {
 }
 
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
+    /// There is no seed to derive the nonce prefix from: it is derived from the
+    /// private key instead, since nonces must not be computable from public data.
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        let digest = Sha512::digest(pair.private.v);
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix: digest[32..].to_vec(),
         }
     }
 }
-- 
2.43.0


From a4e778037acb3fc5c8b84de4f31f6b02c388f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 18/69] fix: ecies::decrypt panicked on ciphertexts shorter
 than a point

---
 src/encrypt/ecies/ecies_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..433aab7 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(EciesError::CiphertextTooShort);
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
@@ -96,4 +99,6 @@ pub enum EciesError {
     DhError(#[from] DhError),
     #[error("hkdf-derived key too short")]
     KeyTooShort,
+    #[error("ciphertext too short")]
+    CiphertextTooShort,
 }
-- 
2.43.0


From 476cf37c14959d94c189779d491586ab12a438df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 19/69] fix: AEAD seal and open panicked unless the output
 buffer had the exact length

---
 src/dh/dh_impl.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/dh/dh_impl.rs b/src/dh/dh_impl.rs
index 44d431d..1036165 100644
--- a/src/dh/dh_impl.rs
+++ b/src/dh/dh_impl.rs
@@ -219,7 +219,7 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let encrypted = DH::aes_encrypt(&self.key, nonce, plaintext, additional_data)?;
         if let Some(d) = dst {
-            d.copy_from_slice(&encrypted);
+            copy_to(d, &encrypted)?;
         }
         Ok(encrypted)
     }
@@ -244,7 +244,7 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let decrypted = DH::aes_decrypt(&self.key, nonce, ciphertext, additional_data)?;
         if let Some(d) = dst {
-            d.copy_from_slice(&decrypted);
+            copy_to(d, &decrypted)?;
         }
         Ok(decrypted)
     }
@@ -254,12 +254,29 @@ impl<DH: Dh> AEAD<DH> {
     }
 }
 
+/// [`copy_to()`] writes `src` at the beginning of `dst`, which must be large enough.
+fn copy_to(dst: &mut [u8], src: &[u8]) -> Result<(), DhError> {
+    match dst.get_mut(..src.len()) {
+        Some(d) => {
+            d.copy_from_slice(src);
+            Ok(())
+        }
+        None => Err(DhError::WrongBufferLength(format!(
+            "expected at least {}, got {}",
+            src.len(),
+            dst.len()
+        ))),
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum DhError {
     #[error("marshalling error")]
     MarshalingError(#[from] MarshallingError),
     #[error("wrong key length")]
     WrongKeyLength(String),
+    #[error("output buffer too short")]
+    WrongBufferLength(String),
     #[error("aes decryption failed")]
     DecryptionFailed(String),
     #[error("aes encryption failed")]
-- 
2.43.0


From c20c4e1af01fa856d5e00a6418e7964aaf77d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 20/69] fix: PubPoly::equal ignored or panicked on different
 thresholds

---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..81dbddd 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.threshold() != q.threshold() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From 8ec3faa51c9d6b4adbd1f396e1b5be0809f50fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 21/69] fix: recover_pub_poly failed on shares whose indices
 are not 0..t-1

---
 src/share/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index 81dbddd..b3b43ab 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -620,11 +620,11 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
             acc_poly = tmp;
             continue;
-- 
2.43.0


From 0eccbf3bb0b2b1c79ba7fb2527c41765a854f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 22/69] fix: recover_pub_poly returned one of the shares as
 base point, so check() refused valid shares

---
 src/share/poly.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index b3b43ab..daf96e8 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -634,6 +634,10 @@ pub fn recover_pub_poly<GROUP: Group>(
         acc_poly = acc_poly.add(&tmp)?;
     }
 
+    // the terms were committed on the shares themselves, none of which is the
+    // base point of the recovered polynomial
+    acc_poly.b = None;
+
     Ok(acc_poly)
 }
 
-- 
2.43.0


From 57106a7de6ceb97189ff12c40cd258952152196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 23/69] fix: PubPoly::eval panicked on a polynomial without
 commitments

---
 src/share/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index daf96e8..b9879b1 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -459,7 +459,7 @@ impl<GROUP: Group> PubPoly<GROUP> {
         let xi = self.g.scalar().set_int64(1 + (i as i64));
         let mut v = self.g.point();
         v = v.null();
-        for j in (0..=(self.threshold() - 1)).rev() {
+        for j in (0..self.threshold()).rev() {
             let v_clone = v.clone();
             v = v.mul(&xi, Some(&v_clone));
             let v_clone = v.clone();
-- 
2.43.0


From 89817f0101ad5ddfde08f7ec00a7ae1677691271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 24/69] fix: PriPoly::mul underflowed on a polynomial without
 coefficients

---
 src/share/poly.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index b9879b1..839d67e 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -211,6 +211,12 @@ impl<GROUP: Group> PriPoly<GROUP> {
     /// described above. This is only for use in secret sharing schemes. It is not
     /// a general polynomial multiplication routine.
     pub fn mul(&self, q: &Self) -> Self {
+        if self.coeffs.is_empty() || q.coeffs.is_empty() {
+            return PriPoly {
+                g: self.g.clone(),
+                coeffs: vec![],
+            };
+        }
         let d1 = self.coeffs.len() - 1;
         let d2 = q.coeffs.len() - 1;
         let new_degree = d1 + d2;
-- 
2.43.0


From 892b5d5011a231efad6300b87f259ac93598b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 25/69] fix: pedersen vss decrypt_deal panicked on a nonce of
 the wrong length

---
 src/share/vss/pedersen/vss.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..6fe059f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -12,7 +12,7 @@ use digest::Digest;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    dh::{AEAD, NONCE_SIZE},
+    dh::{DhError, AEAD, NONCE_SIZE},
     encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError},
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
@@ -652,7 +652,10 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce
+                .as_slice()
+                .try_into()
+                .map_err(|_| DhError::WrongBufferLength("invalid nonce length".to_owned()))?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From f8fc13d18a2694d3dda1c826b474ebca0ed18713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 26/69] fix: pedersen vss did not record a justified complaint
 as an approval

---
 src/share/vss/pedersen/vss.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 6fe059f..f3c332c 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -966,7 +966,10 @@ where
         }
 
         match self.verify_deal(&j.deal, false) {
-            Ok(_) => r.status = STATUS_APPROVAL,
+            Ok(_) => {
+                r.status = STATUS_APPROVAL;
+                self.responses.insert(j.index, r);
+            }
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
                 self.bad_dealer = true;
-- 
2.43.0


From f35dfb4fd8cfc511946a63be9c3b97b7e1f4548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 27/69] fix: pedersen vss deal_certified underflowed when a
 deal announced more than n as threshold

---
 src/share/vss/pedersen/vss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index f3c332c..42455e5 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1026,7 +1026,7 @@ where
             }
         }
         let enough_approvals = approvals >= self.t;
-        let too_much_absents = absent_verifiers > self.verifiers.len() - self.t;
+        let too_much_absents = absent_verifiers > self.verifiers.len().saturating_sub(self.t);
         let base_condition = !self.bad_dealer && enough_approvals && !is_complaint;
         if self.timeout {
             return base_condition && !too_much_absents;
-- 
2.43.0


From 6d95e08165025d396eba8a8b9df9e44abe3c2059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 28/69] fix: pedersen vss ignored the threshold set with
 set_threshold

---
 src/share/vss/pedersen/vss.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 42455e5..de69b77 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -884,7 +884,9 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From 97c2dccfd98fd59bc92e8e36b83825400d417c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 29/69] fix: pedersen vss approved deals whose commitments do
 not match their session or threshold

---
 src/share/vss/pedersen/vss.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index de69b77..af54529 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -552,6 +552,8 @@ pub fn new_verifier<SUITE: Suite>(
         return Err(VSSError::PublicKeyNotFound);
     }
     let c = context(suite, dealer_key, verifiers);
+    let mut aggregator = new_empty_aggregator(suite, verifiers);
+    aggregator.dealer = dealer_key.clone();
     Ok(Verifier {
         suite,
         longterm: longterm.clone(),
@@ -560,7 +562,7 @@ pub fn new_verifier<SUITE: Suite>(
         pubb,
         index,
         hkdf_context: c,
-        aggregator: Some(new_empty_aggregator(suite, verifiers)),
+        aggregator: Some(aggregator),
     })
 }
 
@@ -901,6 +903,23 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // the session id is what binds every deal of the dealer to the same
+        // commitments and threshold
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
+        if sid != d.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
-- 
2.43.0


From faa3f6624cd3735ee5249479b3e1c98e942d7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 30/69] fix: pedersen vss took the deal of somebody else's
 justification for its own

---
 src/share/vss/pedersen/vss.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index af54529..ef5459f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -882,7 +882,7 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
-        if self.deal.is_none() {
+        if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
@@ -895,11 +895,11 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if d.t != self.t {
+        if self.t != 0 && d.t != self.t {
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-        if self.sid != d.session_id {
+        if self.deal.is_some() && self.sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From 36fff5d50c88cd6d1c66921e979c586702df0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 31/69] fix: pedersen vss accepted a justification revealing
 another verifier's share

---
 src/share/vss/pedersen/vss.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index ef5459f..dc271ab 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -986,7 +986,15 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        match self.verify_deal(&j.deal, false) {
+        // the deal must be the one the complaint is about
+        let verification = if j.deal.sec_share.i != j.index as usize {
+            Err(VSSError::DealWrongIndex)
+        } else if j.deal.session_id != r.session_id {
+            Err(VSSError::DealInvalidSessionId)
+        } else {
+            self.verify_deal(&j.deal, false)
+        };
+        match verification {
             Ok(_) => {
                 r.status = STATUS_APPROVAL;
                 self.responses.insert(j.index, r);
-- 
2.43.0


From a16ded411a6a3992ddb756ff5ec96a8185950ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 32/69] fix: pedersen vss verifier kept its bad share after the
 dealer revealed the right one

---
 src/share/vss/pedersen/vss.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index dc271ab..beb984f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -998,6 +998,12 @@ where
             Ok(_) => {
                 r.status = STATUS_APPROVAL;
                 self.responses.insert(j.index, r);
+                // the revealed share replaces the bad one received before
+                if let Some(deal) = self.deal.as_mut() {
+                    if deal.sec_share.i == j.deal.sec_share.i {
+                        *deal = j.deal.clone();
+                    }
+                }
             }
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
-- 
2.43.0


From 026d889e6d0ff2be98bf5a5fc3a640c23da0e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 33/69] fix: pedersen vss counted responses of another session
 received before the deal

---
 src/share/vss/pedersen/vss.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index beb984f..d71535f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -889,6 +889,10 @@ where
             if self.t == 0 {
                 self.t = d.t;
             }
+            // responses received before the deal may belong to another session
+            let sid = &self.sid;
+            self.responses
+                .retain(|_, r| r.session_id.is_empty() || &r.session_id == sid);
         }
 
         if !valid_t(d.t, &self.verifiers) {
@@ -953,7 +957,7 @@ where
     }
 
     pub(crate) fn verify_response(&mut self, r: &Response) -> Result<(), VSSError> {
-        if !self.sid.is_empty() && r.session_id != self.sid {
+        if r.session_id.is_empty() || (!self.sid.is_empty() && r.session_id != self.sid) {
             return Err(VSSError::ResponseInconsistentSessionId);
         }
 
-- 
2.43.0


From b5a2063a1590f10d31d6dbe7783a63c364900635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 34/69] fix: pedersen dkg with the default threshold finished
 without any certified deal

---
 src/share/dkg/pedersen/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..a0c6459 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -315,6 +315,7 @@ where
     } else {
         vss::minimum_t(c.new_nodes.len())
     };
+    c.threshold = new_threshold;
 
     let mut dealer = vss::Dealer::default();
     let mut can_issue = false;
-- 
2.43.0


From 3cdeb9d33ca87e8a0b93889dcafc90c91a965473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 35/69] fix: leaving nodes kept state for dealers outside the
 old group and judged deals without a threshold

---
 src/share/dkg/pedersen/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index a0c6459..fb50be8 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -649,9 +649,13 @@ where
         let agg = match self.old_aggregators.contains_key(&resp.index) {
             true => self.old_aggregators.get_mut(&resp.index).unwrap(),
             false => {
+                if resp.index as usize >= self.c.old_nodes.len() {
+                    return Err(DKGError::ResponseFromUnknownDealer);
+                }
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                agg.t = self.new_t;
                 self.old_aggregators.insert(resp.index, agg);
                 self.old_aggregators.get_mut(&resp.index).unwrap()
             }
-- 
2.43.0


From 574021912dab9e096f90153988207cc2b6778631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 36/69] fix: leaving nodes revealed shares for complaints of
 other sessions, in unsigned justifications

---
 src/share/dkg/pedersen/dkg.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index fb50be8..72b9466 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -661,29 +661,19 @@ where
             }
         };
 
-        agg.process_response(resp.response.clone())?;
         if resp.index as usize != self.oidx {
+            agg.process_response(resp.response.clone())?;
             return Ok(None);
         }
 
-        if resp.response.status == vss::STATUS_APPROVAL {
-            return Ok(None);
-        }
-
-        let s_id = self.dealer.session_id();
-        // status is complaint and it is about our deal
-        let deal = self.dealer.plaintext_deal(resp.response.index as usize)?; // dkg: resharing response can't get deal. BUG - REPORT"
-
-        let j = Justification {
+        // the response is about our deal: it must be for our session before a
+        // complaint makes us reveal the share
+        let j = self.dealer.process_response(&resp.response)?;
+        agg.process_response(resp.response.clone())?;
+        Ok(j.map(|justification| Justification {
             index: self.oidx as u32,
-            justification: vss::Justification {
-                session_id: s_id,
-                index: resp.response.index, // good index because of signature check
-                deal: deal.clone(),
-                signature: Vec::new(),
-            },
-        };
-        Ok(Some(j))
+            justification,
+        }))
     }
 
     /// [`process_justification()`] takes a [`Justification`] and validates it. It returns an
-- 
2.43.0


From 087cc29a7d7e2e2d63e920441939115ba938177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 37/69] fix: pedersen vss certified a deal never received and
 never approved after the timeout

---
 src/share/vss/pedersen/vss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index d71535f..9e01adb 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1064,7 +1064,7 @@ where
                 }
             }
         }
-        let enough_approvals = approvals >= self.t;
+        let enough_approvals = self.t > 0 && approvals >= self.t;
         let too_much_absents = absent_verifiers > self.verifiers.len().saturating_sub(self.t);
         let base_condition = !self.bad_dealer && enough_approvals && !is_complaint;
         if self.timeout {
-- 
2.43.0


From 73d79e80da9071e9d4e0cc5e9abf93866b5c3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 38/69] fix: resharing kept the local approval of a deal it
 rejected

---
 src/share/vss/pedersen/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 9e01adb..6c9faba 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -741,6 +741,10 @@ where
             signature: vec![],
         };
 
+        if approval == STATUS_COMPLAINT {
+            // a rejected deal does not keep the approval recorded before
+            self.responses.remove(&idx);
+        }
         self.add_response(&r);
     }
 }
-- 
2.43.0


From 22f65835eae2d6e29e782deab7e03187a21c638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 39/69] fix: resharing panicked on a deal without commitments

---
 src/share/dkg/pedersen/dkg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 72b9466..ea828b1 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -572,7 +572,8 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            let deal_commit = deal_commits.as_ref().and_then(|c| c.first());
+            if deal_commit != Some(&expected_pub_share.v) {
                 return reject();
             }
         }
-- 
2.43.0


From 9a0d7f7ebc22f032077ebd9d5573768d8c353919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 40/69] fix: pedersen dkg swallowed duplicate participant keys
 and panicked on the first deal

---
 src/share/dkg/pedersen/dkg.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index ea828b1..38dd198 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -389,7 +389,7 @@ where
         can_receive = true;
         old_threshold = c.public_coeffs.clone().unwrap().len();
     }
-    let dkg = DistKeyGenerator::<SUITE, READ> {
+    let mut dkg = DistKeyGenerator::<SUITE, READ> {
         dealer,
         old_aggregators: HashMap::new(),
         suite: c.suite,
@@ -411,11 +411,7 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        dkg.init_verifiers(c)?;
     }
     Ok(dkg)
 }
-- 
2.43.0


From 7b52a99656bcf1b8980a05a009e1761d17ab7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 41/69] fix: DistKeyShare::renew panicked or truncated on a
 refresh with another threshold

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 38dd198..89684e4 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1062,6 +1062,11 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
         suite: SUITE,
         g: DistKeyShare<SUITE>,
     ) -> Result<DistKeyShare<SUITE>, DKGError> {
+        // Check that both polynomials have the same, non-zero size
+        if g.commits.is_empty() || g.commits.len() != self.commits.len() {
+            return Err(DKGError::WrongRenewal);
+        }
+
         // Check G(0) = 0*G.
         if !g
             .public()
-- 
2.43.0


From 164c3f485adf8535689421a8b930a247e00bb90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 42/69] fix: pedersen dkg participants missing a deal judged
 its certification differently from the others

---
 src/share/dkg/error.rs        | 2 ++
 src/share/dkg/pedersen/dkg.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index 8667caf..09b880c 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -87,6 +87,8 @@ pub enum DKGError {
     OwnDealComplaint,
     #[error("responses received for unknown dealer")]
     ResponseFromUnknownDealer,
+    #[error("dealer responded to its own deal")]
+    ResponseFromDealer,
     #[error("should not expect to compute any dist. share")]
     ShouldReceive,
     #[error("share do not correspond to public polynomial")]
diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 89684e4..47f67ca 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -614,7 +614,15 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
+        if !self.is_resharing && resp.response.index == resp.index {
+            // dealers do not respond to their own deal, see process_deal()
+            return Err(DKGError::ResponseFromDealer);
+        }
         v.process_response(&resp.response)?;
+        if !self.is_resharing {
+            // the dealer approves its own deal, also at the nodes that miss the deal
+            v.unsafe_set_response_dkg(resp.index, vss::STATUS_APPROVAL);
+        }
 
         let my_idx = self.oidx as u32;
         if !self.can_issue || resp.index != my_idx {
-- 
2.43.0


From 83926ab1966547423c8e8411f04f74273ac66570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 43/69] fix: resharing with a missing qualified deal computed a
 share from a random subset of deals

---
 src/share/dkg/pedersen/dkg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 47f67ca..50cd03b 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -979,6 +979,9 @@ where
             shares[i as usize] = Some(deal.sec_share);
             true
         });
+        if let Some(e) = error {
+            return Err(e);
+        }
 
         // the private polynomial is generated from the old nodes, thus inheriting
         // the old threshold condition
-- 
2.43.0


From 27d951b787ac434c8ae11a1e9cc4197d18526f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 44/69] fix: rabin vss decrypt_deal panicked on a nonce of the
 wrong length

---
 src/share/vss/rabin/vss.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..57c2282 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -31,7 +31,7 @@ use std::io::Write;
 
 use core::fmt::{Debug, Display, Formatter};
 
-use crate::dh::{AEAD, NONCE_SIZE};
+use crate::dh::{DhError, AEAD, NONCE_SIZE};
 use crate::encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError};
 use crate::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
 use crate::share::poly::{self, new_pri_poly, PriShare, PubPoly};
@@ -696,7 +696,10 @@ where
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            e.nonce
+                .as_slice()
+                .try_into()
+                .map_err(|_| DhError::WrongBufferLength("invalid nonce length".to_owned()))?,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From 08674397b255c3410cf41bc784621a47d699212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 45/69] fix: rabin vss approved deals whose commitments do not
 match their session or threshold

---
 src/share/vss/rabin/vss.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 57c2282..48c660c 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -867,7 +867,7 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
-        if self.deal.is_none() {
+        if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
@@ -877,10 +877,31 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
+        if d.t != self.t {
+            return Err(VSSError::DealInvalidThreshold);
+        }
+
         if self.sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // the session id is what binds every deal of the dealer to the same
+        // commitments and threshold
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
+        if sid != d.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         let gi = &d.rnd_share;
         if fi.i != gi.i {
-- 
2.43.0


From bd9a3f594e5d874346fcd56ad1710d2424d48882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 46/69] fix: rabin vss accepted a justification revealing
 another verifier's share

---
 src/share/vss/rabin/vss.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 48c660c..aa27270 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -974,7 +974,14 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        let verification = self.verify_deal(&j.deal, false);
+        // the deal must be the one the complaint is about
+        let verification = if j.deal.sec_share.i != j.index as usize {
+            Err(VSSError::DealWrongIndex)
+        } else if j.deal.session_id != r.session_id {
+            Err(VSSError::DealInvalidSessionId)
+        } else {
+            self.verify_deal(&j.deal, false)
+        };
         if verification.is_err() {
             self.bad_dealer = true;
         } else {
-- 
2.43.0


From bff092903c016b58bdc2eec2aec929949db82a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 47/69] fix: rabin vss verifier kept its bad share after the
 dealer revealed the right one

---
 src/share/vss/rabin/vss.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index aa27270..03468c3 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -985,7 +985,13 @@ where
         if verification.is_err() {
             self.bad_dealer = true;
         } else {
-            r.approved = true
+            r.approved = true;
+            // the revealed share replaces the bad one received before
+            if let Some(deal) = self.deal.as_mut() {
+                if deal.sec_share.i == j.deal.sec_share.i {
+                    *deal = j.deal.clone();
+                }
+            }
         }
 
         // add the updated resp
-- 
2.43.0


From 6df340d43aaa769698cd8d3274f295912805fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 48/69] fix: rabin vss returned a deal its verifier complained
 about as a valid one

---
 src/share/vss/rabin/vss.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 03468c3..5f2dfa1 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -726,7 +726,12 @@ where
         {
             return None;
         }
-        self.deal.clone()
+        // a share which is still complained about is not usable, even when the
+        // others approved theirs
+        match self.responses.get(&(self.index as u32)) {
+            Some(r) if !r.approved => None,
+            _ => self.deal.clone(),
+        }
     }
 
     /// [`process_justification()`] takes a Dealer Response and returns an [`Error`](VSSError) if
-- 
2.43.0


From 26b3f8f49da783e046f6a0928e39237e7d63231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 49/69] fix: rabin vss certified a deal announcing a threshold
 of zero without any approval

---
 src/share/vss/rabin/vss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 5f2dfa1..fd486ea 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -1041,7 +1041,7 @@ where
         }
 
         let too_much_complaints = verifiers_unstable > 0 || self.bad_dealer;
-        self.enough_approvals() && !too_much_complaints
+        self.t > 0 && self.enough_approvals() && !too_much_complaints
     }
 
     /// `unsafe_set_response_DKG()` is an UNSAFE bypass method to allow DKG to use VSS
-- 
2.43.0


From 7bc3a24e85b0b529a280a8b3f30a786868776603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 50/69] fix: querying a rabin vss verifier panicked before it
 received a deal

---
 src/share/vss/rabin/vss.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index fd486ea..3b5b1c2 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -757,9 +757,27 @@ where
         self.index
     }
 
-    /// [`session_id()`] returns the session id generated by the Dealer.
+    /// [`session_id()`] returns the session id generated by the Dealer. It is empty
+    /// until a deal is received.
     pub fn session_id(&self) -> Vec<u8> {
-        self.sid.clone()
+        match &self.aggregator {
+            Some(a) => a.sid.clone(),
+            None => Vec::new(),
+        }
+    }
+
+    /// [`enough_approvals()`] returns `true` if enough verifiers have sent their approval for
+    /// the deal they received. It returns `false` until a deal is received.
+    pub fn enough_approvals(&self) -> bool {
+        self.aggregator
+            .as_ref()
+            .map_or(false, |a| a.enough_approvals())
+    }
+
+    /// [`deal_certified()`] returns `true` if the deal is certified (see
+    /// [`Aggregator::deal_certified()`]). It returns `false` until a deal is received.
+    pub fn deal_certified(&self) -> bool {
+        self.aggregator.as_ref().map_or(false, |a| a.deal_certified())
     }
 
     /// [`set_timeout()`] tells this [`Verifier`] to consider this moment the maximum time limit.
-- 
2.43.0


From 14e5af7e40dfdd0aa680310a35d4ec0298c50f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 51/69] fix: pedersen vss dealer did not take its own
 justifications into account

---
 src/share/vss/pedersen/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 6c9faba..c4d4c4b 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -422,6 +422,10 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // the complaint is justified for the dealer as it will be for the
+        // verifiers; a justification which does not verify marks the dealer bad
+        let _ = self.aggregator.verify_justification(&j);
+
         Ok(Some(j))
     }
 
-- 
2.43.0


From d046df98595e62ed100b3876c7733aef4cd66123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 52/69] fix: rabin vss dealer did not take its own
 justifications into account

---
 src/share/vss/rabin/vss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 3b5b1c2..d5cbffd 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -453,6 +453,10 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // the complaint is justified for the dealer as it will be for the
+        // verifiers; a justification which does not verify marks the dealer bad
+        let _ = self.aggregator.verify_justification(&j);
+
         Ok(Some(j))
     }
 
-- 
2.43.0


From 33528d7fe3c5c9318547e80427e6923942b582ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 53/69] fix: rabin dkg participants could not reveal their
 secret commitments after the timeout

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 832558f..1ea0354 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -591,6 +591,7 @@ where
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
     /// all verifiers have either responded, or have a StatusComplaint response.
     pub fn set_timeout(&mut self) {
+        self.dealer.set_timeout();
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
-- 
2.43.0


From 314da10575242d93227ef7923877a455ed546d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 54/69] fix: rabin dkg secret commits were not bound to their
 session

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1ea0354..d3c94fb 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -209,6 +209,7 @@ impl<SUITE: Suite> SecretCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("secretcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         for c in self.commitments.clone() {
             c.marshal_to(&mut h)?
-- 
2.43.0


From 3c7b8815c1e6297edc09ab27cddf9ea9d1db092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 55/69] fix: rabin dkg reconstruct commits were not bound to
 their session

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index d3c94fb..270cc3a 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -304,6 +304,7 @@ impl<SUITE: Suite> ReconstructCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("reconstructcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         h.write_u32::<LittleEndian>(self.dealer_index)?;
         let share_buff = self.share.hash(*s)?;
-- 
2.43.0


From d438fe3ee8b1d7f3391c2854e0e10c2005a79553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 56/69] fix: rabin dkg accepted deals of another threshold and
 could not finish

---
 src/share/dkg/rabin/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 270cc3a..b9c96d2 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -50,6 +50,7 @@ use crate::{
         vss::{
             rabin::vss::{self, EncryptedDeal},
             suite::Suite,
+            VSSError,
         },
     },
     sign::{dss, schnorr},
@@ -529,6 +530,9 @@ where
         let mut ver = vss::new_verifier(&self.suite, &self.long, &pubb, &self.participants)?;
 
         let resp = ver.process_encrypted_deal(&dd.deal)?;
+        if ver.t != self.t {
+            return Err(DKGError::VSSError(VSSError::DealInvalidThreshold));
+        }
 
         // Set StatusApproval for the verifier that represents the participant
         // that distibuted the Deal
-- 
2.43.0


From f1f4c4677ab87cfe90907573caaaa88a80e6c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 57/69] fix: rabin dkg accepted secret commits of another
 degree

---
 src/share/dkg/rabin/dkg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index b9c96d2..d9f5536 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -46,7 +46,7 @@ use crate::{
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
         dkg::DKGError,
-        poly::{recover_pri_poly, PriShare, PubPoly},
+        poly::{recover_pri_poly, PolyError, PriShare, PubPoly},
         vss::{
             rabin::vss::{self, EncryptedDeal},
             suite::Suite,
@@ -718,6 +718,11 @@ where
         let msg = sc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;
 
+        // other coefficients would change the shared secret without changing the
+        // shares
+        if sc.commitments.len() != self.t {
+            return Err(DKGError::PolyError(PolyError::WrongCoefficientsNumber));
+        }
         let deal = match v.deal() {
             Some(d) => d,
             None => return Err(DKGError::MissingDeal),
-- 
2.43.0


From c248b5a4251aba7600f9d9457d9db39816a6051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 58/69] fix: rabin dkg reconstructed commitments from shares of
 another index or session

---
 src/share/dkg/rabin/dkg.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index d9f5536..9643089 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -843,6 +843,16 @@ where
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
 
+        // the share must be the one of the issuer, in the session of the dealer
+        match self.verifiers.get(&rc.dealer_index) {
+            Some(v) if v.session_id() == rc.session_id => (),
+            Some(_) => return Err(DKGError::ReconstructCommitsInvalidId),
+            None => return Err(DKGError::MissingVerifier),
+        }
+        if rc.share.i != rc.index as usize {
+            return Err(DKGError::ReconstructCommitsInvalidVerifierIndex);
+        }
+
         self.pending_reconstruct
             .entry(rc.dealer_index)
             .or_insert_with(alloc::vec::Vec::new);
-- 
2.43.0


From 20f297dea3d0e3d21e13e6aa66f0069103c8672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 59/69] fix: rabin dkg did not reconstruct when its own share
 was the last one needed

---
 src/share/dkg/rabin/dkg.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 9643089..0569b91 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -809,13 +809,7 @@ where
         let msg = rc.hash(&self.suite)?;
         rc.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
 
-        self.pending_reconstruct
-            .entry(cc.dealer_index)
-            .or_insert_with(alloc::vec::Vec::new);
-        self.pending_reconstruct
-            .get_mut(&cc.dealer_index)
-            .unwrap()
-            .push(rc.clone());
+        self.add_reconstruct_commits(&rc)?;
         Ok(rc)
     }
 
@@ -853,6 +847,12 @@ where
             return Err(DKGError::ReconstructCommitsInvalidVerifierIndex);
         }
 
+        self.add_reconstruct_commits(rc)
+    }
+
+    /// [`add_reconstruct_commits()`] stores a verified [`ReconstructCommits`] and
+    /// recovers the polynomial if there are enough of them.
+    fn add_reconstruct_commits(&mut self, rc: &ReconstructCommits<SUITE>) -> Result<(), DKGError> {
         self.pending_reconstruct
             .entry(rc.dealer_index)
             .or_insert_with(alloc::vec::Vec::new);
-- 
2.43.0


From 41bff94f2f655f3f6a163efa86919d59be6417b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 60/69] fix: rabin dkg participants refusing secret commits did
 not help reconstructing them

---
 src/share/dkg/rabin/dkg.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 0569b91..eb71149 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -333,6 +333,9 @@ pub struct DistKeyGenerator<SUITE: Suite> {
     /// `list of commitments` to each secret polynomial
     pub commitments: HashMap<u32, PubPoly<SUITE>>,
 
+    /// commitments this participant refused, or invalidated after a complaint
+    invalid_commitments: HashMap<u32, PubPoly<SUITE>>,
+
     /// `map of deals` collected to reconstruct the full polynomial of a dealer.
     /// The key is index of the dealer. Once there are enough ReconstructCommits
     /// struct, this dkg will re-construct the polynomial and stores it into the
@@ -454,6 +457,7 @@ pub fn new_dist_key_generator<SUITE: Suite>(
         dealer,
         verifiers: HashMap::new(),
         commitments: HashMap::new(),
+        invalid_commitments: HashMap::new(),
         pending_reconstruct: HashMap::new(),
         reconstructed: HashMap::new(),
         t,
@@ -732,7 +736,21 @@ where
             Some(self.suite.point().base()),
             &sc.commitments,
         );
+        // commitments invalidated by a complaint can only be reconstructed
+        let own_index = self.index;
+        let revealed = self
+            .pending_reconstruct
+            .get(&sc.index)
+            .map_or(false, |rcs| rcs.iter().any(|rc| rc.index == own_index));
+        if revealed || self.reconstructed.contains_key(&sc.index) {
+            return Err(DKGError::CommitComplaintNoCommits);
+        }
         if !poly.check(&deal.sec_share) {
+            // this participant has to reveal its share as well, unless it holds
+            // the commitments the others accepted
+            if !self.commitments.contains_key(&sc.index) {
+                self.invalid_commitments.insert(sc.index, poly);
+            }
             let mut cc = ComplaintCommits::<SUITE> {
                 index: self.index,
                 dealer_index: sc.index,
@@ -745,6 +763,7 @@ where
             return Ok(Some(cc));
         }
         // commitments are fine
+        self.invalid_commitments.remove(&sc.index);
         self.commitments.insert(sc.index, poly);
         Ok(None)
     }
@@ -780,11 +799,18 @@ where
         // commits. Verification 4) in DKG Rabin's paper.
         v.verify_deal(&cc.deal, false)?;
 
-        if !self.commitments.contains_key(&cc.dealer_index) {
+        if self.reconstructed.contains_key(&cc.dealer_index) {
             return Err(DKGError::CommitComplaintNoCommits);
         }
 
-        let secret_commits = self.commitments.get(&cc.dealer_index).unwrap();
+        let secret_commits = match self
+            .commitments
+            .get(&cc.dealer_index)
+            .or_else(|| self.invalid_commitments.get(&cc.dealer_index))
+        {
+            Some(commits) => commits,
+            None => return Err(DKGError::CommitComplaintNoCommits),
+        };
 
         // the secret commits check should fail. Verification 5) in DKG Rabin's
         // paper.
@@ -797,7 +823,9 @@ where
             None => return Err(DKGError::CommitComplaintUncertifiedDeal),
         };
 
-        self.commitments.remove(&cc.dealer_index);
+        if let Some(commits) = self.commitments.remove(&cc.dealer_index) {
+            self.invalid_commitments.insert(cc.dealer_index, commits);
+        }
         let mut rc = ReconstructCommits::<SUITE> {
             session_id: cc.deal.session_id.clone(),
             index: self.index,
-- 
2.43.0


From 8286069922598625f43d0776d66daa71d0049de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 61/69] fix: dss counted its own partial signature twice when
 it was received back first

---
 src/sign/dss/dss_sig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 9dd6ae9..247083c 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -229,8 +229,10 @@ impl<SUITE: Suite, DKS: DistKeyShare<SUITE>> DSS<SUITE, DKS> {
         let msg = ps.hash(self.suite.clone())?;
         ps.signature = schnorr::sign(&self.suite, &self.secret, &msg)?;
         if !self.signed {
-            self.partials_idx.insert(self.index, true);
-            self.partials.push(Some(ps.partial.clone()));
+            // it may already be there if it came back from somebody else
+            if self.partials_idx.insert(self.index, true).is_none() {
+                self.partials.push(Some(ps.partial.clone()));
+            }
             self.signed = true
         }
         Ok(ps)
-- 
2.43.0


From 18ae6c00de0de2f6182f58b1888ab91d6606d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 62/69] fix: pedersen vss condemned dealers for complaints
 about another session

---
 src/share/vss/pedersen/vss.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index c4d4c4b..fdd61d4 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -998,6 +998,12 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
+        // a complaint received before the deal may be about another session, the
+        // dealer is not to blame for not answering that one
+        if self.deal.is_none() && j.deal.session_id != r.session_id {
+            return Err(VSSError::DealInvalidSessionId);
+        }
+
         // the deal must be the one the complaint is about
         let verification = if j.deal.sec_share.i != j.index as usize {
             Err(VSSError::DealWrongIndex)
-- 
2.43.0


From 5b3765e5a9313caa2e389faa6f872050c70c719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 63/69] fix: pedersen vss verifier stayed in the wrong session
 announced by a bad deal

---
 src/share/vss/pedersen/vss.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index fdd61d4..ff4569c 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -890,9 +890,18 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
+        // the session id is what binds every deal of the dealer to the same
+        // commitments and threshold, the one announced in the deal may be wrong
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
         if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
-            self.sid = d.session_id.clone();
+            self.sid = sid.clone();
             self.deal = Some(d.clone());
             if self.t == 0 {
                 self.t = d.t;
@@ -911,20 +920,7 @@ where
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
-        if self.deal.is_some() && self.sid != d.session_id {
-            return Err(VSSError::DealInvalidSessionId);
-        }
-
-        // the session id is what binds every deal of the dealer to the same
-        // commitments and threshold
-        let sid = session_id(
-            &self.suite,
-            &self.dealer,
-            &self.verifiers,
-            &d.commitments,
-            d.t,
-        )?;
-        if sid != d.session_id {
+        if sid != d.session_id || (self.deal.is_some() && self.sid != sid) {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From d39b61e6f1cee67f2ce2704f187d0e53088b5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 64/69] fix: rabin vss verifier stayed in the wrong session
 announced by a bad deal

---
 src/share/vss/rabin/vss.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index d5cbffd..9323cb5 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -894,9 +894,18 @@ where
         if self.deal.is_some() && inclusion {
             return Err(VSSError::DealAlreadyProcessed);
         }
+        // the session id is what binds every deal of the dealer to the same
+        // commitments and threshold, the one announced in the deal may be wrong
+        let sid = session_id(
+            &self.suite,
+            &self.dealer,
+            &self.verifiers,
+            &d.commitments,
+            d.t,
+        )?;
         if self.deal.is_none() && inclusion {
             self.commits = d.commitments.clone();
-            self.sid = d.session_id.clone();
+            self.sid = sid.clone();
             self.deal = Some(d.clone());
         }
 
@@ -908,20 +917,7 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if self.sid != d.session_id {
-            return Err(VSSError::DealInvalidSessionId);
-        }
-
-        // the session id is what binds every deal of the dealer to the same
-        // commitments and threshold
-        let sid = session_id(
-            &self.suite,
-            &self.dealer,
-            &self.verifiers,
-            &d.commitments,
-            d.t,
-        )?;
-        if sid != d.session_id {
+        if sid != d.session_id || self.sid != sid {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From cc1c04d08c2467fddcd23fcfba41ef2f575d5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:15 +0000
Subject: [PATCH 65/69] fix: resharing accepted justifications of deals not
 sharing the old share

---
 src/share/dkg/pedersen/dkg.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 50cd03b..b2e8098 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -691,7 +691,17 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
-        Ok(v.process_justification(&j.justification)?)
+        v.process_justification(&j.justification)?;
+
+        if self.is_resharing {
+            // as for deals, the dealer must share its own share
+            let expected_pub_share = self.dpub.eval(j.index as usize);
+            if j.justification.deal.commitments.first() != Some(&expected_pub_share.v) {
+                v.bad_dealer = true;
+                return Err(DKGError::ShareDoesNotMatchPublicPoly);
+            }
+        }
+        Ok(())
     }
 
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
-- 
2.43.0


From c8608e07fd6930745001db4f1cb167a5cf627a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 66/69] fix: deserialized points were neither checked to be on
 the curve nor to have coordinates in range

---
 src/group/edwards25519/ge.rs    | 52 +++++++++++++++++++++++++++++++++
 src/group/edwards25519/point.rs | 25 ++++++++++++++++
 2 files changed, 77 insertions(+)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index 37a6cf6..eeac4b6 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -178,6 +178,58 @@ impl ExtendedGroupElement {
         true
     }
 
+    /// [`is_valid()`] checks that the coordinates are within the bounds the field
+    /// arithmetic relies on, and that they represent a point of the curve.
+    pub(crate) fn is_valid(&self) -> bool {
+        // 1.1 * 2^25 and 1.1 * 2^24, see the bounds in the fe module
+        let in_bounds = |f: &FieldElement| {
+            f.iter().enumerate().all(|(i, l)| {
+                l.unsigned_abs() <= if i % 2 == 0 { 36_909_875 } else { 18_454_937 }
+            })
+        };
+        if ![self.x, self.y, self.z, self.t].iter().all(in_bounds) {
+            return false;
+        }
+        if fe_is_non_zero(&self.z) == 0 {
+            return false;
+        }
+
+        let mut left = FieldElement::default();
+        let mut right = FieldElement::default();
+        let mut check = FieldElement::default();
+
+        // x * y = z * t
+        fe_mul(&mut left, &self.x, &self.y);
+        fe_mul(&mut right, &self.z, &self.t);
+        fe_sub(&mut check, &left, &right);
+        if fe_is_non_zero(&check) == 1 {
+            return false;
+        }
+
+        // y^2 - x^2 = z^2 + d * t^2
+        let mut xx = FieldElement::default();
+        let mut yy = FieldElement::default();
+        let mut zz = FieldElement::default();
+        let mut tt = FieldElement::default();
+        let mut dtt = FieldElement::default();
+        fe_square(&mut xx, &self.x);
+        fe_square(&mut yy, &self.y);
+        fe_square(&mut zz, &self.z);
+        fe_square(&mut tt, &self.t);
+        fe_mul(&mut dtt, &tt, &D);
+        fe_sub(&mut left, &yy, &xx);
+        fe_add(&mut right, &zz, &dtt);
+        // carry both sides before comparing them
+        let mut one = FieldElement::default();
+        fe_one(&mut one);
+        let mut l = FieldElement::default();
+        let mut r = FieldElement::default();
+        fe_mul(&mut l, &left, &one);
+        fe_mul(&mut r, &right, &one);
+        fe_sub(&mut check, &l, &r);
+        fe_is_non_zero(&check) == 0
+    }
+
     #[allow(dead_code)]
     pub fn string(&self) -> String {
         "extendedGroupElement{\n\t".to_owned()
diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index f1e5593..21eaecd 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -21,11 +21,36 @@ use super::{
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
 #[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedPoint")]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
 }
 
+/// [`UncheckedPoint`] is a deserialized [`Point`] which may not be on the curve
+#[derive(Deserialize)]
+#[serde(rename = "Point")]
+struct UncheckedPoint {
+    ge: ExtendedGroupElement,
+    var_time: bool,
+}
+
+impl TryFrom<UncheckedPoint> for Point {
+    type Error = MarshallingError;
+
+    fn try_from(p: UncheckedPoint) -> Result<Self, Self::Error> {
+        if !p.ge.is_valid() {
+            return Err(MarshallingError::InvalidInput(
+                "invalid Ed25519 curve point".to_owned(),
+            ));
+        }
+        Ok(Point {
+            ge: p.ge,
+            var_time: p.var_time,
+        })
+    }
+}
+
 impl Point {
     pub fn new() -> Self {
         Self::default()
-- 
2.43.0


From 5b78f297fdd0a6937d35517b82b752686ddd2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:46 +0000
Subject: [PATCH 67/69] fix: pedersen dkg kept refused responses received
 before its own deal

---
 src/share/dkg/pedersen/dkg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index b2e8098..4a331c3 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -618,6 +618,13 @@ where
             // dealers do not respond to their own deal, see process_deal()
             return Err(DKGError::ResponseFromDealer);
         }
+        if self.can_issue
+            && resp.index as usize == self.oidx
+            && resp.response.session_id != self.dealer.session_id()
+        {
+            // nothing to keep, even if our deal did not reach our verifier yet
+            return Err(share::vss::VSSError::ResponseInconsistentSessionId.into());
+        }
         v.process_response(&resp.response)?;
         if !self.is_resharing {
             // the dealer approves its own deal, also at the nodes that miss the deal
-- 
2.43.0


From c44ba96933de6b436fed4e9246a96a5b9d98ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 68/69] fix: the default point was not a group element

---
 src/group/edwards25519/ge.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index eeac4b6..64df225 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -72,9 +72,7 @@ fn test_from_bytes() {
     assert!(el.set_bytes(&arr));
 }
 
-#[derive(
-    Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default, Serialize, Deserialize,
-)]
+#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Serialize, Deserialize)]
 pub struct ExtendedGroupElement {
     pub x: FieldElement,
     pub y: FieldElement,
@@ -82,6 +80,20 @@ pub struct ExtendedGroupElement {
     pub t: FieldElement,
 }
 
+impl Default for ExtendedGroupElement {
+    /// The neutral element: an element of all zeros is not on the curve.
+    fn default() -> Self {
+        let mut one = FieldElement::default();
+        fe_one(&mut one);
+        ExtendedGroupElement {
+            x: FieldElement::default(),
+            y: one,
+            z: one,
+            t: FieldElement::default(),
+        }
+    }
+}
+
 impl ExtendedGroupElement {
     pub fn neg(&mut self, s: &Self) {
         fe_neg(&mut self.x, &s.x);
-- 
2.43.0


From b58a8800ea9ccf0f87416694ba151a424b19949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 69/69] fix: the debug representation of an EdDSA key contained
 its secret and seed

---
 src/sign/eddsa/eddsa_sig.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 1a7ad9c..19c0f37 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -14,7 +14,7 @@ use crate::{Group, Point, Scalar};
 
 /// [`EdDSA`] is a structure holding the data necessary to make a series of
 /// `EdDSA signatures`.
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Serialize, Deserialize)]
 pub struct EdDSA<GROUP: Group> {
     /// `secret` being already hashed + bit tweaked
     pub secret: <GROUP::POINT as Point>::SCALAR,
@@ -24,6 +24,14 @@ pub struct EdDSA<GROUP: Group> {
     pub prefix: Vec<u8>,
 }
 
+impl<GROUP: Group> core::fmt::Debug for EdDSA<GROUP> {
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("EdDSA")
+            .field("public", &self.public)
+            .finish()
+    }
+}
+
 const GROUP: Curve = Curve::new();
 
 impl EdDSA<Curve> {
-- 
2.43.0

