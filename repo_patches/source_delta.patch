From dd84881b0356d65330f27c01751b919aacc89bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 01/14] fix: accept a zero-length read at the end of a DER
 input

After its leading zero byte is stripped, an INTEGER of value 0 has no
content left. When it is the last element of the input, reading these
zero bytes was reported as an error, so a signature with s = 0 could not
be decoded from its own DER encoding.
---
 core/src/der.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..85a8b51 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if (len == 0 && self.1 >= self.0.len()) || self.1 + len > self.0.len() {
+        if self.1 + len > self.0.len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From d156db70f6c4f164cbaebb3fde48afeaecd07618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 02/14] fix: skip over-long integers in lax DER

The content of an INTEGER with more than 32 significant bytes was left
unread, so the next INTEGER was decoded from inside of it.
---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 85a8b51..806acbe 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -254,10 +254,10 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - len..].copy_from_slice(&self.peek_slice(len)?);
-            self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
+        self.skip(len)?;
 
         if overflow {
             int = Scalar::default();
-- 
2.43.0


From 1c681767a08c9cd28668a4ad4ccf63f87eb49805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 03/14] fix: print scalars in big-endian word order

LowerHex printed the least significant word first, but each word in big
endian, so the text denoted neither byte order of the value.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..2a055f3 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -1022,7 +1022,7 @@ impl<'a> Neg for &'a Scalar {
 
 impl core::fmt::LowerHex for Scalar {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for word in &self.0[..] {
+        for word in self.0.iter().rev() {
             for byte in word.to_be_bytes().iter() {
                 write!(f, "{:02x}", byte)?;
             }
-- 
2.43.0


From 6069ad6a29c608df20c0ea915dfb3982da64903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:33 +0000
Subject: [PATCH 04/14] fix: build without the std feature

The base64 imports are only used by the serde implementations, which
need std, and unused imports are denied.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b09b0e..3c127a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@
 pub use libsecp256k1_core::*;
 
 use arrayref::{array_mut_ref, array_ref};
+#[cfg(feature = "std")]
 use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 use core::convert::TryFrom;
 use digest::{generic_array::GenericArray, Digest};
-- 
2.43.0


From e8af003308786fcfb19d55b5005f939521ea80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 05/14] fix: reject out-of-range scalars as secret keys

The fields of a Scalar are public, so one can hold a value which is not
below the curve order. Converting it gave a secret key that its own
encoding does not decode to.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3c127a4..90a2291 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -499,7 +499,10 @@ impl TryFrom<Scalar> for SecretKey {
     type Error = Error;
 
     fn try_from(scalar: Scalar) -> Result<Self, Error> {
-        if scalar.is_zero() {
+        // A raw scalar is not necessarily reduced.
+        let overflowed = bool::from(Scalar::default().set_b32(&scalar.b32()));
+
+        if overflowed || scalar.is_zero() {
             Err(Error::InvalidSecretKey)
         } else {
             Ok(Self(scalar))
-- 
2.43.0


From c8ddeb9b086d29114208b6ae95fb270cc992e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 06/14] fix: reject over-long integers in strict DER

The content of an INTEGER with more than 32 significant bytes was left
unread, so a SEQUENCE of a single such INTEGER was accepted when its
content happened to have the form of another INTEGER.
---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 806acbe..08ab566 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -167,7 +167,7 @@ impl<'a> Decoder<'a> {
         }
 
         if rlen > 32 {
-            overflow |= true;
+            return Err(Error::InvalidSignature);
         }
 
         let mut int = Scalar::default();
-- 
2.43.0


From fb6ee8cca826c14520cc92f945abf266c02a6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 07/14] fix: do not treat (n-1)/2 as a high scalar

---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 2a055f3..c35238a 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From d623861583cec4c5d95bfca48fa382e5db79c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:14 +0000
Subject: [PATCH 08/14] fix: clear field elements and points with volatile
 writes

Field::clear was a plain assignment, which the optimiser removes when
the value goes out of scope right after it, so a cleared field element or
point stayed in memory.
---
 core/src/field.rs | 8 +++++---
 core/src/group.rs | 8 ++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 7e1b39f..f69f5ce 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -519,9 +519,11 @@ impl Field {
 
     /// Sets a field element equal to zero, initializing all fields.
     pub fn clear(&mut self) {
-        self.magnitude = 0;
-        self.normalized = true;
-        self.n = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
+        unsafe {
+            core::ptr::write_volatile(&mut self.magnitude, 0);
+            core::ptr::write_volatile(&mut self.normalized, true);
+            core::ptr::write_volatile(&mut self.n, [0u32; 10]);
+        }
     }
 
     /// Set a field element equal to 32-byte big endian value. If
diff --git a/core/src/group.rs b/core/src/group.rs
index e713a62..f0b3567 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -208,7 +208,9 @@ impl Affine {
 
     /// Clear a secp256k1_ge to prevent leaking sensitive information.
     pub fn clear(&mut self) {
-        self.infinity = false;
+        unsafe {
+            core::ptr::write_volatile(&mut self.infinity, false);
+        }
         self.x.clear();
         self.y.clear();
     }
@@ -665,7 +667,9 @@ impl Jacobian {
     /// Clear a secp256k1_gej to prevent leaking sensitive
     /// information.
     pub fn clear(&mut self) {
-        self.infinity = false;
+        unsafe {
+            core::ptr::write_volatile(&mut self.infinity, false);
+        }
         self.x.clear();
         self.y.clear();
         self.z.clear();
-- 
2.43.0


From 2bb2e68354f1599c18842eda290c380a16604f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:14 +0000
Subject: [PATCH 09/14] fix: accept a long-form DER length that ends exactly at
 the end of the input

---
 core/src/der.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 08ab566..d3e7f39 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -123,7 +123,7 @@ impl<'a> Decoder<'a> {
         let mut ret = 0;
         while lenleft > 0 {
             ret = (ret << 8) | (self.read()? as usize);
-            if ret + lenleft > self.remaining_len() {
+            if ret + (lenleft - 1) > self.remaining_len() {
                 return Err(Error::InvalidSignature);
             }
             lenleft -= 1;
-- 
2.43.0


From ddf9917e640c7f226570a9ba21afe2628b02f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 10/14] fix: select field elements without secret-dependent
 branches

cmov of Field and FieldStorage (and AffineStorage, built on it) is documented
as constant time, but in optimised builds the if expressions were compiled to
branches and to loads from secret-dependent addresses. Derivation, signing and
key agreement select table entries with it. Use subtle's selection, as the
scalar code already does.
---
 core/src/field.rs | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index f69f5ce..73f2ae6 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -2,6 +2,7 @@ use core::{
     cmp::Ordering,
     ops::{Add, AddAssign, Mul, MulAssign},
 };
+use subtle::{Choice, ConditionallySelectable};
 
 macro_rules! debug_assert_bits {
     ($x: expr, $n: expr) => {
@@ -1640,26 +1641,14 @@ impl Field {
     /// If flag is true, set *r equal to *a; otherwise leave
     /// it. Constant-time.
     pub fn cmov(&mut self, other: &Field, flag: bool) {
-        self.n[0] = if flag { other.n[0] } else { self.n[0] };
-        self.n[1] = if flag { other.n[1] } else { self.n[1] };
-        self.n[2] = if flag { other.n[2] } else { self.n[2] };
-        self.n[3] = if flag { other.n[3] } else { self.n[3] };
-        self.n[4] = if flag { other.n[4] } else { self.n[4] };
-        self.n[5] = if flag { other.n[5] } else { self.n[5] };
-        self.n[6] = if flag { other.n[6] } else { self.n[6] };
-        self.n[7] = if flag { other.n[7] } else { self.n[7] };
-        self.n[8] = if flag { other.n[8] } else { self.n[8] };
-        self.n[9] = if flag { other.n[9] } else { self.n[9] };
-        self.magnitude = if flag {
-            other.magnitude
-        } else {
-            self.magnitude
-        };
-        self.normalized = if flag {
-            other.normalized
-        } else {
-            self.normalized
-        };
+        let choice = Choice::from(flag as u8);
+        for i in 0..10 {
+            self.n[i].conditional_assign(&other.n[i], choice);
+        }
+        self.magnitude.conditional_assign(&other.magnitude, choice);
+        let mut normalized = self.normalized as u8;
+        normalized.conditional_assign(&(other.normalized as u8), choice);
+        self.normalized = normalized == 1;
     }
 }
 
@@ -1795,14 +1784,10 @@ impl FieldStorage {
     }
 
     pub fn cmov(&mut self, other: &FieldStorage, flag: bool) {
-        self.0[0] = if flag { other.0[0] } else { self.0[0] };
-        self.0[1] = if flag { other.0[1] } else { self.0[1] };
-        self.0[2] = if flag { other.0[2] } else { self.0[2] };
-        self.0[3] = if flag { other.0[3] } else { self.0[3] };
-        self.0[4] = if flag { other.0[4] } else { self.0[4] };
-        self.0[5] = if flag { other.0[5] } else { self.0[5] };
-        self.0[6] = if flag { other.0[6] } else { self.0[6] };
-        self.0[7] = if flag { other.0[7] } else { self.0[7] };
+        let choice = Choice::from(flag as u8);
+        for i in 0..8 {
+            self.0[i].conditional_assign(&other.0[i], choice);
+        }
     }
 }
 
-- 
2.43.0


From e1811e7e502eb49e205866276fda60ec404877d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 11/14] fix: no short-circuit evaluation in the unified
 addition

add_ge and normalizes_to_zero, the constant-time counterparts of the _var
functions, branched on whether intermediate values are zero: key agreement with
the secret key n-1-lambda, for one, took a path of its own.
---
 core/src/field.rs |  2 +-
 core/src/group.rs | 14 ++------------
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/core/src/field.rs b/core/src/field.rs
index 73f2ae6..44387b3 100644
--- a/core/src/field.rs
+++ b/core/src/field.rs
@@ -395,7 +395,7 @@ impl Field {
 
         debug_assert!(t9 >> 23 == 0);
 
-        z0 == 0 || z1 == 0x3ffffff
+        (z0 == 0) | (z1 == 0x3ffffff)
     }
 
     /// Verify whether a field element represents zero i.e. would
diff --git a/core/src/group.rs b/core/src/group.rs
index f0b3567..0c46129 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -477,7 +477,7 @@ impl Jacobian {
         let mut m_alt = u2.neg(1);
         let tt = u1 * m_alt;
         rr += tt;
-        let degenerate = m.normalizes_to_zero() && rr.normalizes_to_zero();
+        let degenerate = m.normalizes_to_zero() & rr.normalizes_to_zero();
         let mut rr_alt = s1;
         rr_alt.mul_int(2);
         m_alt += u1;
@@ -492,17 +492,7 @@ impl Jacobian {
         n.cmov(&m, degenerate);
         t = rr_alt.sqr();
         self.z = a.z * m_alt;
-        let infinity = {
-            let p = self.z.normalizes_to_zero();
-            let q = a.infinity;
-
-            match (p, q) {
-                (true, true) => false,
-                (true, false) => true,
-                (false, true) => false,
-                (false, false) => false,
-            }
-        };
+        let infinity = self.z.normalizes_to_zero() & !a.infinity;
         self.z.mul_int(2);
         q = q.neg(1);
         t += q;
-- 
2.43.0


From 0f0569006c61b56495449ef5dfb4609803aa670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:31 +0000
Subject: [PATCH 12/14] fix: bounds checks of the DER reader must not overflow

peek, peek_slice and skip added the given length to the position before
comparing it, so a length near the largest usize panicked in checked builds
and, in release builds, returned other octets or moved the cursor back.
---
 core/src/der.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index d3e7f39..f17b9c3 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -55,7 +55,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek(&self, forward: usize) -> Result<u8, Error> {
-        if self.1 + forward >= self.0.len() {
+        if forward >= self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = self.0[self.1 + forward];
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn peek_slice(&self, len: usize) -> Result<&[u8], Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             let v = &self.0[self.1..(self.1 + len)];
@@ -73,7 +73,7 @@ impl<'a> Decoder<'a> {
     }
 
     pub fn skip(&mut self, len: usize) -> Result<(), Error> {
-        if self.1 + len > self.0.len() {
+        if len > self.remaining_len() {
             Err(Error::InvalidSignature)
         } else {
             self.1 += len;
-- 
2.43.0


From 932d9003e104813c4c7bc5b74d8153c47a86dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:39 +0000
Subject: [PATCH 13/14] fix: reading all 32 bits of a scalar's limb

Scalar::bits is documented for any bits of one limb, but a count of 32
shifted past the mask: a checked build panicked and an optimised one
returned zero.
---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index c35238a..804f826 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -49,7 +49,7 @@ impl Scalar {
     /// the same 32-bit limb.
     pub fn bits(&self, offset: usize, count: usize) -> u32 {
         debug_assert!((offset + count - 1) >> 5 == offset >> 5);
-        (self.0[offset >> 5] >> (offset & 0x1F)) & ((1 << count) - 1)
+        (self.0[offset >> 5] >> (offset & 0x1F)) & (((1u64 << count) - 1) as u32)
     }
 
     /// Access bits from a scalar. Not constant time.
-- 
2.43.0


From 801cfbecec2f1a44ca40cb45dba62a2e035f5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:25 +0000
Subject: [PATCH 14/14] fix: double_nonzero_in_place asserts on its operand,
 not on its target

---
 core/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index 0c46129..8617df7 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -337,7 +337,7 @@ impl Jacobian {
     /// a->z * *rzr (where infinity means an implicit z = 0). a may
     /// not be zero. Constant time.
     pub fn double_nonzero_in_place(&mut self, a: &Jacobian, rzr: Option<&mut Field>) {
-        debug_assert!(!self.is_infinity());
+        debug_assert!(!a.is_infinity());
         self.double_var_in_place(a, rzr);
     }
 
-- 
2.43.0

