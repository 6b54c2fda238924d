From e19d689364ed344c0db98ad3eed4edb677798139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:12 +0000
Subject: [PATCH 1/8] fix: compare all sixteen limbs in field equality

decaf_equal ignored the most significant limb, so two field elements that
differ only there compared equal and points off the curve could be decoded.
---
 src/bignumber.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index e2b1d23..2bbc34d 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -536,6 +536,7 @@ pub fn decaf_equal(n: &BigNumber, x: &BigNumber) -> Word {
     ret |= y[12];
     ret |= y[13];
     ret |= y[14];
+    ret |= y[15];
 
     is_zero_mask(ret)
 }
-- 
2.43.0


From a36efcc2155657f9c63e87f3aa8934bd1bc701b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 2/8] fix: decide correctly whether an encoded coordinate is
 below the field prime

The comparison in dsa_like_deserialize used a modulus in the wrong limb size
and a broken borrow chain: encodings of y >= p were accepted, and some
canonical ones (top limbs small) were refused.
---
 src/bignumber.rs   | 5 ++---
 src/constants32.rs | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bignumber.rs b/src/bignumber.rs
index 2bbc34d..9f8e705 100644
--- a/src/bignumber.rs
+++ b/src/bignumber.rs
@@ -628,9 +628,8 @@ pub fn dsa_like_deserialize(input: &[u8], mask: usize) -> (BigNumber, Word) {
         }
         fill -= RADIX;
         buffer >>= RADIX;
-        // TODO CHECK SCARRY NOT SURE IF CORRECT
-        scarry = ((u32::wrapping_sub(u32::wrapping_add(scarry as Word, n[i]), MODULUS[i]) >> 8) * 4)
-            as Sdword;
+        // Borrow of n - p: ends as -1 exactly when n is below the modulus.
+        scarry = (scarry + n[i] as Sdword - MODULUS[i] as Sdword) >> WORD_BITS;
     }
 
     (
diff --git a/src/constants32.rs b/src/constants32.rs
index b1fbaa3..29e753e 100644
--- a/src/constants32.rs
+++ b/src/constants32.rs
@@ -63,6 +63,6 @@ pub const SCALAR_ZERO: [Word; SCALAR_WORDS] = [
     0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 pub const MODULUS: BigNumber = [
-    0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
-    0xfffffe, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff, 0xffffff, 0xffffffff,
+    0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
+    0xffffffe, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff, 0xfffffff,
 ];
-- 
2.43.0


From e3f71d3c97dcb4ee7674bf981eeb73ca3c53c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 3/8] fix: refuse encodings of x = 0 with the sign bit set

RFC 8032 section 5.2.3 makes decoding fail there; accepting it gave the
points with x = 0 a second encoding.
---
 src/extended_point.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_point.rs b/src/extended_point.rs
index 72b1d08..34753b7 100644
--- a/src/extended_point.rs
+++ b/src/extended_point.rs
@@ -535,6 +535,8 @@ pub fn eddsa_like_decode(src_org: &[u8]) -> Result<TwistedExtendedPoint, Libgold
     p.x = mul(&p.z, &p.t);
     p.t = isr(&p.x);
     p.x = mul(&p.t, &p.z);
+    // RFC 8032, 5.2.3: x = 0 has no negative form
+    succ &= !(decaf_equal(&p.x, &BIG_ZERO) & low);
     p.x = decaf_cond_negate(&p.x, &(!(low_bit(&p.x)) ^ low));
     p.z = BIG_ONE;
 
-- 
2.43.0


From 58304ea3f4035b344a63e12c1d96e18472066d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 4/8] fix: hash the public key bytes as given when verifying

The challenge was computed over a re-encoding of the cofactor-cleared public
key, so a signature also verified under public keys that differ from the
signer's by a small-order component, and RFC 8032 signatures under such keys
were refused.
---
 src/eddsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 0580513..8fd66eb 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -87,7 +87,7 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
 
     let mut challenge: [u8; 114] = [0; 114];
     let mut h = sig1.to_vec();
-    h.append(&mut p.eddsa_like_encode().to_vec());
+    h.extend_from_slice(pubkey);
     h.append(&mut message.to_vec());
     hash_with_dom(&mut h, &mut challenge);
 
-- 
2.43.0


From 712c5afa1b3c8d4cd73f0bdf986610fedee6dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 5/8] fix: refuse signatures whose response scalar is not below
 the group order

S was silently reduced, so S plus any multiple of the order also verified.
---
 src/eddsa.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index 8fd66eb..aee1dc2 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -5,7 +5,7 @@ use sha3::{
 
 use crate::{
     extended_point::{eddsa_like_decode, TwistedExtendedPoint},
-    scalar::{decode_long, sub, Scalar},
+    scalar::{decode_long, encode, sub, Scalar},
 };
 
 use crate::errors::LibgoldilockErrors;
@@ -95,6 +95,10 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     challenge_scalar = sub(&scalar_zero, &challenge_scalar);
 
     let responce_scalar = decode_long(&sig2);
+    // RFC 8032, 5.2.7: the response must be below the group order
+    if encode(&responce_scalar) != sig2 {
+        return Ok(false);
+    }
 
     let pk = p2.point_double_scalamul_non_secret(&responce_scalar, &challenge_scalar);
 
-- 
2.43.0


From 87d4b1f263a896d3e87eb6fde3f40558114c22ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:48 +0000
Subject: [PATCH 6/8] fix: return an error for signatures shorter than 114
 bytes

Verification panicked on the slice instead of reporting the signature length.
---
 src/eddsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eddsa.rs b/src/eddsa.rs
index aee1dc2..b73d43c 100644
--- a/src/eddsa.rs
+++ b/src/eddsa.rs
@@ -56,6 +56,9 @@ pub fn dsa_verify(pubkey: &[u8], sig: &[u8], message: &[u8]) -> Result<bool, Lib
     let scalar_four: Scalar = [4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
     let mut p2 = p.clone();
     p2 = p2.point_scalar_mul(&scalar_four);
+    if sig.len() < 57 + 57 {
+        return Err(LibgoldilockErrors::InvalidSignatureLengthError);
+    }
     let mut sig1: [u8; 57] = [0; 57];
     let mut sig2: [u8; 57] = [0; 57];
 
-- 
2.43.0


From 79b5ac2859e1cc1a10501f40308517269beba530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:13 +0000
Subject: [PATCH 7/8] fix: report malformed keys as deserialization errors

Deserializing a key from a string that is not 114 hex digits panicked.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 70536b6..ee5342f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,11 @@ impl Signature {
     }
 }
 
+// Deserialization has to report malformed keys; the from_str constructors panic.
+fn check_key_hex(s: &str) -> Result<(), hex::FromHexError> {
+    hex::decode_to_slice(s, &mut [0; 57])
+}
+
 impl Serialize for SigningKey {
     fn serialize<S>(&self, serializer: S) -> core::result::Result<S::Ok, S::Error>
     where
@@ -184,6 +189,7 @@ impl<'de> Deserialize<'de> for SigningKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
+            check_key_hex(&s).map_err(de::Error::custom)?;
             Ok(SigningKey::from_str(&s))
         } else {
             Err(de::Error::custom("Expected a string"))
@@ -208,6 +214,7 @@ impl<'de> Deserialize<'de> for SecretKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
+            check_key_hex(&s).map_err(de::Error::custom)?;
             Ok(SecretKey::from_str(&s))
         } else {
             Err(de::Error::custom("Expected a string"))
@@ -232,6 +239,7 @@ impl<'de> Deserialize<'de> for VerifyingKey {
     {
         if deserializer.is_human_readable() {
             let s = String::deserialize(deserializer)?;
+            check_key_hex(&s).map_err(de::Error::custom)?;
             Ok(VerifyingKey::from_str(&s))
         } else {
             Err(de::Error::custom("Expected a string"))
-- 
2.43.0


From 542c8b23bbcb8f03b290de27b16b2ab2e68182e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:01 +0000
Subject: [PATCH 8/8] verification hooks: re-export internals under
 cfg(verif_hooks)

---
 src/lib.rs         |  3 +++
 src/verif_hooks.rs | 11 +++++++++++
 2 files changed, 14 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index ee5342f..231cec0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::should_implement_trait)]
+#![allow(unexpected_cfgs)]
 mod bignumber;
 mod constants32;
 mod decaf_combs_32;
@@ -10,6 +11,8 @@ pub mod goldilocks;
 mod karatsuba_32;
 mod karatsuba_square_32;
 mod scalar;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 use crate::errors::LibgoldilockErrors;
 use goldilocks::{ed448_derive_public, ed448_sign, hex_to_private_key};
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..6bd69cc
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,11 @@
+//! Internals made visible to external verification harnesses.
+//! Compiled only with `--cfg verif_hooks`; not part of the public API.
+pub mod field {
+    pub use crate::bignumber::*;
+}
+pub mod scalar {
+    pub use crate::scalar::*;
+}
+pub mod point {
+    pub use crate::extended_point::*;
+}
-- 
2.43.0

