From a76dbb6b099d1400923cf1133a753fd859b881da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 1/8] fix: PoprfServer::evaluate hashes absent info like empty
 info

The client frames absent info as empty info in the output hash, the server
left the segment out, so both sides disagreed when info was None.
---
 src/poprf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index a0fd531..f57ab1f 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -418,7 +418,8 @@ where
 
         let issued_element = CS::Group::serialize_elem(evaluated_element);
 
-        server_evaluate_hash_input::<CS>(input, info, issued_element)
+        // None for info is treated the same as empty bytes
+        server_evaluate_hash_input::<CS>(input, Some(info.unwrap_or_default()), issued_element)
     }
 
     /// Retrieves the server's public key
-- 
2.43.0


From 707537d527c1ecc52952a61620c10fa576c56fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 2/8] fix: reject truncated scalar encodings for NIST curves

SecretKey::from_slice pads short input with zeros, so a scalar had more than
one accepted encoding.
---
 src/group/elliptic_curve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index e74b1c2..2bf3e6b 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -14,7 +14,7 @@ use elliptic_curve::sec1::{FromEncodedPoint, ModulusSize, ToEncodedPoint};
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
-use generic_array::typenum::{IsLess, IsLessOrEqual, U256};
+use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U256};
 use generic_array::GenericArray;
 use rand_core::{CryptoRng, RngCore};
 
@@ -101,6 +101,11 @@ where
     }
 
     fn deserialize_scalar(scalar_bits: &[u8]) -> Result<Self::Scalar> {
+        // `SecretKey::from_slice` also accepts shorter, zero-padded encodings.
+        if scalar_bits.len() != Self::ScalarLen::USIZE {
+            return Err(Error::Deserialization);
+        }
+
         SecretKey::<Self>::from_slice(scalar_bits)
             .map(|secret_key| *secret_key.to_nonzero_scalar())
             .map_err(|_| Error::Deserialization)
-- 
2.43.0


From bb602f17b1bd6ebbd7ea6d91776bf1b896cac621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 3/8] fix: accept only compressed element encodings for NIST
 curves

The compact (0x05) and uncompressed SEC1 encodings were accepted as well, so
an element had more than one accepted encoding.
---
 src/group/elliptic_curve.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/group/elliptic_curve.rs b/src/group/elliptic_curve.rs
index 2bf3e6b..e5f37f9 100644
--- a/src/group/elliptic_curve.rs
+++ b/src/group/elliptic_curve.rs
@@ -10,7 +10,7 @@ use digest::core_api::BlockSizeUser;
 use digest::{FixedOutput, HashMarker};
 use elliptic_curve::group::cofactor::CofactorGroup;
 use elliptic_curve::hash2curve::{ExpandMsgXmd, FromOkm, GroupDigest};
-use elliptic_curve::sec1::{FromEncodedPoint, ModulusSize, ToEncodedPoint};
+use elliptic_curve::sec1::{EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint};
 use elliptic_curve::{
     AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,
 };
@@ -74,9 +74,13 @@ where
     }
 
     fn deserialize_elem(element_bits: &[u8]) -> Result<Self::Elem> {
-        PublicKey::<Self>::from_sec1_bytes(element_bits)
-            .map(|public_key| public_key.to_projective())
-            .map_err(|_| Error::Deserialization)
+        // Only the compressed encoding is canonical.
+        EncodedPoint::<Self>::from_bytes(element_bits)
+            .ok()
+            .filter(|point| point.is_compressed())
+            .and_then(|point| Option::from(PublicKey::<Self>::from_encoded_point(&point)))
+            .map(|public_key: PublicKey<Self>| public_key.to_projective())
+            .ok_or(Error::Deserialization)
     }
 
     fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> Self::Scalar {
-- 
2.43.0


From 62d193713959916b36ed2803e954296bd7f5b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 4/8] fix: refuse to blind inputs longer than u16::MAX

blind documents Error::Input for such inputs but accepted them; the failure
only showed in finalize.
---
 src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index f790edd..5289eca 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -447,7 +447,7 @@ where
     Ok(hashed_point * blind)
 }
 
-/// Hashes `input` to a point on the curve
+/// Hashes `input` to a point on the curve. Can only fail with [`Error::Input`].
 pub(crate) fn hash_to_group<CS: CipherSuite>(
     input: &[u8],
     mode: Mode,
@@ -456,6 +456,8 @@ where
     <CS::Hash as OutputSizeUser>::OutputSize:
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
+    i2osp_2(input.len()).map_err(|_| Error::Input)?;
+
     let dst = Dst::new::<CS, _, _>(STR_HASH_TO_GROUP, mode);
     CS::Group::hash_to_curve::<CS::Hash>(&[input], &dst.as_dst()).map_err(|_| Error::Input)
 }
-- 
2.43.0


From de7ef7413f2791153ab6a8992e037f71b9db5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 5/8] fix: refuse to blind inputs that hash to the identity
 element

RFC 9497 Blind raises InvalidInputError in this case, as evaluate already
does.
---
 src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 5289eca..913e721 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -444,6 +444,9 @@ where
         IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,
 {
     let hashed_point = hash_to_group::<CS>(input, mode)?;
+    if CS::Group::is_identity_elem(hashed_point).into() {
+        return Err(Error::Input);
+    };
     Ok(hashed_point * blind)
 }
 
-- 
2.43.0


From ccfc3b2ab545def7ef34693ff13befa9f02eb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 6/8] fix: PoprfServer::batch_blind_evaluate reports oversized
 batches

More than u16::MAX blinded elements made it panic; VoprfServer already
returns Error::Batch.
---
 src/poprf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/poprf.rs b/src/poprf.rs
index f57ab1f..6aa14c1 100644
--- a/src/poprf.rs
+++ b/src/poprf.rs
@@ -285,6 +285,8 @@ where
     /// # Errors
     /// - [`Error::Info`] if the `info` is longer than `u16::MAX`.
     /// - [`Error::Protocol`] if the protocol fails and can't be completed.
+    /// - [`Error::Batch`] if the number of `blinded_elements` is longer than
+    ///   [`u16::MAX`].
     #[cfg(feature = "alloc")]
     pub fn batch_blind_evaluate<'a, R: RngCore + CryptoRng, IE>(
         &self,
@@ -304,15 +306,13 @@ where
 
         let prepared_evaluation_elements: Vec<_> = prepared_evaluation_elements.collect();
 
-        // This can't fail because we know the size of the inputs.
         let PoprfServerBatchEvaluateFinishResult { messages, proof } =
             Self::batch_blind_evaluate_finish::<_, _, Vec<_>>(
                 rng,
                 blinded_elements.into_iter(),
                 &prepared_evaluation_elements,
                 &prepared_tweak,
-            )
-            .unwrap();
+            )?;
 
         let messages: Vec<_> = messages.collect();
 
-- 
2.43.0


From 9a3231b8d7dc380952360d47bb7b592821c275e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 7/8] fix: VoprfClient::batch_finalize rejects a mismatched
 number of inputs

Surplus inputs or elements were silently dropped instead of failing with
Error::Batch as in POPRF mode.
---
 src/voprf.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/voprf.rs b/src/voprf.rs
index 9871952..699c1c2 100644
--- a/src/voprf.rs
+++ b/src/voprf.rs
@@ -155,8 +155,8 @@ where
     /// and [EvaluationElement] pairs
     ///
     /// # Errors
-    /// - [`Error::Batch`] if the number of `clients` and `messages` don't match
-    ///   or is longer then [`u16::MAX`].
+    /// - [`Error::Batch`] if the number of `inputs`, `clients` and `messages`
+    ///   don't match or is longer then [`u16::MAX`].
     /// - [`Error::ProofVerification`] if the `proof` failed to verify.
     ///
     /// The resulting messages can each fail individually with [`Error::Input`]
@@ -179,7 +179,13 @@ where
         <&'a IM as IntoIterator>::IntoIter: ExactSizeIterator,
     {
         let unblinded_elements = verifiable_unblind(clients, messages, pk, proof)?;
-        let inputs_and_unblinded_elements = inputs.into_iter().zip(unblinded_elements);
+        let inputs = inputs.into_iter();
+
+        if inputs.len() != unblinded_elements.len() {
+            return Err(Error::Batch);
+        }
+
+        let inputs_and_unblinded_elements = inputs.zip(unblinded_elements);
         Ok(finalize_after_unblind::<CS, _, _>(
             inputs_and_unblinded_elements,
         ))
-- 
2.43.0


From 5344522f96a1ced224eed9aac66b6dfc9ecf0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:16 +0000
Subject: [PATCH 8/8] fix: export PoprfClientBlindResult and
 PoprfServerEvaluateResult

Both are returned by public operations but could not be named outside the
crate, unlike their VOPRF counterparts.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 512aa72..72dd806 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,9 +582,10 @@ pub use crate::oprf::{OprfClient, OprfClientBlindResult, OprfServer};
 #[cfg(feature = "alloc")]
 pub use crate::poprf::PoprfServerBatchEvaluateResult;
 pub use crate::poprf::{
-    PoprfClient, PoprfClientBatchFinalizeResult, PoprfPreparedTweak, PoprfServer,
-    PoprfServerBatchEvaluateFinishResult, PoprfServerBatchEvaluateFinishedMessages,
+    PoprfClient, PoprfClientBatchFinalizeResult, PoprfClientBlindResult, PoprfPreparedTweak,
+    PoprfServer, PoprfServerBatchEvaluateFinishResult, PoprfServerBatchEvaluateFinishedMessages,
     PoprfServerBatchEvaluatePrepareResult, PoprfServerBatchEvaluatePreparedEvaluationElements,
+    PoprfServerEvaluateResult,
 };
 pub use crate::serialization::{
     BlindedElementLen, EvaluationElementLen, OprfClientLen, OprfServerLen, PoprfClientLen,
-- 
2.43.0

