From 19b94e92a414b302ffd055fe6a0aae9a14cfe010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 01/23] fix: read the sign of the RNS scaling correction from
 the top bit

---
 crates/fhe-math/src/rns/scaler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rns/scaler.rs b/crates/fhe-math/src/rns/scaler.rs
index 064a17b..ddd8df8 100644
--- a/crates/fhe-math/src/rns/scaler.rs
+++ b/crates/fhe-math/src/rns/scaler.rs
@@ -302,7 +302,8 @@ impl RnsScaler {
             }
 
             // Let's compute w = round(sum_theta_omega / 2^(192)).
-            w_sign = (sum_theta_omega >> (63 + 128)) > u256::ZERO;
+            // The sum is a two's complement value: its sign is its top bit.
+            w_sign = (sum_theta_omega >> 255) > u256::ZERO;
 
             if w_sign {
                 w = ((!sum_theta_omega) >> 126isize).as_u128() + 1;
-- 
2.43.0


From 38331fa90d34e3597dc02c78e5de3501679685e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 02/23] fix: accept any power in multiply_inverse_power_of_x

---
 crates/fhe-math/src/rq/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/mod.rs b/crates/fhe-math/src/rq/mod.rs
index a80af39..c68cee5 100644
--- a/crates/fhe-math/src/rq/mod.rs
+++ b/crates/fhe-math/src/rq/mod.rs
@@ -508,7 +508,8 @@ impl Poly<PowerBasis> {
 
     /// Multiplies a polynomial in PowerBasis representation by x^(-power).
     pub fn multiply_inverse_power_of_x(&mut self, power: usize) -> Result<()> {
-        let shift = ((self.ctx.degree << 1) - power) % (self.ctx.degree << 1);
+        let order = self.ctx.degree << 1;
+        let shift = (order - power % order) % order;
         let mask = self.ctx.degree - 1;
         let mut new_coefficients = Array2::zeros((self.ctx.q.len(), self.ctx.degree));
         izip!(
-- 
2.43.0


From e717c5a8f12ef632efd830f4a858dad0190e3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 03/23] fix: reduce full-length integer vectors in
 single-modulus contexts

---
 crates/fhe-math/src/rq/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 34b5057..5467290 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -147,7 +147,9 @@ impl TryConvertFrom<&Rq> for Poly<NttShoup> {
 
 impl TryConvertFrom<Vec<u64>> for Poly<PowerBasis> {
     fn try_convert_from(mut v: Vec<u64>, ctx: &Arc<Context>, variable_time: bool) -> Result<Self> {
-        if v.len() == ctx.q.len() * ctx.degree {
+        // With a single modulus, a full-length vector holds integers to reduce
+        // like any shorter one.
+        if ctx.q.len() > 1 && v.len() == ctx.q.len() * ctx.degree {
             let coefficients = Array2::from_shape_vec((ctx.q.len(), ctx.degree), v).unwrap();
             Ok(Self {
                 ctx: ctx.clone(),
-- 
2.43.0


From 1568535110e623fad5d5b220a0ef1e8e913cd73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 04/23] fix: reject serialized polynomials of another degree or
 with unreduced coefficients

---
 crates/fhe-math/src/errors.rs     |  4 ++++
 crates/fhe-math/src/rq/convert.rs | 26 +++++++++++++++-----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/fhe-math/src/errors.rs b/crates/fhe-math/src/errors.rs
index 9066e64..68574ec 100644
--- a/crates/fhe-math/src/errors.rs
+++ b/crates/fhe-math/src/errors.rs
@@ -144,6 +144,10 @@ pub enum PolynomialSerializationError {
     /// The serialized coefficient byte count is invalid.
     #[error("Invalid coefficient length: found {actual} bytes, expected {expected}.")]
     InvalidCoefficientCount { actual: usize, expected: usize },
+
+    /// A serialized coefficient is not reduced modulo its modulus.
+    #[error("Coefficient {value} is not reduced modulo {modulus}.")]
+    UnreducedCoefficient { value: u64, modulus: u64 },
 }
 
 #[cfg(test)]
diff --git a/crates/fhe-math/src/rq/convert.rs b/crates/fhe-math/src/rq/convert.rs
index 5467290..977dc84 100644
--- a/crates/fhe-math/src/rq/convert.rs
+++ b/crates/fhe-math/src/rq/convert.rs
@@ -63,7 +63,7 @@ fn parse_proto(
     };
 
     let degree = value.degree as usize;
-    if !degree.is_multiple_of(8) || degree < 8 {
+    if degree != ctx.degree {
         return Err(PolynomialSerializationError::InvalidDegree { degree }.into());
     }
 
@@ -80,16 +80,20 @@ fn parse_proto(
     }
 
     let mut index = 0;
-    let power_basis_coefficients: Vec<u64> = ctx
-        .q
-        .iter()
-        .flat_map(|qi| {
-            let size = qi.serialization_length(degree);
-            let v = qi.deserialize_vec(&value.coefficients[index..index + size]);
-            index += size;
-            v
-        })
-        .collect();
+    let mut power_basis_coefficients: Vec<u64> = Vec::with_capacity(ctx.q.len() * degree);
+    for qi in ctx.q.iter() {
+        let size = qi.serialization_length(degree);
+        let v = qi.deserialize_vec(&value.coefficients[index..index + size]);
+        if let Some(value) = v.iter().find(|vi| **vi >= **qi) {
+            return Err(PolynomialSerializationError::UnreducedCoefficient {
+                value: *value,
+                modulus: **qi,
+            }
+            .into());
+        }
+        power_basis_coefficients.extend(v);
+        index += size;
+    }
 
     Ok((
         representation_from_proto,
-- 
2.43.0


From 30b619957363fa8a44744d633ef1eee75f03fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 05/23] fix: decrypt correctly when the plaintext modulus is
 close to or above the first modulus

---
 crates/fhe/src/bfv/keys/secret_key.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index b339f6a..df20e03 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -224,7 +224,15 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
         let c_pb = Zeroizing::new(c_inner.into_power_basis());
         let d = Zeroizing::new(c_pb.as_ref().scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
-        let poly = match self.par.plaintext.small() {
+        // The first residue of `d + plaintext modulus` determines its value only
+        // when that sum, smaller than twice the plaintext modulus, does not wrap.
+        let small_plaintext = self
+            .par
+            .plaintext
+            .small()
+            .filter(|plaintext_modulus| 2 * ***plaintext_modulus <= self.par.moduli[0]);
+
+        let poly = match small_plaintext {
             Some(plaintext_modulus) => {
                 let mut v = Vec::<u64>::try_from(d.as_ref())?;
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
-- 
2.43.0


From e6aa91fc42d724bc0f88210158cb5f967658732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 06/23] fix: report signed values that do not fit in i64
 instead of panicking

---
 crates/fhe/src/bfv/plaintext.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index f5e863b..9922e0e 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -445,17 +445,18 @@ impl FheDecoder<Plaintext> for Vec<i64> {
             let modulus_int = BigInt::from_biguint(Sign::Plus, modulus_big.clone());
             let half_modulus = modulus_big / 2u32;
 
-            Ok(values
+            values
                 .iter()
                 .map(|value| {
-                    if value >= &half_modulus {
+                    let centered = if value >= &half_modulus {
                         let value_int = BigInt::from_biguint(Sign::Plus, value.clone());
-                        (value_int - &modulus_int).to_i64().unwrap()
+                        (value_int - &modulus_int).to_i64()
                     } else {
-                        value.to_i64().unwrap()
-                    }
+                        value.to_i64()
+                    };
+                    centered.ok_or(crate::PlaintextError::ValueTooLargeForU64.into())
                 })
-                .collect())
+                .collect()
         }
     }
 
-- 
2.43.0


From 858480f829aa2342a2f6904beb4ca4ab510e8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 07/23] fix: reduce encoded values modulo the plaintext modulus

---
 crates/fhe/src/bfv/plaintext_vec.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index be310ca..8c7f3c3 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -76,12 +76,24 @@ impl PlaintextVec {
         variable_time: Option<VariableTime>,
     ) -> Result<Poly<Ntt>> {
         let mut coefficients = vec![0u64; par.degree()];
+        // Values are taken modulo the plaintext modulus.
+        let reduce = |coefficients: &mut [u64]| match par.plaintext.small() {
+            Some(modulus) if variable_time.is_some() => unsafe {
+                modulus.reduce_vec_vt(coefficients)
+            },
+            Some(modulus) => modulus.reduce_vec(coefficients),
+            None => {}
+        };
         match encoding.encoding {
-            EncodingEnum::Poly => coefficients[..value.len()].copy_from_slice(value),
+            EncodingEnum::Poly => {
+                coefficients[..value.len()].copy_from_slice(value);
+                reduce(&mut coefficients);
+            }
             EncodingEnum::Simd => {
                 for (index, &coefficient) in value.iter().enumerate() {
                     coefficients[par.matrix_reps_index_map[index]] = coefficient;
                 }
+                reduce(&mut coefficients);
                 let ntt_operator = par
                     .ntt_operator
                     .as_ref()
@@ -112,6 +124,7 @@ impl PlaintextVec {
             EncodingEnum::Poly => {
                 let mut coefficients = vec![BigUint::zero(); par.degree()];
                 coefficients[..value.len()].clone_from_slice(value);
+                par.plaintext.reduce_vec(&mut coefficients);
                 Ok(
                     Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
                         .into_ntt(),
@@ -121,7 +134,7 @@ impl PlaintextVec {
                 let values = value
                     .iter()
                     .map(|coefficient| {
-                        coefficient
+                        (coefficient % par.plaintext_big())
                             .to_u64()
                             .ok_or(crate::PlaintextError::ValueTooLargeForU64)
                     })
-- 
2.43.0


From fa39d5c01ce4427e222efd4138442a0841e2f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 08/23] fix: supports_expansion overflowed the shift for levels
 of 64 and above

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 728b1ed..b2b9606 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -174,10 +174,12 @@ impl EvaluationKey {
     pub fn supports_expansion(&self, level: usize) -> bool {
         if level == 0 {
             true
-        } else if self.evaluation_key_level == self.par.moduli().len() {
+        } else if self.evaluation_key_level == self.par.moduli().len()
+            || level > self.par.degree().ilog2() as usize
+        {
             false
         } else {
-            let mut ret = level <= self.par.degree().ilog2() as usize;
+            let mut ret = true;
             for l in 0..level {
                 ret &= self.gk.contains_key(&((self.par.degree() >> l) + 1));
             }
-- 
2.43.0


From 67c54e7fdb02385bed1990e8169516a1a45b8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 09/23] fix: serialize equal evaluation keys to equal bytes

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index b2b9606..158d6dc 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -6,6 +6,7 @@ use crate::{Error, Result, SerializationError};
 use fhe_math::rq::{NttShoup, Poly, PowerBasis};
 use fhe_math::zq::Modulus;
 use fhe_traits::{DeserializeParametrized, FheParametrized, Serialize};
+use itertools::Itertools;
 use prost::Message;
 use rand::{CryptoRng, Rng as RngCore};
 use std::collections::{HashMap, HashSet};
@@ -496,7 +497,8 @@ impl EvaluationKeyBuilder {
 impl From<&EvaluationKey> for EvaluationKeyProto {
     fn from(ek: &EvaluationKey) -> Self {
         let mut proto = EvaluationKeyProto::default();
-        for gk in ek.gk.values() {
+        // Hash maps iterate in arbitrary order; equal keys have equal encodings.
+        for (_, gk) in ek.gk.iter().sorted_by_key(|(element, _)| **element) {
             proto.gk.push(GaloisKeyProto::from(gk))
         }
         proto.ciphertext_level = ek.ciphertext_level as u32;
-- 
2.43.0


From 3a50afa7687a28a016438d4b02a0766f6f48f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 10/23] fix: drop the seed of a ciphertext whose polynomials
 are borrowed mutably

---
 crates/fhe/src/bfv/ciphertext.rs      | 3 +++
 crates/fhe/src/bfv/keys/public_key.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ciphertext.rs b/crates/fhe/src/bfv/ciphertext.rs
index 3d59901..c2aae23 100644
--- a/crates/fhe/src/bfv/ciphertext.rs
+++ b/crates/fhe/src/bfv/ciphertext.rs
@@ -39,6 +39,9 @@ impl Deref for Ciphertext {
 
 impl DerefMut for Ciphertext {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The polynomials may change, after which the seed no longer describes
+        // the last one.
+        self.seed = None;
         &mut self.c
     }
 }
diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 5e68e1d..4e585b3 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -28,7 +28,7 @@ impl PublicKey {
         let mut c: Ciphertext = sk.try_encrypt(&zero, rng).unwrap();
         // The polynomials of a public key should not allow for variable time
         // computation.
-        c.iter_mut()
+        c.c.iter_mut()
             .for_each(|p| p.disallow_variable_time_computations());
         Self {
             par: sk.par.clone(),
@@ -132,7 +132,7 @@ impl DeserializeParametrized for PublicKey {
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
-                c.iter_mut()
+                c.c.iter_mut()
                     .for_each(|p| p.disallow_variable_time_computations());
                 Ok(Self {
                     par: par.clone(),
-- 
2.43.0


From e4b8fbb8ab9e21c032cf05e847353f9ee06e4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 11/23] fix: default_parameters_128 returns an error for
 impossible plaintext sizes

---
 crates/fhe/src/bfv/parameters.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/parameters.rs b/crates/fhe/src/bfv/parameters.rs
index 46720f0..ea5f297 100644
--- a/crates/fhe/src/bfv/parameters.rs
+++ b/crates/fhe/src/bfv/parameters.rs
@@ -218,7 +218,14 @@ impl BfvParameters {
     pub fn default_parameters_128(
         plaintext_nbits: usize,
     ) -> Result<impl Iterator<Item = Arc<BfvParameters>>> {
-        debug_assert!(plaintext_nbits < 64);
+        // No plaintext modulus has that size.
+        if !(1..64).contains(&plaintext_nbits) {
+            return Err(Error::ParametersError(
+                ParametersError::NoDefaultParameters {
+                    plaintext_bits: plaintext_nbits,
+                },
+            ));
+        }
 
         let mut n_and_qs = HashMap::new();
         n_and_qs.insert(1024, vec![0x7e00001]);
-- 
2.43.0


From 431a4597d21dec85e915a53c60359c8e012b2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 12/23] fix: reject serialized evaluation keys whose key level
 exceeds the ciphertext level

---
 crates/fhe/src/bfv/keys/evaluation_key.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/evaluation_key.rs b/crates/fhe/src/bfv/keys/evaluation_key.rs
index 158d6dc..8a47ff9 100644
--- a/crates/fhe/src/bfv/keys/evaluation_key.rs
+++ b/crates/fhe/src/bfv/keys/evaluation_key.rs
@@ -509,6 +509,14 @@ impl From<&EvaluationKey> for EvaluationKeyProto {
 
 impl TryConvertFrom<&EvaluationKeyProto> for EvaluationKey {
     fn try_convert_from(value: &EvaluationKeyProto, par: &Arc<BfvParameters>) -> Result<Self> {
+        if value.evaluation_key_level > value.ciphertext_level {
+            return Err(Error::InvalidLevel {
+                level: value.evaluation_key_level as usize,
+                min_level: 0,
+                max_level: value.ciphertext_level as usize,
+            });
+        }
+
         let mut gk = HashMap::new();
         for gkp in &value.gk {
             let key = GaloisKey::try_convert_from(gkp, par)?;
-- 
2.43.0


From d2974386c2dda21507eac230fca2c729c644643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 13/23] fix: reject serialized key-switching keys with a
 decomposition base beyond the modulus

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 8 ++++++++
 crates/fhe/src/errors.rs                     | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index 1f83458..a56dfba 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -405,6 +405,14 @@ impl BfvTryConvertFrom<&KeySwitchingKeyProto> for KeySwitchingKey {
             } else {
                 let log_modulus: usize =
                     par.moduli().first().unwrap().next_power_of_two().ilog2() as usize;
+                if log_base > log_modulus {
+                    return Err(Error::SerializationError(
+                        SerializationError::InvalidKeySwitchingDecompositionBase {
+                            actual: log_base,
+                            max: log_modulus,
+                        },
+                    ));
+                }
                 c0_size = log_modulus.div_ceil(log_base);
             }
         } else {
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 9521636..3a8b4ac 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -269,6 +269,10 @@ pub enum SerializationError {
         expected: usize,
     },
 
+    /// The decomposition base of a serialized key exceeds the modulus.
+    #[error("Serialized key-switching decomposition has base 2^{actual}; expected at most 2^{max}")]
+    InvalidKeySwitchingDecompositionBase { actual: usize, max: usize },
+
     /// A serialized key-switching seed has the wrong length.
     #[error("Serialized key-switching seed has {actual} bytes; expected {expected}")]
     InvalidKeySwitchingSeedLength { actual: usize, expected: usize },
-- 
2.43.0


From 4700b4450f86fe01d9b33fd39a1beacd5619b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 14/23] fix: reject serialized public keys that do not have two
 polynomials

---
 crates/fhe/src/bfv/keys/public_key.rs | 8 ++++++++
 crates/fhe/src/errors.rs              | 1 +
 2 files changed, 9 insertions(+)

diff --git a/crates/fhe/src/bfv/keys/public_key.rs b/crates/fhe/src/bfv/keys/public_key.rs
index 4e585b3..55eb6fc 100644
--- a/crates/fhe/src/bfv/keys/public_key.rs
+++ b/crates/fhe/src/bfv/keys/public_key.rs
@@ -129,6 +129,14 @@ impl DeserializeParametrized for PublicKey {
                         expected: 0,
                     },
                 ))
+            } else if c.len() != 2 {
+                Err(Error::SerializationError(
+                    SerializationError::WrongPolynomialCount {
+                        component: crate::SerializedPolynomialComponent::PublicKeyCiphertext,
+                        expected: 2,
+                        actual: c.len(),
+                    },
+                ))
             } else {
                 // The polynomials of a public key should not allow for variable time
                 // computation.
diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 3a8b4ac..8ec0bb1 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -329,6 +329,7 @@ pub enum SerializedField {
 pub enum SerializedPolynomialComponent {
     KeySwitchingKeyC0,
     KeySwitchingKeyC1,
+    PublicKeyCiphertext,
 }
 
 /// Separate enum to indicate parameters-related errors.
-- 
2.43.0


From f6e7fd3ef2a02fc45a21a844cf878a9eec47401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 15/23] fix: reject public-key switching of ciphertexts without
 exactly two parts

---
 crates/fhe/src/mbfv/public_key_switch.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 8ad7667..82e855d 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -48,6 +48,15 @@ impl PublicKeySwitchShare {
                 right: crate::ParameterSource::Ciphertext,
             });
         }
+        // Note: M-BFV implementation only supports ciphertext of length 2
+        if ct.len() != 2 {
+            return Err(crate::CiphertextError::InvalidPolynomialCount {
+                operation: crate::CiphertextOperation::MultipartyKeySwitch,
+                actual: ct.len(),
+                expected: 2,
+            }
+            .into());
+        }
         let par = sk_share.par.clone();
 
         // Get appropriate context / level for the following computations
-- 
2.43.0


From f98c470e6845f2361703196a180382a631060be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 16/23] fix: reject common random polynomials of another level
 or ring

---
 crates/fhe/src/errors.rs              | 1 +
 crates/fhe/src/mbfv/public_key_gen.rs | 6 ++++++
 crates/fhe/src/mbfv/relin_key_gen.rs  | 5 +++++
 3 files changed, 12 insertions(+)

diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index 8ec0bb1..d2028a5 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -83,6 +83,7 @@ pub enum ParameterSource {
     KeySwitchingKey,
     RelinearizationKey,
     Multiplicator,
+    CommonRandomPolynomial,
 }
 
 /// Ciphertext validation failures.
diff --git a/crates/fhe/src/mbfv/public_key_gen.rs b/crates/fhe/src/mbfv/public_key_gen.rs
index 05e39f4..43b1a95 100644
--- a/crates/fhe/src/mbfv/public_key_gen.rs
+++ b/crates/fhe/src/mbfv/public_key_gen.rs
@@ -36,6 +36,12 @@ impl PublicKeyShare {
     ) -> Result<Self> {
         let par = sk_share.par.clone();
         let ctx = par.context_at_level(0)?;
+        if crp.poly.ctx() != ctx {
+            return Err(crate::Error::ParameterMismatch {
+                left: crate::ParameterSource::SecretKey,
+                right: crate::ParameterSource::CommonRandomPolynomial,
+            });
+        }
 
         // Convert secret key to usable polynomial
         let s = Zeroizing::new(
diff --git a/crates/fhe/src/mbfv/relin_key_gen.rs b/crates/fhe/src/mbfv/relin_key_gen.rs
index 5fae0cd..7f04e5b 100644
--- a/crates/fhe/src/mbfv/relin_key_gen.rs
+++ b/crates/fhe/src/mbfv/relin_key_gen.rs
@@ -88,6 +88,11 @@ impl<'a, 'b> RelinKeyGenerator<'a, 'b> {
                 expected: ctx.moduli().len(),
             }
             .into())
+        } else if crp.iter().any(|a| a.poly.ctx() != ctx) {
+            Err(crate::Error::ParameterMismatch {
+                left: crate::ParameterSource::SecretKey,
+                right: crate::ParameterSource::CommonRandomPolynomial,
+            })
         } else {
             let u = Zeroizing::new(Poly::<Ntt>::small(ctx, par.variance, rng)?);
             Ok(Self { sk_share, crp, u })
-- 
2.43.0


From 1fc3e4c5857345fe4331504b20c8427cef24bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 17/23] fix: reject multiparty shares that do not belong
 together

---
 crates/fhe/src/errors.rs                 | 3 +++
 crates/fhe/src/mbfv/public_key_gen.rs    | 3 +++
 crates/fhe/src/mbfv/public_key_switch.rs | 3 +++
 crates/fhe/src/mbfv/relin_key_gen.rs     | 9 +++++++++
 crates/fhe/src/mbfv/secret_key_switch.rs | 3 +++
 5 files changed, 21 insertions(+)

diff --git a/crates/fhe/src/errors.rs b/crates/fhe/src/errors.rs
index d2028a5..944ac59 100644
--- a/crates/fhe/src/errors.rs
+++ b/crates/fhe/src/errors.rs
@@ -229,6 +229,9 @@ pub enum MultipartyError {
 
     #[error("Round-two relinearization share is missing its round-one aggregation")]
     MissingRelinearizationRoundOneShare,
+
+    #[error("Protocol shares do not belong to the same protocol run")]
+    IncompatibleShares,
 }
 
 /// Separate enum for errors arising from serialization.
diff --git a/crates/fhe/src/mbfv/public_key_gen.rs b/crates/fhe/src/mbfv/public_key_gen.rs
index 43b1a95..08354e9 100644
--- a/crates/fhe/src/mbfv/public_key_gen.rs
+++ b/crates/fhe/src/mbfv/public_key_gen.rs
@@ -72,6 +72,9 @@ impl Aggregate<PublicKeyShare> for PublicKey {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut p0 = share.p0_share;
         for sh in shares {
+            if sh.par != share.par || sh.crp != share.crp {
+                return Err(crate::MultipartyError::IncompatibleShares.into());
+            }
             p0 += &sh.p0_share;
         }
 
diff --git a/crates/fhe/src/mbfv/public_key_switch.rs b/crates/fhe/src/mbfv/public_key_switch.rs
index 82e855d..9a10efd 100644
--- a/crates/fhe/src/mbfv/public_key_switch.rs
+++ b/crates/fhe/src/mbfv/public_key_switch.rs
@@ -111,6 +111,9 @@ impl Aggregate<PublicKeySwitchShare> for Ciphertext {
         let mut h0 = share.h0_share;
         let mut h1 = share.h1_share;
         for sh in shares {
+            if sh.par != share.par || sh.c0 != share.c0 {
+                return Err(crate::MultipartyError::IncompatibleShares.into());
+            }
             h0 += &sh.h0_share;
             h1 += &sh.h1_share;
         }
diff --git a/crates/fhe/src/mbfv/relin_key_gen.rs b/crates/fhe/src/mbfv/relin_key_gen.rs
index 7f04e5b..497c1db 100644
--- a/crates/fhe/src/mbfv/relin_key_gen.rs
+++ b/crates/fhe/src/mbfv/relin_key_gen.rs
@@ -212,6 +212,9 @@ impl Aggregate<RelinKeyShare<R1>> for RelinKeyShare<R1Aggregated> {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.par != share.par {
+                return Err(crate::MultipartyError::IncompatibleShares.into());
+            }
             izip!(h0.iter_mut(), sh.h0.iter()).for_each(|(h0i, sh_h0i)| *h0i += sh_h0i);
             izip!(h1.iter_mut(), sh.h1.iter()).for_each(|(h1i, sh_h1i)| *h1i += sh_h1i);
         }
@@ -234,6 +237,9 @@ impl RelinKeyShare<R2> {
         rng: &mut R,
     ) -> Result<Self> {
         let par = sk_share.par.clone();
+        if r1.par != par {
+            return Err(crate::MultipartyError::IncompatibleShares.into());
+        }
         let h0 = Self::generate_h0(sk_share, &r1.h0, rng)?;
         let h1 = Self::generate_h1(sk_share, u, &r1.h1, rng)?;
         Ok(Self {
@@ -317,6 +323,9 @@ impl Aggregate<RelinKeyShare<R2>> for RelinearizationKey {
         let mut h0 = share.h0;
         let mut h1 = share.h1;
         for sh in shares {
+            if sh.last_round.as_ref() != Some(&r1) {
+                return Err(crate::MultipartyError::IncompatibleShares.into());
+            }
             izip!(h0.iter_mut(), h1.iter_mut(), sh.h0.iter(), sh.h1.iter()).for_each(
                 |(h0, h1, h0i, h1i)| {
                     *h0 += h0i;
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index e5f6de5..60977ca 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -104,6 +104,9 @@ impl Aggregate<SecretKeySwitchShare> for Ciphertext {
         let share = shares.next().ok_or(crate::MultipartyError::NoShares)?;
         let mut h = share.h_share;
         for sh in shares {
+            if sh.ct != share.ct {
+                return Err(crate::MultipartyError::IncompatibleShares.into());
+            }
             h += &sh.h_share;
         }
 
-- 
2.43.0


From e270fd129bee47d57c88779fc020e4ca0acfb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 18/23] fix: multiplying by an empty ciphertext gives an empty
 ciphertext

---
 crates/fhe/src/bfv/ops/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index de4aa98..2a22736 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -260,8 +260,9 @@ impl Mul<&Ciphertext> for &Ciphertext {
     type Output = Ciphertext;
 
     fn mul(self, rhs: &Ciphertext) -> Ciphertext {
-        if self.is_empty() {
-            return self.clone();
+        if self.is_empty() || rhs.is_empty() {
+            assert!(Arc::ptr_eq(&self.par, &rhs.par));
+            return Ciphertext::zero(&self.par);
         }
 
         if rhs == self {
-- 
2.43.0


From af1454f03425142bcd89f58e1869eb3c2e2afba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 19/23] fix: Multiplicator refuses a relinearization key of
 other parameters

---
 crates/fhe/src/bfv/ops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fhe/src/bfv/ops/mul.rs b/crates/fhe/src/bfv/ops/mul.rs
index 3bfd317..9ecada8 100644
--- a/crates/fhe/src/bfv/ops/mul.rs
+++ b/crates/fhe/src/bfv/ops/mul.rs
@@ -140,7 +140,7 @@ impl Multiplicator {
     /// Enable relinearization after multiplication.
     pub fn enable_relinearization(&mut self, rk: &RelinearizationKey) -> Result<()> {
         let rk_ctx = self.par.context_at_level(rk.ksk.ciphertext_level)?;
-        if rk_ctx != &self.base_ctx {
+        if rk.ksk.par != self.par || rk_ctx != &self.base_ctx {
             return Err(Error::ParameterMismatch {
                 left: crate::ParameterSource::RelinearizationKey,
                 right: crate::ParameterSource::Multiplicator,
-- 
2.43.0


From 076f8b66acc01516ceba577a5ed62e0b519d16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 20/23] fix: wipe the products with the secret key made while
 generating key-switching keys

---
 crates/fhe/src/bfv/keys/key_switching_key.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/key_switching_key.rs b/crates/fhe/src/bfv/keys/key_switching_key.rs
index a56dfba..85f7a02 100644
--- a/crates/fhe/src/bfv/keys/key_switching_key.rs
+++ b/crates/fhe/src/bfv/keys/key_switching_key.rs
@@ -173,7 +173,7 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
@@ -218,13 +218,14 @@ impl KeySwitchingKey {
                 *a_s.as_mut() *= s.as_ref();
                 let ctx = a_s.ctx().clone();
                 let a_s_inner = std::mem::replace(a_s.as_mut(), Poly::<Ntt>::zero(&ctx));
-                let a_s_pb = a_s_inner.into_power_basis();
+                let a_s_pb = Zeroizing::new(a_s_inner.into_power_basis());
 
                 let mut b = Poly::<PowerBasis>::small(a_s_pb.ctx(), sk.par.variance, rng)?;
                 b -= &a_s_pb;
 
                 let power = BigUint::from(1u64 << (i * log_base));
-                b += &(from * &power);
+                let power_from = Zeroizing::new(from * &power);
+                b += &power_from;
 
                 // It is now safe to enable variable time computations.
                 b.allow_variable_time_computations(fhe_traits::VariableTime::new(
-- 
2.43.0


From d14565c29751cac56f6d33d858afe53d44b50859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 21/23] fix: wipe the copies of secret key coefficients made
 while (de)serialising a secret key

---
 crates/fhe/src/bfv/keys/secret_key.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index df20e03..41a302c 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -144,7 +144,10 @@ impl From<&SecretKey> for SecretKeyProto {
 
 impl Serialize for SecretKey {
     fn to_bytes(&self) -> Vec<u8> {
-        SecretKeyProto::from(self).encode_to_vec()
+        let mut proto = SecretKeyProto::from(self);
+        let bytes = proto.encode_to_vec();
+        proto.coeffs.zeroize();
+        bytes
     }
 }
 
@@ -152,25 +155,29 @@ impl DeserializeParametrized for SecretKey {
     type Error = Error;
 
     fn from_bytes(bytes: &[u8], par: &Arc<Self::Parameters>) -> Result<Self> {
-        let proto: SecretKeyProto = Message::decode(bytes).map_err(|_| {
+        // The capacity is reserved so that no partial copy of the coefficients is
+        // left behind while decoding.
+        let mut proto = SecretKeyProto {
+            coeffs: Vec::with_capacity(par.degree()),
+        };
+        let decoded = proto.merge(bytes);
+        let mut coeffs = Zeroizing::new(std::mem::take(&mut proto.coeffs));
+        decoded.map_err(|_| {
             Error::SerializationError(SerializationError::Decode {
                 object: crate::SerializedObject::SecretKey,
             })
         })?;
 
-        if proto.coeffs.len() != par.degree() {
+        if coeffs.len() != par.degree() {
             return Err(Error::SerializationError(
                 SerializationError::InvalidSecretKeyCoefficientCount {
-                    actual: proto.coeffs.len(),
+                    actual: coeffs.len(),
                     expected: par.degree(),
                 },
             ));
         }
 
-        Ok(Self {
-            par: par.clone(),
-            coeffs: proto.coeffs.into_boxed_slice(),
-        })
+        Ok(Self::new(std::mem::take(&mut *coeffs), par))
     }
 }
 
-- 
2.43.0


From ea65e5c7412ece686003ae0df10cd5ddec6af657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 22/23] fix: wipe the copies of plaintext values made while
 encoding, decoding, decrypting and operating with plaintexts

---
 crates/fhe/src/bfv/keys/secret_key.rs |  4 ++--
 crates/fhe/src/bfv/ops/mod.rs         |  5 +++--
 crates/fhe/src/bfv/plaintext.rs       |  4 ++--
 crates/fhe/src/bfv/plaintext_vec.rs   | 29 +++++++++++++++++----------
 4 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index 41a302c..f7c17a2 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -241,9 +241,9 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
 
         let poly = match small_plaintext {
             Some(plaintext_modulus) => {
-                let mut v = Vec::<u64>::try_from(d.as_ref())?;
+                let mut v = Zeroizing::new(Vec::<u64>::try_from(d.as_ref())?);
                 v.iter_mut().for_each(|vi| *vi += **plaintext_modulus);
-                let mut w = v[..self.par.degree()].to_vec();
+                let mut w = Zeroizing::new(v[..self.par.degree()].to_vec());
 
                 let q = Modulus::new(self.par.moduli[0]).map_err(Error::MathError)?;
                 q.reduce_vec(&mut w);
diff --git a/crates/fhe/src/bfv/ops/mod.rs b/crates/fhe/src/bfv/ops/mod.rs
index 2a22736..8758344 100644
--- a/crates/fhe/src/bfv/ops/mod.rs
+++ b/crates/fhe/src/bfv/ops/mod.rs
@@ -11,6 +11,7 @@ use crate::{Error, Result};
 use fhe_math::rq::{Ntt, Poly};
 use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use std::sync::Arc;
+use zeroize::Zeroizing;
 
 impl Add<&Ciphertext> for &Ciphertext {
     type Output = Ciphertext;
@@ -92,7 +93,7 @@ impl AddAssign<&Plaintext> for Ciphertext {
         assert!(!self.is_empty());
         assert_eq!(self.level, rhs.level());
 
-        let poly = rhs.to_poly();
+        let poly = Zeroizing::new(rhs.to_poly());
         self[0] += &poly;
         self.seed = None
     }
@@ -187,7 +188,7 @@ impl SubAssign<&Plaintext> for Ciphertext {
         assert!(!self.is_empty());
         assert_eq!(self.level, rhs.level());
 
-        let poly = rhs.to_poly();
+        let poly = Zeroizing::new(rhs.to_poly());
         self.c[0] -= &poly;
         self.seed = None
     }
diff --git a/crates/fhe/src/bfv/plaintext.rs b/crates/fhe/src/bfv/plaintext.rs
index 9922e0e..0a40bbc 100644
--- a/crates/fhe/src/bfv/plaintext.rs
+++ b/crates/fhe/src/bfv/plaintext.rs
@@ -111,7 +111,7 @@ impl Plaintext {
                     .first()
                     .is_some_and(|ciphertext_modulus| **modulus < *ciphertext_modulus) =>
             {
-                let coefficients = Vec::<u64>::try_from(poly.as_ref()).unwrap();
+                let coefficients = Zeroizing::new(Vec::<u64>::try_from(poly.as_ref()).unwrap());
                 let mut values = coefficients[..self.par.degree()].to_vec();
                 modulus.reduce_vec(&mut values);
                 PlaintextCoefficients::Small(values)
@@ -437,7 +437,7 @@ impl FheDecoder<Plaintext> for Vec<i64> {
         E: Into<Option<Encoding>>,
     {
         if let Some(modulus) = pt.par.plaintext.small() {
-            let values = Vec::<u64>::try_decode(pt, encoding)?;
+            let values = Zeroizing::new(Vec::<u64>::try_decode(pt, encoding)?);
             Ok(modulus.center_vec(&values))
         } else {
             let values = Vec::<BigUint>::try_decode(pt, encoding)?;
diff --git a/crates/fhe/src/bfv/plaintext_vec.rs b/crates/fhe/src/bfv/plaintext_vec.rs
index 8c7f3c3..f6b0838 100644
--- a/crates/fhe/src/bfv/plaintext_vec.rs
+++ b/crates/fhe/src/bfv/plaintext_vec.rs
@@ -4,6 +4,7 @@ use fhe_math::rq::{Context, Ntt, Poly, PowerBasis, traits::TryConvertFrom};
 use fhe_traits::{FheEncoder, FheEncoderVariableTime, FheParametrized, FhePlaintext, VariableTime};
 use num_bigint::BigUint;
 use num_traits::{ToPrimitive, Zero};
+use zeroize::Zeroizing;
 use zeroize_derive::{Zeroize, ZeroizeOnDrop};
 
 use crate::{
@@ -75,7 +76,7 @@ impl PlaintextVec {
         ctx: &Arc<Context>,
         variable_time: Option<VariableTime>,
     ) -> Result<Poly<Ntt>> {
-        let mut coefficients = vec![0u64; par.degree()];
+        let mut coefficients = Zeroizing::new(vec![0u64; par.degree()]);
         // Values are taken modulo the plaintext modulus.
         let reduce = |coefficients: &mut [u64]| match par.plaintext.small() {
             Some(modulus) if variable_time.is_some() => unsafe {
@@ -107,9 +108,13 @@ impl PlaintextVec {
         }
 
         let poly = if let Some(variable_time) = variable_time {
-            Poly::<PowerBasis>::try_convert_from_public(&coefficients, ctx, variable_time)?
+            Poly::<PowerBasis>::try_convert_from_public(
+                coefficients.as_slice(),
+                ctx,
+                variable_time,
+            )?
         } else {
-            Poly::<PowerBasis>::try_convert_from(&coefficients, ctx, false)?
+            Poly::<PowerBasis>::try_convert_from(coefficients.as_slice(), ctx, false)?
         };
         Ok(poly.into_ntt())
     }
@@ -131,14 +136,16 @@ impl PlaintextVec {
                 )
             }
             EncodingEnum::Simd => {
-                let values = value
-                    .iter()
-                    .map(|coefficient| {
-                        (coefficient % par.plaintext_big())
-                            .to_u64()
-                            .ok_or(crate::PlaintextError::ValueTooLargeForU64)
-                    })
-                    .collect::<std::result::Result<Vec<_>, _>>()?;
+                let values = Zeroizing::new(
+                    value
+                        .iter()
+                        .map(|coefficient| {
+                            (coefficient % par.plaintext_big())
+                                .to_u64()
+                                .ok_or(crate::PlaintextError::ValueTooLargeForU64)
+                        })
+                        .collect::<std::result::Result<Vec<_>, _>>()?,
+                );
                 Self::encode_u64_chunk(&values, encoding, par, ctx, None)
             }
         }
-- 
2.43.0


From 21c4009072c0eb33988488891f3c1ff5dd788306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 23/23] fix: decrypt correctly when the plaintext modulus is
 above two thirds of the ciphertext modulus

The plaintext context's modulus is only larger than the ciphertext modulus, so
adding the plaintext modulus to a centered residue could wrap around it.
---
 crates/fhe/src/bfv/keys/secret_key.rs    | 16 ++++++++++------
 crates/fhe/src/mbfv/secret_key_switch.rs | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/crates/fhe/src/bfv/keys/secret_key.rs b/crates/fhe/src/bfv/keys/secret_key.rs
index f7c17a2..eaedc5e 100644
--- a/crates/fhe/src/bfv/keys/secret_key.rs
+++ b/crates/fhe/src/bfv/keys/secret_key.rs
@@ -251,15 +251,19 @@ impl FheDecrypter<Plaintext, Ciphertext> for SecretKey {
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
             None => {
-                let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
+                // Make the centered coefficients nonnegative.
+                let q_poly = d.as_ref().ctx().modulus();
+                let mut w = Vec::<BigUint>::from(d.as_ref())
                     .into_iter()
-                    .map(|vi| vi + self.par.plaintext_big())
+                    .map(|vi| {
+                        if &vi << 1 > *q_poly {
+                            vi + self.par.plaintext_big() - q_poly
+                        } else {
+                            vi
+                        }
+                    })
                     .collect_vec();
 
-                let mut w = v[..self.par.degree()].to_vec();
-                let q_poly = d.as_ref().ctx().modulus();
-                w.iter_mut().for_each(|wi| *wi %= q_poly);
-
                 self.par.plaintext.reduce_vec(&mut w);
                 Poly::<PowerBasis>::try_convert_from(w.as_slice(), ct[0].ctx(), false)?.into_ntt()
             }
diff --git a/crates/fhe/src/mbfv/secret_key_switch.rs b/crates/fhe/src/mbfv/secret_key_switch.rs
index 60977ca..3384311 100644
--- a/crates/fhe/src/mbfv/secret_key_switch.rs
+++ b/crates/fhe/src/mbfv/secret_key_switch.rs
@@ -164,15 +164,19 @@ impl Aggregate<DecryptionShare> for Plaintext {
         let ctx_lvl = ct.par.context_level_at(ct.level)?;
         let d = Zeroizing::new(c.scale(&ctx_lvl.cipher_plain_context.scaler)?);
 
-        let v: Vec<BigUint> = Vec::<BigUint>::from(d.as_ref())
+        // Make the centered coefficients nonnegative.
+        let q_poly = d.as_ref().ctx().modulus();
+        let mut w = Vec::<BigUint>::from(d.as_ref())
             .into_iter()
-            .map(|vi| vi + ct.par.plaintext_big())
+            .map(|vi| {
+                if &vi << 1 > *q_poly {
+                    vi + ct.par.plaintext_big() - q_poly
+                } else {
+                    vi
+                }
+            })
             .collect_vec();
 
-        let mut w = v[..ct.par.degree()].to_vec();
-        let q_poly = d.as_ref().ctx().modulus();
-        w.iter_mut().for_each(|wi| *wi %= q_poly);
-
         ct.par.plaintext.reduce_vec(&mut w);
 
         let poly =
-- 
2.43.0

