From 675e049bd9f55bcdfc337737bcfadb130c9b05e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 1/6] verif hooks: serialization derives on private proof types
 under cfg(ripp_verif)

---
 ip_proofs/src/applications/groth16_aggregation.rs     |  6 ++++++
 ip_proofs/src/applications/poly_commit/mod.rs         | 10 ++++++++++
 ip_proofs/src/applications/poly_commit/transparent.rs | 10 ++++++++++
 ip_proofs/src/lib.rs                                  |  1 +
 sipp/src/lib.rs                                       |  7 +++++++
 5 files changed, 34 insertions(+)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..2c9af3d 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -1,6 +1,8 @@
 use ark_ec::pairing::{Pairing, PairingOutput};
 use ark_ff::{Field, One};
 use ark_groth16::{Proof, VerifyingKey};
+#[cfg(ripp_verif)]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 
 use ark_std::rand::Rng;
@@ -55,6 +57,10 @@ type MultiExpInnerProductCProof<P, D> = TIPAWithSSMProof<
     D,
 >;
 
+#[cfg_attr(
+    ripp_verif,
+    derive(ark_serialize::CanonicalSerialize, ark_serialize::CanonicalDeserialize)
+)]
 pub struct AggregateProof<P: Pairing, D: Digest> {
     com_a: PairingOutput<P>,
     com_b: PairingOutput<P>,
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..a906fd0 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -8,6 +8,8 @@ use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
 
+#[cfg(ripp_verif)]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
 
@@ -117,6 +119,10 @@ impl<P: Pairing> KZG<P> {
     }
 }
 
+#[cfg_attr(
+    ripp_verif,
+    derive(ark_serialize::CanonicalSerialize, ark_serialize::CanonicalDeserialize)
+)]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -138,6 +144,10 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(
+    ripp_verif,
+    derive(ark_serialize::CanonicalSerialize, ark_serialize::CanonicalDeserialize)
+)]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..4fd56d8 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -4,6 +4,8 @@ use ark_poly::polynomial::{
     univariate::DensePolynomial as UnivariatePolynomial, DenseUVPolynomial, Polynomial,
 };
 
+#[cfg(ripp_verif)]
+use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use ark_std::{end_timer, start_timer};
 use std::marker::PhantomData;
 
@@ -55,6 +57,10 @@ type PolynomialEvaluationFirstTierIPAProof<P, D> = GIPAProof<
     D,
 >;
 
+#[cfg_attr(
+    ripp_verif,
+    derive(ark_serialize::CanonicalSerialize, ark_serialize::CanonicalDeserialize)
+)]
 pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
@@ -76,6 +82,10 @@ impl<F: Field> BivariatePolynomial<F> {
     }
 }
 
+#[cfg_attr(
+    ripp_verif,
+    derive(ark_serialize::CanonicalSerialize, ark_serialize::CanonicalDeserialize)
+)]
 pub struct OpeningProof<P: Pairing, D: Digest> {
     second_tier_ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
     y_eval_comm: P::G1,
diff --git a/ip_proofs/src/lib.rs b/ip_proofs/src/lib.rs
index d152847..ec21295 100644
--- a/ip_proofs/src/lib.rs
+++ b/ip_proofs/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(warnings, unused, future_incompatible, nonstandard_style)]
+#![allow(unexpected_cfgs)]
 use std::{
     error::Error as ErrorTrait,
     fmt::{Display, Formatter, Result as FmtResult},
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..093bed0 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -1,6 +1,7 @@
 //! A crate for inner pairing product arguments/proofs.
 #![deny(warnings, unused, missing_docs)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 use std::marker::PhantomData;
 
@@ -10,6 +11,8 @@ use ark_ec::{
     CurveGroup,
 };
 use ark_ff::{Field, One, UniformRand};
+#[cfg(ripp_verif)]
+use ark_serialize::CanonicalDeserialize;
 use ark_serialize::CanonicalSerialize;
 use ark_std::Zero;
 use digest::{generic_array::typenum::U32, Digest};
@@ -29,6 +32,10 @@ pub struct SIPP<E: Pairing, D: Digest> {
 
 /// `Proof` contains the GT elements produced by the prover.
 // TODO(psi): why not just make Proof an alias since there's only one field?
+#[cfg_attr(
+    ripp_verif,
+    derive(ark_serialize::CanonicalSerialize, ark_serialize::CanonicalDeserialize)
+)]
 pub struct Proof<E: Pairing> {
     gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>,
 }
-- 
2.43.0


From 684fed451a2c27d491660a8bffe4460d558e9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 2/6] fix: TIPA and TIPA-SSM prove and verify statements of
 length one

With no folding round there is no last challenge to hash, and
transcript.first().unwrap() panicked in the prover and in the verifier.
Hash the default scalar instead, as GIPA does for its first round.
---
 ip_proofs/src/tipa/mod.rs                       | 6 ++++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..30778bc 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -193,12 +193,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -256,12 +257,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..f5fc62e 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -236,12 +236,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -287,12 +288,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From 5f82ecbb67468b43ddaf99e279bdff888384fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 3/6] fix: GIPA verification rejects proofs with the wrong
 number of rounds

A proof whose number of rounds does not match the commitment keys (or
GIPA-SSM keys whose length is not a power of two) made the verifier
panic, after computing 2^rounds exponents. Return MessageLengthInvalid.
---
 ip_proofs/src/gipa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..1688020 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -368,7 +368,14 @@ where
     ) -> Result<(LMC::Key, RMC::Key), Error> {
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
-        assert!(ck_a.len().is_power_of_two());
+        // One round per halving of the commitment keys
+        if !ck_a.len().is_power_of_two() || transcript.len() != ck_a.len().trailing_zeros() as usize
+        {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                ck_b.len(),
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From 17b4a158d67a9b829ca3c24967cd63967bb985cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 4/6] fix: univariate commitment keys for constant polynomials

bivariate_degrees(0) divided by a skew factor of zero, so setup for
degree 0 panicked in both the SRS-based and the transparent scheme.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 6 +++++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index a906fd0..d89b8f9 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -303,7 +303,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
-        let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 32 {
+            16_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 4fd56d8..f3f8fd1 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -232,7 +232,11 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
         let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
-        let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
+        let skew_factor = if sqrt >= 8 {
+            4_usize
+        } else {
+            (sqrt / 2).max(1)
+        };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
     }
 
-- 
2.43.0


From 21a4b9c8e1101888fe824b838c64626224d066c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 5/6] fix: refuse polynomials that do not fit the commitment
 key

Univariate commit and open, and bivariate open, dropped the coefficients
beyond the key's capacity and so committed to another polynomial. Assert
the capacity, as the bivariate commit already does.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 2 ++
 ip_proofs/src/applications/poly_commit/transparent.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index d89b8f9..ec7516a 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -233,6 +233,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(ck_1.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(kzg_srs.len() >= c.len());
                 c.resize(kzg_srs.len(), <P::ScalarField>::zero());
                 c
             })
@@ -322,6 +323,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index f3f8fd1..fbf9960 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -156,6 +156,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(second_tier_ck.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(first_tier_ck.len() >= c.len());
                 c.resize(first_tier_ck.len(), <P::ScalarField>::zero());
                 c
             })
@@ -251,6 +252,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.coeffs.len());
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From df608a0246e91cc1bedd6d07091a7d2c6bda9aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:10 +0000
Subject: [PATCH 6/6] fix: aggregate verification checks the shape of the
 public inputs

---
 .../src/applications/groth16_aggregation.rs   | 24 +++++++++++++++++--
 ip_proofs/src/tipa/mod.rs                     |  2 +-
 .../src/tipa/structured_scalar_message.rs     |  2 +-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 2c9af3d..cfb4733 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -13,7 +13,7 @@ use crate::{
         structured_scalar_message::{structured_scalar_power, TIPAWithSSM, TIPAWithSSMProof},
         TIPAProof, VerifierSRS, SRS, TIPA,
     },
-    Error,
+    Error, InnerProductArgumentError,
 };
 use ark_dh_commitments::{
     afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
@@ -175,6 +175,27 @@ where
     P: Pairing,
     D: Digest,
 {
+    // One row of public inputs per aggregated proof, each with the number of inputs of the circuit
+    for inputs in public_inputs {
+        if inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                inputs.len() + 1,
+                vk.gamma_abc_g1.len(),
+            )));
+        }
+    }
+    for rounds in [
+        proof.tipa_proof_ab.gipa_proof.r_commitment_steps.len(),
+        proof.tipa_proof_c.gipa_proof.r_commitment_steps.len(),
+    ] {
+        if 1usize.checked_shl(rounds as u32) != Some(public_inputs.len()) {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                rounds,
+                public_inputs.len(),
+            )));
+        }
+    }
+
     // Random linear combination of proofs
     let mut counter_nonce: usize = 0;
     let r = loop {
@@ -215,7 +236,6 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index 30778bc..6e4b33a 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -58,7 +58,7 @@ where
     RMC::Output: MulAssign<LMC::Scalar>,
     IPC::Output: MulAssign<LMC::Scalar>,
 {
-    gipa_proof: GIPAProof<IP, LMC, RMC, IPC, D>,
+    pub(crate) gipa_proof: GIPAProof<IP, LMC, RMC, IPC, D>,
     final_ck: (LMC::Key, RMC::Key),
     final_ck_proof: (P::G2, P::G1),
     _pair: PhantomData<P>,
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index f5fc62e..8fb88b7 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -149,7 +149,7 @@ where
     LMC::Message: MulAssign<P::ScalarField>,
     LMC::Output: MulAssign<P::ScalarField>,
 {
-    gipa_proof: GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+    pub(crate) gipa_proof: GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
     final_ck: LMC::Key,
     final_ck_proof: P::G2,
     _pairing: PhantomData<P>,
-- 
2.43.0

