From 80bec55cb47e86c0ebf05439fadc9b25d3cc94f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 01/13] fix: support degree 0 in the univariate polynomial
 commitments

bivariate_degrees(0) computed a skew factor of zero and panicked with a
division by zero in setup (and in verify for max_degree 0).
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 5 ++++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..01273c4 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -291,7 +291,10 @@ pub struct UnivariatePolynomialCommitment<P: Pairing, D: Digest> {
 impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
     fn bivariate_degrees(univariate_degree: usize) -> (usize, usize) {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
-        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
+        // At least 2, so that the skew factor below is never zero (constant polynomials)
+        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize)
+            .next_power_of_two()
+            .max(2);
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
         let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..7fff4a7 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -220,7 +220,10 @@ pub struct UnivariatePolynomialCommitment<P: Pairing, D: Digest> {
 impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
     fn bivariate_degrees(univariate_degree: usize) -> (usize, usize) {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
-        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
+        // At least 2, so that the skew factor below is never zero (constant polynomials)
+        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize)
+            .next_power_of_two()
+            .max(2);
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
         let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
-- 
2.43.0


From 716bdeade956ae42fee820e0d7865c6141423225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 02/13] fix: reject polynomials beyond the capacity of the
 univariate commitment

bivariate_form silently dropped the coefficients that do not fit, so commit
and open accepted a polynomial of too large a degree and produced a valid
opening of a different polynomial. The bivariate scheme and KZG already
assert that the polynomial fits the SRS.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 01273c4..b4cf734 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -311,6 +311,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!(polynomial.coeffs.len() <= (x_degree + 1) * (y_degree + 1));
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 7fff4a7..1da2fa1 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -240,6 +240,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!(polynomial.coeffs.len() <= (x_degree + 1) * (y_degree + 1));
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From aed93aa59c191c6df1f092c4a40b1d90dbdf03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 03/13] fix: return an error for a GIPA proof with the wrong
 number of rounds

The verifiers panicked (assertion on the number of challenge exponents) on a
proof that deserializes correctly but has more or fewer rounds than the
commitment key has halvings, after allocating 2^rounds scalars.
---
 ip_proofs/src/gipa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..2cd83d6 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -368,7 +368,14 @@ where
     ) -> Result<(LMC::Key, RMC::Key), Error> {
         // Calculate base commitment keys
         let (ck_a, ck_b, _) = ck;
-        assert!(ck_a.len().is_power_of_two());
+        // The number of rounds is taken from the proof: it has to match the commitment keys
+        if !ck_a.len().is_power_of_two() || ck_a.len().trailing_zeros() as usize != transcript.len()
+        {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                ck_a.len(),
+                transcript.len(),
+            )));
+        }
 
         let mut ck_a_agg_challenge_exponents = vec![LMC::Scalar::one()];
         let mut ck_b_agg_challenge_exponents = vec![LMC::Scalar::one()];
-- 
2.43.0


From 7362c678c52eaffe675007d6168fc97ecbca7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 04/13] fix: support statements of length one in TIPA

There are no GIPA rounds then, and prover and verifier panicked on
transcript.first().unwrap(). This also affected bivariate polynomial
commitments with x_degree 0 and the aggregation of a single Groth16 proof,
and any proof without rounds made the verifier panic.
---
 ip_proofs/src/tipa/mod.rs                       | 6 ++++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..30778bc 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -193,12 +193,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -256,12 +257,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..f5fc62e 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -236,12 +236,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -287,12 +288,13 @@ where
 
         // KZG challenge point
         let mut counter_nonce: usize = 0;
+        let default_transcript = Default::default();
         let c = loop {
             let mut hash_input = Vec::new();
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .unwrap_or(&default_transcript)
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From 47c6ee37545e7ca02151c84e08a650d5812deaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 05/13] fix: check the number of public inputs of every
 aggregated proof

Only the first instance was checked, so surplus inputs of the others were
silently ignored and the aggregate was accepted for them.
---
 ip_proofs/src/applications/groth16_aggregation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..ff7cf6e 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -209,7 +209,10 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
+    assert!(!public_inputs.is_empty());
+    for inputs in public_inputs.iter() {
+        assert_eq!(vk.gamma_abc_g1.len(), inputs.len() + 1);
+    }
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From b929e7b5d68b8608e9dad3d69d2d325459d50554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 06/13] fix: bind the GIPA challenges to the statement being
 proved

The Fiat-Shamir challenges only covered the prover's round messages, so a
prover could pick them first and then solve for an inner product (or, with a
structured message, for a scalar) that makes a false statement verify. With
the polynomial commitments this allowed opening a commitment to a wrong
evaluation. Hash the commitments, and the scalar that defines a structured
message, into every round's challenge.
---
 ip_proofs/src/gipa.rs                         | 37 +++++++++++-
 .../src/tipa/structured_scalar_message.rs     | 60 +++++++++++--------
 2 files changed, 68 insertions(+), 29 deletions(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index 2cd83d6..c217a86 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -127,8 +127,11 @@ where
             return Err(Box::new(InnerProductArgumentError::InnerProductInvalid));
         }
 
-        let (proof, _) =
-            Self::prove_with_aux((values.0, values.1), (ck.0, ck.1, &vec![ck.2.clone()]))?;
+        let (proof, _) = Self::prove_statement_with_aux(
+            (values.0, values.1),
+            (ck.0, ck.1, &vec![ck.2.clone()]),
+            com,
+        )?;
         Ok(proof)
     }
 
@@ -168,12 +171,33 @@ where
             GIPAAux<IP, LMC, RMC, IPC, D>,
         ),
         Error,
+    > {
+        let (m_a, m_b) = values;
+        let (ck_a, ck_b, ck_t) = ck;
+        let com_a = LMC::commit(ck_a, m_a)?;
+        let com_b = RMC::commit(ck_b, m_b)?;
+        let com_t = IPC::commit(ck_t, &vec![IP::inner_product(m_a, m_b)?])?;
+        Self::prove_statement_with_aux(values, ck, (&com_a, &com_b, &com_t))
+    }
+
+    // The commitments are those that the verifier starts from: the challenges are bound to them
+    pub(crate) fn prove_statement_with_aux(
+        values: (&[IP::LeftMessage], &[IP::RightMessage]),
+        ck: (&[LMC::Key], &[RMC::Key], &[IPC::Key]),
+        com: (&LMC::Output, &RMC::Output, &IPC::Output),
+    ) -> Result<
+        (
+            GIPAProof<IP, LMC, RMC, IPC, D>,
+            GIPAAux<IP, LMC, RMC, IPC, D>,
+        ),
+        Error,
     > {
         let (m_a, m_b) = values;
         let (ck_a, ck_b, ck_t) = ck;
         Self::_prove(
             (m_a.to_vec(), m_b.to_vec()),
             (ck_a.to_vec(), ck_b.to_vec(), ck_t.to_vec()),
+            com,
         )
     }
 
@@ -181,6 +205,7 @@ where
     fn _prove(
         values: (Vec<IP::LeftMessage>, Vec<IP::RightMessage>),
         ck: (Vec<LMC::Key>, Vec<RMC::Key>, Vec<IPC::Key>),
+        com: (&LMC::Output, &RMC::Output, &IPC::Output),
     ) -> Result<
         (
             GIPAProof<IP, LMC, RMC, IPC, D>,
@@ -239,6 +264,9 @@ where
                     let mut hash_input = Vec::new();
                     hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
                     transcript.serialize_uncompressed(&mut hash_input)?;
+                    com.0.serialize_uncompressed(&mut hash_input)?;
+                    com.1.serialize_uncompressed(&mut hash_input)?;
+                    com.2.serialize_uncompressed(&mut hash_input)?;
                     com_1.0.serialize_uncompressed(&mut hash_input)?;
                     com_1.1.serialize_uncompressed(&mut hash_input)?;
                     com_1.2.serialize_uncompressed(&mut hash_input)?;
@@ -323,7 +351,7 @@ where
         com: (LMC::Output, RMC::Output, IPC::Output),
         proof: &GIPAProof<IP, LMC, RMC, IPC, D>,
     ) -> Result<((LMC::Output, RMC::Output, IPC::Output), Vec<LMC::Scalar>), Error> {
-        let (mut com_a, mut com_b, mut com_t) = com;
+        let (mut com_a, mut com_b, mut com_t) = com.clone();
         let mut r_transcript: Vec<LMC::Scalar> = Vec::new();
         for (com_1, com_2) in proof.r_commitment_steps.iter().rev() {
             // Fiat-Shamir challenge
@@ -334,6 +362,9 @@ where
                 let mut hash_input = Vec::new();
                 hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
                 transcript.serialize_uncompressed(&mut hash_input)?;
+                com.0.serialize_uncompressed(&mut hash_input)?;
+                com.1.serialize_uncompressed(&mut hash_input)?;
+                com.2.serialize_uncompressed(&mut hash_input)?;
                 com_1.0.serialize_uncompressed(&mut hash_input)?;
                 com_1.1.serialize_uncompressed(&mut hash_input)?;
                 com_1.2.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index f5fc62e..3c0cdcf 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -1,5 +1,5 @@
 use ark_ec::{pairing::Pairing, Group};
-use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
+use ark_ff::{Field, One, PrimeField, UniformRand};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use ark_std::{cfg_iter, rand::Rng};
 use ark_std::{end_timer, start_timer};
@@ -10,7 +10,7 @@ use std::{marker::PhantomData, ops::MulAssign};
 use rayon::prelude::*;
 
 use crate::{
-    gipa::{GIPAProof, GIPA},
+    gipa::{GIPAAux, GIPAProof, GIPA},
     tipa::{
         prove_commitment_key_kzg_opening, structured_generators_scalar_power,
         verify_commitment_key_g2_kzg_opening, TIPACompatibleSetup, VerifierSRS, SRS,
@@ -40,7 +40,6 @@ impl<F: PrimeField> DoublyHomomorphicCommitment for SSMPlaceholderCommitment<F>
         Ok(vec![HomomorphicPlaceholderValue {}; size])
     }
 
-    //TODO: Doesn't include message which means scalar b not included in generating challenges
     fn commit(_k: &[Self::Key], _m: &[Self::Message]) -> Result<Self::Output, Error> {
         Ok(F::zero())
     }
@@ -71,18 +70,36 @@ where
         values: (&[IP::LeftMessage], &[IP::RightMessage]),
         ck: (&[LMC::Key], &IPC::Key),
     ) -> Result<GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>, Error> {
-        let (proof, _) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>>::prove_with_aux(
-                values,
-                (
-                    ck.0,
-                    &vec![HomomorphicPlaceholderValue {}; values.1.len()],
-                    &vec![ck.1.clone()],
-                ),
-            )?;
+        let (proof, _) = Self::prove_with_aux(values, ck)?;
         Ok(proof)
     }
 
+    pub(crate) fn prove_with_aux(
+        values: (&[IP::LeftMessage], &[IP::RightMessage]),
+        ck: (&[LMC::Key], &IPC::Key),
+    ) -> Result<
+        (
+            GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+            GIPAAux<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+        ),
+        Error,
+    > {
+        let ck_t = vec![ck.1.clone()];
+        let com_a = LMC::commit(ck.0, values.0)?;
+        let com_t = IPC::commit(&ck_t, &vec![IP::inner_product(values.0, values.1)?])?;
+        // The scalar that defines the structured message takes the place of its commitment
+        let scalar_b = values.1.get(1).cloned().unwrap_or_default();
+        GIPA::prove_statement_with_aux(
+            values,
+            (
+                ck.0,
+                &vec![HomomorphicPlaceholderValue {}; values.1.len()],
+                &ck_t,
+            ),
+            (&com_a, &scalar_b, &com_t),
+        )
+    }
+
     pub fn verify_with_structured_scalar_message(
         ck: (&[LMC::Key], &IPC::Key),
         com: (&LMC::Output, &IPC::Output),
@@ -90,11 +107,10 @@ where
         proof: &GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
     ) -> Result<bool, Error> {
         // Calculate base commitments and recursive transcript
-        //TODO: Scalar b not included in generating challenges
-        let (base_com, transcript) = GIPA::verify_recursive_challenge_transcript(
-            (com.0, &LMC::Scalar::zero(), com.1),
-            proof,
-        )?;
+        let (mut base_com, transcript) =
+            GIPA::verify_recursive_challenge_transcript((com.0, scalar_b, com.1), proof)?;
+        // The placeholder commitment to the structured message is zero
+        base_com.1 -= scalar_b;
         // Calculate base commitment keys
         let (ck_a_base, ck_b_base) = GIPA::<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>::_compute_final_commitment_keys(
             (&ck.0, &vec![HomomorphicPlaceholderValue {}; ck.0.len()], &ck.1),
@@ -215,15 +231,7 @@ where
     ) -> Result<TIPAWithSSMProof<IP, LMC, IPC, P, D>, Error> {
         // Run GIPA
         let gipa = start_timer!(|| "GIPA");
-        let (proof, aux) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<P::ScalarField>, IPC, D>>::prove_with_aux(
-                values,
-                (
-                    ck.0,
-                    &vec![HomomorphicPlaceholderValue {}; values.1.len()],
-                    &vec![ck.1.clone()],
-                ),
-            )?;
+        let (proof, aux) = <GIPAWithSSM<IP, LMC, IPC, D>>::prove_with_aux(values, ck)?;
         end_timer!(gipa);
 
         // Prove final commitment key is wellformed
-- 
2.43.0


From 754508ab77e3b14f24f4c3e4554a513d0c57b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 07/13] Add verification hooks behind cfg(ripp_verif)

Constructors and accessors for types that have private fields and neither a
public constructor nor serialization. Nothing changes without the cfg.
---
 .../src/applications/groth16_aggregation.rs   | 66 +++++++++++++++++
 ip_proofs/src/applications/poly_commit/mod.rs | 44 ++++++++++++
 .../applications/poly_commit/transparent.rs   | 60 ++++++++++++++++
 ip_proofs/src/gipa.rs                         | 70 +++++++++++++++++++
 ip_proofs/src/lib.rs                          |  1 +
 ip_proofs/src/tipa/mod.rs                     | 44 ++++++++++++
 .../src/tipa/structured_scalar_message.rs     | 38 ++++++++++
 sipp/src/lib.rs                               | 14 ++++
 8 files changed, 337 insertions(+)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index ff7cf6e..305a82e 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -232,3 +232,69 @@ where
 
     Ok(tipa_proof_ab_valid && tipa_proof_c_valid && ppe_valid)
 }
+
+#[cfg(ripp_verif)]
+impl<P: Pairing, D: Digest> AggregateProof<P, D> {
+    /// Commitments (A, B, C), inner product of (A, B), aggregate of C, and the two TIPA proofs
+    pub fn verif_from_parts(
+        coms: (PairingOutput<P>, PairingOutput<P>, PairingOutput<P>),
+        ip_ab: PairingOutput<P>,
+        agg_c: P::G1,
+        tipa_proof_ab: TIPAProof<
+            PairingInnerProduct<P>,
+            AFGHOCommitmentG1<P>,
+            AFGHOCommitmentG2<P>,
+            IdentityCommitment<PairingOutput<P>, P::ScalarField>,
+            P,
+            D,
+        >,
+        tipa_proof_c: TIPAWithSSMProof<
+            MultiexponentiationInnerProduct<P::G1>,
+            AFGHOCommitmentG1<P>,
+            IdentityCommitment<P::G1, P::ScalarField>,
+            P,
+            D,
+        >,
+    ) -> Self {
+        AggregateProof {
+            com_a: coms.0,
+            com_b: coms.1,
+            com_c: coms.2,
+            ip_ab,
+            agg_c,
+            tipa_proof_ab,
+            tipa_proof_c,
+        }
+    }
+
+    pub fn verif_into_parts(
+        self,
+    ) -> (
+        (PairingOutput<P>, PairingOutput<P>, PairingOutput<P>),
+        PairingOutput<P>,
+        P::G1,
+        TIPAProof<
+            PairingInnerProduct<P>,
+            AFGHOCommitmentG1<P>,
+            AFGHOCommitmentG2<P>,
+            IdentityCommitment<PairingOutput<P>, P::ScalarField>,
+            P,
+            D,
+        >,
+        TIPAWithSSMProof<
+            MultiexponentiationInnerProduct<P::G1>,
+            AFGHOCommitmentG1<P>,
+            IdentityCommitment<P::G1, P::ScalarField>,
+            P,
+            D,
+        >,
+    ) {
+        (
+            (self.com_a, self.com_b, self.com_c),
+            self.ip_ab,
+            self.agg_c,
+            self.tipa_proof_ab,
+            self.tipa_proof_c,
+        )
+    }
+}
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index b4cf734..4eb5b56 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -380,6 +380,50 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
     }
 }
 
+#[cfg(ripp_verif)]
+impl<F: Field> BivariatePolynomial<F> {
+    pub fn verif_new(y_polynomials: Vec<UnivariatePolynomial<F>>) -> Self {
+        BivariatePolynomial { y_polynomials }
+    }
+}
+
+#[cfg(ripp_verif)]
+impl<P: Pairing, D: Digest> OpeningProof<P, D> {
+    pub fn verif_from_parts(
+        ip_proof: TIPAWithSSMProof<
+            MultiexponentiationInnerProduct<P::G1>,
+            AFGHOCommitmentG1<P>,
+            IdentityCommitment<P::G1, P::ScalarField>,
+            P,
+            D,
+        >,
+        y_eval_comm: P::G1,
+        kzg_proof: P::G1,
+    ) -> Self {
+        OpeningProof {
+            ip_proof,
+            y_eval_comm,
+            kzg_proof,
+        }
+    }
+
+    pub fn verif_into_parts(
+        self,
+    ) -> (
+        TIPAWithSSMProof<
+            MultiexponentiationInnerProduct<P::G1>,
+            AFGHOCommitmentG1<P>,
+            IdentityCommitment<P::G1, P::ScalarField>,
+            P,
+            D,
+        >,
+        P::G1,
+        P::G1,
+    ) {
+        (self.ip_proof, self.y_eval_comm, self.kzg_proof)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 1da2fa1..1d9709c 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -308,6 +308,66 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
     }
 }
 
+#[cfg(ripp_verif)]
+impl<F: Field> BivariatePolynomial<F> {
+    pub fn verif_new(y_polynomials: Vec<UnivariatePolynomial<F>>) -> Self {
+        BivariatePolynomial { y_polynomials }
+    }
+}
+
+#[cfg(ripp_verif)]
+impl<P: Pairing, D: Digest> OpeningProof<P, D> {
+    pub fn verif_from_parts(
+        second_tier_ip_proof: GIPAProof<
+            MultiexponentiationInnerProduct<P::G1>,
+            AFGHOCommitmentG1<P>,
+            SSMPlaceholderCommitment<P::ScalarField>,
+            IdentityCommitment<P::G1, P::ScalarField>,
+            D,
+        >,
+        y_eval_comm: P::G1,
+        first_tier_ip_proof: GIPAProof<
+            ScalarInnerProduct<P::ScalarField>,
+            PedersenCommitment<P::G1>,
+            SSMPlaceholderCommitment<P::ScalarField>,
+            IdentityCommitment<P::ScalarField, P::ScalarField>,
+            D,
+        >,
+    ) -> Self {
+        OpeningProof {
+            second_tier_ip_proof,
+            y_eval_comm,
+            first_tier_ip_proof,
+        }
+    }
+
+    pub fn verif_into_parts(
+        self,
+    ) -> (
+        GIPAProof<
+            MultiexponentiationInnerProduct<P::G1>,
+            AFGHOCommitmentG1<P>,
+            SSMPlaceholderCommitment<P::ScalarField>,
+            IdentityCommitment<P::G1, P::ScalarField>,
+            D,
+        >,
+        P::G1,
+        GIPAProof<
+            ScalarInnerProduct<P::ScalarField>,
+            PedersenCommitment<P::G1>,
+            SSMPlaceholderCommitment<P::ScalarField>,
+            IdentityCommitment<P::ScalarField, P::ScalarField>,
+            D,
+        >,
+    ) {
+        (
+            self.second_tier_ip_proof,
+            self.y_eval_comm,
+            self.first_tier_ip_proof,
+        )
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index c217a86..2b4f9d5 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -480,6 +480,76 @@ where
     }
 }
 
+#[cfg(ripp_verif)]
+impl<IP, LMC, RMC, IPC, D> GIPAProof<IP, LMC, RMC, IPC, D>
+where
+    D: Digest,
+    IP: InnerProduct<
+        LeftMessage = LMC::Message,
+        RightMessage = RMC::Message,
+        Output = IPC::Message,
+    >,
+    LMC: DoublyHomomorphicCommitment,
+    RMC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar>,
+    IPC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar>,
+    RMC::Message: MulAssign<LMC::Scalar>,
+    IPC::Message: MulAssign<LMC::Scalar>,
+    RMC::Key: MulAssign<LMC::Scalar>,
+    IPC::Key: MulAssign<LMC::Scalar>,
+    RMC::Output: MulAssign<LMC::Scalar>,
+    IPC::Output: MulAssign<LMC::Scalar>,
+{
+    pub fn verif_from_parts(
+        r_commitment_steps: Vec<(
+            (LMC::Output, RMC::Output, IPC::Output),
+            (LMC::Output, RMC::Output, IPC::Output),
+        )>,
+        r_base: (LMC::Message, RMC::Message),
+    ) -> Self {
+        GIPAProof {
+            r_commitment_steps,
+            r_base,
+            _gipa: PhantomData,
+        }
+    }
+
+    pub fn verif_into_parts(
+        self,
+    ) -> (
+        Vec<(
+            (LMC::Output, RMC::Output, IPC::Output),
+            (LMC::Output, RMC::Output, IPC::Output),
+        )>,
+        (LMC::Message, RMC::Message),
+    ) {
+        (self.r_commitment_steps, self.r_base)
+    }
+}
+
+#[cfg(ripp_verif)]
+impl<IP, LMC, RMC, IPC, D> GIPAAux<IP, LMC, RMC, IPC, D>
+where
+    D: Digest,
+    IP: InnerProduct<
+        LeftMessage = LMC::Message,
+        RightMessage = RMC::Message,
+        Output = IPC::Message,
+    >,
+    LMC: DoublyHomomorphicCommitment,
+    RMC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar>,
+    IPC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar>,
+    RMC::Message: MulAssign<LMC::Scalar>,
+    IPC::Message: MulAssign<LMC::Scalar>,
+    RMC::Key: MulAssign<LMC::Scalar>,
+    IPC::Key: MulAssign<LMC::Scalar>,
+    RMC::Output: MulAssign<LMC::Scalar>,
+    IPC::Output: MulAssign<LMC::Scalar>,
+{
+    pub fn verif_into_parts(self) -> (Vec<LMC::Scalar>, (LMC::Key, RMC::Key)) {
+        (self.r_transcript, self.ck_base)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/ip_proofs/src/lib.rs b/ip_proofs/src/lib.rs
index d152847..7880d5d 100644
--- a/ip_proofs/src/lib.rs
+++ b/ip_proofs/src/lib.rs
@@ -1,4 +1,5 @@
 #![deny(warnings, unused, future_incompatible, nonstandard_style)]
+#![allow(unexpected_cfgs)] // cfg(ripp_verif): see the verification hooks
 use std::{
     error::Error as ErrorTrait,
     fmt::{Display, Formatter, Result as FmtResult},
diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index 30778bc..b448249 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -423,6 +423,50 @@ fn polynomial_coefficients_from_transcript<F: Field>(transcript: &Vec<F>, r_shif
         .collect()
 }
 
+#[cfg(ripp_verif)]
+impl<IP, LMC, RMC, IPC, P, D> TIPAProof<IP, LMC, RMC, IPC, P, D>
+where
+    D: Digest,
+    P: Pairing,
+    IP: InnerProduct<
+        LeftMessage = LMC::Message,
+        RightMessage = RMC::Message,
+        Output = IPC::Message,
+    >,
+    LMC: DoublyHomomorphicCommitment + TIPACompatibleSetup,
+    RMC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar> + TIPACompatibleSetup,
+    IPC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar>,
+    RMC::Message: MulAssign<LMC::Scalar>,
+    IPC::Message: MulAssign<LMC::Scalar>,
+    RMC::Key: MulAssign<LMC::Scalar>,
+    IPC::Key: MulAssign<LMC::Scalar>,
+    RMC::Output: MulAssign<LMC::Scalar>,
+    IPC::Output: MulAssign<LMC::Scalar>,
+{
+    pub fn verif_from_parts(
+        gipa_proof: GIPAProof<IP, LMC, RMC, IPC, D>,
+        final_ck: (LMC::Key, RMC::Key),
+        final_ck_proof: (P::G2, P::G1),
+    ) -> Self {
+        Self {
+            gipa_proof,
+            final_ck,
+            final_ck_proof,
+            _pair: PhantomData,
+        }
+    }
+
+    pub fn verif_into_parts(
+        self,
+    ) -> (
+        GIPAProof<IP, LMC, RMC, IPC, D>,
+        (LMC::Key, RMC::Key),
+        (P::G2, P::G1),
+    ) {
+        (self.gipa_proof, self.final_ck, self.final_ck_proof)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index 3c0cdcf..2329a48 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -349,6 +349,44 @@ pub fn structured_scalar_power<F: Field>(num: usize, s: &F) -> Vec<F> {
     powers
 }
 
+#[cfg(ripp_verif)]
+impl<IP, LMC, IPC, P, D> TIPAWithSSMProof<IP, LMC, IPC, P, D>
+where
+    D: Digest,
+    P: Pairing,
+    IP: InnerProduct<LeftMessage = LMC::Message, RightMessage = LMC::Scalar, Output = IPC::Message>,
+    LMC: DoublyHomomorphicCommitment<Scalar = P::ScalarField, Key = P::G2> + TIPACompatibleSetup,
+    IPC: DoublyHomomorphicCommitment<Scalar = LMC::Scalar>,
+    IPC::Message: MulAssign<LMC::Scalar>,
+    IPC::Key: MulAssign<LMC::Scalar>,
+    IPC::Output: MulAssign<LMC::Scalar>,
+    LMC::Message: MulAssign<P::ScalarField>,
+    LMC::Output: MulAssign<P::ScalarField>,
+{
+    pub fn verif_from_parts(
+        gipa_proof: GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+        final_ck: LMC::Key,
+        final_ck_proof: P::G2,
+    ) -> Self {
+        Self {
+            gipa_proof,
+            final_ck,
+            final_ck_proof,
+            _pairing: PhantomData,
+        }
+    }
+
+    pub fn verif_into_parts(
+        self,
+    ) -> (
+        GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
+        LMC::Key,
+        P::G2,
+    ) {
+        (self.gipa_proof, self.final_ck, self.final_ck_proof)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..e8cba7a 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -1,6 +1,7 @@
 //! A crate for inner pairing product arguments/proofs.
 #![deny(warnings, unused, missing_docs)]
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)] // cfg(ripp_verif): see the verification hooks
 
 use std::marker::PhantomData;
 
@@ -223,6 +224,19 @@ pub fn product_of_pairings<E: Pairing>(a: &[E::G1Affine], b: &[E::G2Affine]) ->
     product_of_pairings_with_coeffs::<E>(a, b, &r)
 }
 
+#[cfg(ripp_verif)]
+impl<E: Pairing> Proof<E> {
+    /// Build a proof from its elements.
+    pub fn verif_from_parts(gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>) -> Self {
+        Proof { gt_elems }
+    }
+
+    /// The elements of the proof.
+    pub fn verif_into_parts(self) -> Vec<(PairingOutput<E>, PairingOutput<E>)> {
+        self.gt_elems
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0a63378f16771a47c47f4948d84eb2c16b62cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/13] fix: refuse coefficients of another length in the SIPP
 prover

---
 sipp/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index e8cba7a..295806b 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -47,6 +47,7 @@ where
         value: PairingOutput<E>,
     ) -> Result<Proof<E>, ()> {
         assert_eq!(a.len(), b.len());
+        assert_eq!(a.len(), r.len());
         // Ensure the order of the input vectors is a power of 2
         assert_eq!(a.len().count_ones(), 1);
         let mut length = a.len();
-- 
2.43.0


From 5cd6e8001059bfeca3eb62a9d14e726bf9bea66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:07 +0000
Subject: [PATCH 09/13] fix: do not use 0 or 1 as the random combiner of
 aggregated Groth16 proofs

---
 ip_proofs/src/applications/groth16_aggregation.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 305a82e..d53180a 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -1,5 +1,5 @@
 use ark_ec::pairing::{Pairing, PairingOutput};
-use ark_ff::{Field, One};
+use ark_ff::{Field, One, Zero};
 use ark_groth16::{Proof, VerifyingKey};
 use ark_serialize::CanonicalSerialize;
 
@@ -110,7 +110,10 @@ where
         com_b.serialize_uncompressed(&mut hash_input)?;
         com_c.serialize_uncompressed(&mut hash_input)?;
         if let Some(r) = <P::ScalarField>::from_random_bytes(&D::digest(&hash_input)) {
-            break r;
+            // Zero has no inverse, and the sum of the powers of one is not (r^n - 1) / (r - 1)
+            if !r.is_zero() && !r.is_one() {
+                break r;
+            }
         };
         counter_nonce += 1;
     };
@@ -178,7 +181,10 @@ where
         proof.com_b.serialize_uncompressed(&mut hash_input)?;
         proof.com_c.serialize_uncompressed(&mut hash_input)?;
         if let Some(r) = <P::ScalarField>::from_random_bytes(&D::digest(&hash_input)) {
-            break r;
+            // Zero has no inverse, and the sum of the powers of one is not (r^n - 1) / (r - 1)
+            if !r.is_zero() && !r.is_one() {
+                break r;
+            }
         };
         counter_nonce += 1;
     };
-- 
2.43.0


From 4158f7da86d70ab17b9e2500b056c0ccbde1fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 10/13] fix: refuse pairing products of vectors of unequal
 lengths

The chunks of the longer vector were dropped or paired depending on the number
of threads.
---
 sipp/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index 295806b..fc7e7df 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -188,6 +188,8 @@ pub fn product_of_pairings_with_coeffs<E: Pairing>(
     b: &[E::G2Affine],
     r: &[E::ScalarField],
 ) -> PairingOutput<E> {
+    assert_eq!(a.len(), b.len());
+    assert_eq!(a.len(), r.len());
     let a = a
         .into_par_iter()
         .zip(r)
-- 
2.43.0


From 147d3ee133abf7afe9891826e64a94e9b6fa08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 11/13] fix: keep all components when adding identity
 commitments of different lengths

---
 dh_commitments/src/identity/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dh_commitments/src/identity/mod.rs b/dh_commitments/src/identity/mod.rs
index 0ec793e..dfb2dcb 100644
--- a/dh_commitments/src/identity/mod.rs
+++ b/dh_commitments/src/identity/mod.rs
@@ -41,13 +41,16 @@ where
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
-        IdentityOutput(
-            self.0
-                .iter()
-                .zip(&rhs.0)
-                .map(|(a, b)| a.clone() + b.clone())
-                .collect::<Vec<T>>(),
-        )
+        // A component that only one of the two has is not lost
+        let (mut sum, other) = if self.0.len() >= rhs.0.len() {
+            (self.0, rhs.0)
+        } else {
+            (rhs.0, self.0)
+        };
+        sum.iter_mut()
+            .zip(other)
+            .for_each(|(a, b)| *a = a.clone() + b);
+        IdentityOutput(sum)
     }
 }
 
-- 
2.43.0


From 8209bc7b1f08b82d9a1999e6d401b199330739bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:46 +0000
Subject: [PATCH 12/13] fix: return None for pairing products of different
 numbers of elements

---
 inner_products/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/inner_products/src/lib.rs b/inner_products/src/lib.rs
index 6fabc06..e45a0e8 100644
--- a/inner_products/src/lib.rs
+++ b/inner_products/src/lib.rs
@@ -73,8 +73,13 @@ impl<P: Pairing> InnerProduct for PairingInnerProduct<P> {
     }
 }
 
-/// Equivalent to `P::multi_pairing`, but with more parallelism (if enabled)
+/// Equivalent to `P::multi_pairing`, but with more parallelism (if enabled). Returns `None` if the
+/// numbers of elements differ.
 pub fn cfg_multi_pairing<P: Pairing>(left: &[P::G1], right: &[P::G2]) -> Option<PairingOutput<P>> {
+    if left.len() != right.len() {
+        return None;
+    }
+
     // We make the input affine, then convert to prepared. We do this for speed, since the
     // conversion from projective to prepared always goes through affine.
     let aff_left = P::G1::normalize_batch(left);
-- 
2.43.0


From 85907c1cf02d86aadcf2318238cae869963f9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:46 +0000
Subject: [PATCH 13/13] fix: refuse to open bivariate polynomials whose rows do
 not fit the setup

---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 4eb5b56..2d721fa 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -223,6 +223,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(ck_1.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(kzg_srs.len() >= c.len());
                 c.resize(kzg_srs.len(), <P::ScalarField>::zero());
                 c
             })
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index 1d9709c..1fc2c65 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -146,6 +146,7 @@ impl<P: Pairing, D: Digest> BivariatePolynomialCommitment<P, D> {
             .take(second_tier_ck.len())
             .map(|y_polynomial| {
                 let mut c = y_polynomial.coeffs.to_vec();
+                assert!(first_tier_ck.len() >= c.len());
                 c.resize(first_tier_ck.len(), <P::ScalarField>::zero());
                 c
             })
-- 
2.43.0

