From 44c4e4fa599904815666f7b84388bdd36ea7e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:16 +0000
Subject: [PATCH 01/10] verif hook: accessors for proof contents under
 cfg(ripp_verif)

---
 .../src/applications/groth16_aggregation.rs   | 37 +++++++++++++++++++
 ip_proofs/src/applications/poly_commit/mod.rs | 32 ++++++++++++++++
 .../applications/poly_commit/transparent.rs   | 36 ++++++++++++++++++
 ip_proofs/src/lib.rs                          |  2 +
 sipp/src/lib.rs                               | 15 ++++++++
 5 files changed, 122 insertions(+)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 91b2592..8772bf7 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -65,6 +65,43 @@ pub struct AggregateProof<P: Pairing, D: Digest> {
     tipa_proof_c: MultiExpInnerProductCProof<P, D>,
 }
 
+#[cfg(ripp_verif)]
+impl<P: Pairing, D: Digest> AggregateProof<P, D> {
+    #[allow(clippy::type_complexity)]
+    pub fn verif_parts(
+        &self,
+    ) -> (
+        [PairingOutput<P>; 4],
+        P::G1,
+        &PairingInnerProductABProof<P, D>,
+        &MultiExpInnerProductCProof<P, D>,
+    ) {
+        (
+            [self.com_a, self.com_b, self.com_c, self.ip_ab],
+            self.agg_c,
+            &self.tipa_proof_ab,
+            &self.tipa_proof_c,
+        )
+    }
+
+    pub fn verif_from_parts(
+        [com_a, com_b, com_c, ip_ab]: [PairingOutput<P>; 4],
+        agg_c: P::G1,
+        tipa_proof_ab: PairingInnerProductABProof<P, D>,
+        tipa_proof_c: MultiExpInnerProductCProof<P, D>,
+    ) -> Self {
+        Self {
+            com_a,
+            com_b,
+            com_c,
+            ip_ab,
+            agg_c,
+            tipa_proof_ab,
+            tipa_proof_c,
+        }
+    }
+}
+
 pub fn setup_inner_product<P, D, R: Rng>(rng: &mut R, size: usize) -> Result<SRS<P>, Error>
 where
     P: Pairing,
diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 0b045d0..f8ffece 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -121,6 +121,13 @@ pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
 
+#[cfg(ripp_verif)]
+impl<F: Field> BivariatePolynomial<F> {
+    pub fn verif_from_parts(y_polynomials: Vec<UnivariatePolynomial<F>>) -> Self {
+        Self { y_polynomials }
+    }
+}
+
 impl<F: Field> BivariatePolynomial<F> {
     pub fn evaluate(&self, point: &(F, F)) -> F {
         let (x, y) = point;
@@ -144,6 +151,31 @@ pub struct OpeningProof<P: Pairing, D: Digest> {
     kzg_proof: P::G1,
 }
 
+#[cfg(ripp_verif)]
+impl<P: Pairing, D: Digest> OpeningProof<P, D> {
+    pub fn verif_parts(
+        &self,
+    ) -> (
+        &PolynomialEvaluationSecondTierIPAProof<P, D>,
+        &P::G1,
+        &P::G1,
+    ) {
+        (&self.ip_proof, &self.y_eval_comm, &self.kzg_proof)
+    }
+
+    pub fn verif_from_parts(
+        ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
+        y_eval_comm: P::G1,
+        kzg_proof: P::G1,
+    ) -> Self {
+        Self {
+            ip_proof,
+            y_eval_comm,
+            kzg_proof,
+        }
+    }
+}
+
 pub struct BivariatePolynomialCommitment<P: Pairing, D: Digest> {
     _pairing: PhantomData<P>,
     _digest: PhantomData<D>,
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index edd1935..e154937 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -59,6 +59,13 @@ pub struct BivariatePolynomial<F: Field> {
     y_polynomials: Vec<UnivariatePolynomial<F>>,
 }
 
+#[cfg(ripp_verif)]
+impl<F: Field> BivariatePolynomial<F> {
+    pub fn verif_from_parts(y_polynomials: Vec<UnivariatePolynomial<F>>) -> Self {
+        Self { y_polynomials }
+    }
+}
+
 impl<F: Field> BivariatePolynomial<F> {
     pub fn evaluate(&self, point: &(F, F)) -> F {
         let (x, y) = point;
@@ -82,6 +89,35 @@ pub struct OpeningProof<P: Pairing, D: Digest> {
     first_tier_ip_proof: PolynomialEvaluationFirstTierIPAProof<P, D>,
 }
 
+#[cfg(ripp_verif)]
+impl<P: Pairing, D: Digest> OpeningProof<P, D> {
+    pub fn verif_parts(
+        &self,
+    ) -> (
+        &PolynomialEvaluationSecondTierIPAProof<P, D>,
+        &P::G1,
+        &PolynomialEvaluationFirstTierIPAProof<P, D>,
+    ) {
+        (
+            &self.second_tier_ip_proof,
+            &self.y_eval_comm,
+            &self.first_tier_ip_proof,
+        )
+    }
+
+    pub fn verif_from_parts(
+        second_tier_ip_proof: PolynomialEvaluationSecondTierIPAProof<P, D>,
+        y_eval_comm: P::G1,
+        first_tier_ip_proof: PolynomialEvaluationFirstTierIPAProof<P, D>,
+    ) -> Self {
+        Self {
+            second_tier_ip_proof,
+            y_eval_comm,
+            first_tier_ip_proof,
+        }
+    }
+}
+
 pub struct BivariatePolynomialCommitment<P: Pairing, D: Digest> {
     _pairing: PhantomData<P>,
     _digest: PhantomData<D>,
diff --git a/ip_proofs/src/lib.rs b/ip_proofs/src/lib.rs
index d152847..2cec889 100644
--- a/ip_proofs/src/lib.rs
+++ b/ip_proofs/src/lib.rs
@@ -1,4 +1,6 @@
 #![deny(warnings, unused, future_incompatible, nonstandard_style)]
+// `ripp_verif` is a compiler flag set by the verification harness only
+#![allow(unexpected_cfgs)]
 use std::{
     error::Error as ErrorTrait,
     fmt::{Display, Formatter, Result as FmtResult},
diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index fa47091..742c3cf 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -1,6 +1,8 @@
 //! A crate for inner pairing product arguments/proofs.
 #![deny(warnings, unused, missing_docs)]
 #![forbid(unsafe_code)]
+// `ripp_verif` is a compiler flag set by the verification harness only
+#![allow(unexpected_cfgs)]
 
 use std::marker::PhantomData;
 
@@ -33,6 +35,19 @@ pub struct Proof<E: Pairing> {
     gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>,
 }
 
+#[cfg(ripp_verif)]
+impl<E: Pairing> Proof<E> {
+    /// The proof's elements (verification harness only).
+    pub fn verif_parts(&self) -> &Vec<(PairingOutput<E>, PairingOutput<E>)> {
+        &self.gt_elems
+    }
+
+    /// A proof made of the given elements (verification harness only).
+    pub fn verif_from_parts(gt_elems: Vec<(PairingOutput<E>, PairingOutput<E>)>) -> Self {
+        Self { gt_elems }
+    }
+}
+
 impl<E, D> SIPP<E, D>
 where
     E: Pairing,
-- 
2.43.0


From 65a7fb1913300e092340f00102c6c42d883430ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 02/10] fix: bind the statement in the inner-product argument's
 first challenge

The recursive challenges hashed only the round messages, so a prover could
choose the claimed product (or a commitment) after learning the challenges
and have a false statement accepted. Hash the commitments, the claimed product
and, for structured messages, the scalar into the first challenge.
---
 ip_proofs/src/gipa.rs                         | 25 ++++++--
 .../src/tipa/structured_scalar_message.rs     | 58 ++++++++++++-------
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index fceb9dd..ca3b191 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -127,8 +127,11 @@ where
             return Err(Box::new(InnerProductArgumentError::InnerProductInvalid));
         }
 
-        let (proof, _) =
-            Self::prove_with_aux((values.0, values.1), (ck.0, ck.1, &vec![ck.2.clone()]))?;
+        let (proof, _) = Self::_prove(
+            (values.0.to_vec(), values.1.to_vec()),
+            (ck.0.to_vec(), ck.1.to_vec(), vec![ck.2.clone()]),
+            (com.0.clone(), com.1.clone(), com.2.clone()),
+        )?;
         Ok(proof)
     }
 
@@ -171,16 +174,24 @@ where
     > {
         let (m_a, m_b) = values;
         let (ck_a, ck_b, ck_t) = ck;
+        let com = (
+            LMC::commit(ck_a, m_a)?,
+            RMC::commit(ck_b, m_b)?,
+            IPC::commit(ck_t, &vec![IP::inner_product(m_a, m_b)?])?,
+        );
         Self::_prove(
             (m_a.to_vec(), m_b.to_vec()),
             (ck_a.to_vec(), ck_b.to_vec(), ck_t.to_vec()),
+            com,
         )
     }
 
     // Returns vector of recursive commitments and transcripts in reverse order
-    fn _prove(
+    // The statement `com` is bound by the first challenge, on which all later ones depend
+    pub(crate) fn _prove(
         values: (Vec<IP::LeftMessage>, Vec<IP::RightMessage>),
         ck: (Vec<LMC::Key>, Vec<RMC::Key>, Vec<IPC::Key>),
+        com: (LMC::Output, RMC::Output, IPC::Output),
     ) -> Result<
         (
             GIPAProof<IP, LMC, RMC, IPC, D>,
@@ -239,6 +250,9 @@ where
                     let mut hash_input = Vec::new();
                     hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
                     transcript.serialize_uncompressed(&mut hash_input)?;
+                    if r_transcript.is_empty() {
+                        com.serialize_uncompressed(&mut hash_input)?;
+                    }
                     com_1.0.serialize_uncompressed(&mut hash_input)?;
                     com_1.1.serialize_uncompressed(&mut hash_input)?;
                     com_1.2.serialize_uncompressed(&mut hash_input)?;
@@ -323,7 +337,7 @@ where
         com: (LMC::Output, RMC::Output, IPC::Output),
         proof: &GIPAProof<IP, LMC, RMC, IPC, D>,
     ) -> Result<((LMC::Output, RMC::Output, IPC::Output), Vec<LMC::Scalar>), Error> {
-        let (mut com_a, mut com_b, mut com_t) = com;
+        let (mut com_a, mut com_b, mut com_t) = com.clone();
         let mut r_transcript: Vec<LMC::Scalar> = Vec::new();
         for (com_1, com_2) in proof.r_commitment_steps.iter().rev() {
             // Fiat-Shamir challenge
@@ -334,6 +348,9 @@ where
                 let mut hash_input = Vec::new();
                 hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
                 transcript.serialize_uncompressed(&mut hash_input)?;
+                if r_transcript.is_empty() {
+                    com.serialize_uncompressed(&mut hash_input)?;
+                }
                 com_1.0.serialize_uncompressed(&mut hash_input)?;
                 com_1.1.serialize_uncompressed(&mut hash_input)?;
                 com_1.2.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index fe1ebf9..05729a5 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -1,5 +1,5 @@
 use ark_ec::{pairing::Pairing, Group};
-use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
+use ark_ff::{Field, One, PrimeField, UniformRand};
 use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
 use ark_std::{cfg_iter, rand::Rng};
 use ark_std::{end_timer, start_timer};
@@ -40,12 +40,16 @@ impl<F: PrimeField> DoublyHomomorphicCommitment for SSMPlaceholderCommitment<F>
         Ok(vec![HomomorphicPlaceholderValue {}; size])
     }
 
-    //TODO: Doesn't include message which means scalar b not included in generating challenges
     fn commit(_k: &[Self::Key], _m: &[Self::Message]) -> Result<Self::Output, Error> {
         Ok(F::zero())
     }
 }
 
+// Statement about the structured message: the scalar b of (1, b, b^2, ...)
+fn structured_scalar<F: PrimeField>(message: &[F]) -> F {
+    message.get(1).cloned().unwrap_or_default()
+}
+
 pub struct GIPAWithSSM<IP, LMC, IPC, D> {
     _inner_product: PhantomData<IP>,
     _left_commitment: PhantomData<LMC>,
@@ -71,15 +75,21 @@ where
         values: (&[IP::LeftMessage], &[IP::RightMessage]),
         ck: (&[LMC::Key], &IPC::Key),
     ) -> Result<GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>, Error> {
-        let (proof, _) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>>::prove_with_aux(
-                values,
-                (
-                    ck.0,
-                    &vec![HomomorphicPlaceholderValue {}; values.1.len()],
-                    &vec![ck.1.clone()],
-                ),
-            )?;
+        let ck_t = vec![ck.1.clone()];
+        let com = (
+            LMC::commit(ck.0, values.0)?,
+            structured_scalar(values.1),
+            IPC::commit(&ck_t, &vec![IP::inner_product(values.0, values.1)?])?,
+        );
+        let (proof, _) = <GIPA<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>>::_prove(
+            (values.0.to_vec(), values.1.to_vec()),
+            (
+                ck.0.to_vec(),
+                vec![HomomorphicPlaceholderValue {}; values.1.len()],
+                ck_t,
+            ),
+            com,
+        )?;
         Ok(proof)
     }
 
@@ -90,11 +100,10 @@ where
         proof: &GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
     ) -> Result<bool, Error> {
         // Calculate base commitments and recursive transcript
-        //TODO: Scalar b not included in generating challenges
-        let (base_com, transcript) = GIPA::verify_recursive_challenge_transcript(
-            (com.0, &LMC::Scalar::zero(), com.1),
-            proof,
-        )?;
+        let (mut base_com, transcript) =
+            GIPA::verify_recursive_challenge_transcript((com.0, scalar_b, com.1), proof)?;
+        // The scalar only determines the challenges: the placeholder commitment is to zero
+        base_com.1 -= scalar_b;
         // Calculate base commitment keys
         let (ck_a_base, ck_b_base) = GIPA::<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>::_compute_final_commitment_keys(
             (&ck.0, &vec![HomomorphicPlaceholderValue {}; ck.0.len()], &ck.1),
@@ -215,14 +224,21 @@ where
     ) -> Result<TIPAWithSSMProof<IP, LMC, IPC, P, D>, Error> {
         // Run GIPA
         let gipa = start_timer!(|| "GIPA");
+        let ck_t = vec![ck.1.clone()];
+        let com = (
+            LMC::commit(ck.0, values.0)?,
+            structured_scalar(values.1),
+            IPC::commit(&ck_t, &vec![IP::inner_product(values.0, values.1)?])?,
+        );
         let (proof, aux) =
-            <GIPA<IP, LMC, SSMPlaceholderCommitment<P::ScalarField>, IPC, D>>::prove_with_aux(
-                values,
+            <GIPA<IP, LMC, SSMPlaceholderCommitment<P::ScalarField>, IPC, D>>::_prove(
+                (values.0.to_vec(), values.1.to_vec()),
                 (
-                    ck.0,
-                    &vec![HomomorphicPlaceholderValue {}; values.1.len()],
-                    &vec![ck.1.clone()],
+                    ck.0.to_vec(),
+                    vec![HomomorphicPlaceholderValue {}; values.1.len()],
+                    ck_t,
                 ),
+                com,
             )?;
         end_timer!(gipa);
 
-- 
2.43.0


From cde107ffccb2ddbad0ffba85b812ce32fbf431ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:43 +0000
Subject: [PATCH 03/10] fix: aggregate verifier checks the number of public
 inputs of every proof

Only the first proof's inputs were checked, by a panic; surplus inputs of any
other proof were ignored, missing ones and an empty list made it panic.
---
 .../src/applications/groth16_aggregation.rs    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/groth16_aggregation.rs b/ip_proofs/src/applications/groth16_aggregation.rs
index 8772bf7..689db7e 100644
--- a/ip_proofs/src/applications/groth16_aggregation.rs
+++ b/ip_proofs/src/applications/groth16_aggregation.rs
@@ -11,7 +11,7 @@ use crate::{
         structured_scalar_message::{structured_scalar_power, TIPAWithSSM, TIPAWithSSMProof},
         TIPAProof, VerifierSRS, SRS, TIPA,
     },
-    Error,
+    Error, InnerProductArgumentError,
 };
 use ark_dh_commitments::{
     afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
@@ -206,6 +206,21 @@ where
     P: Pairing,
     D: Digest,
 {
+    // Every proof must come with exactly the public inputs of the verifying key
+    if public_inputs.is_empty() {
+        return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+            0, 0,
+        )));
+    }
+    for inputs in public_inputs {
+        if inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                inputs.len() + 1,
+                vk.gamma_abc_g1.len(),
+            )));
+        }
+    }
+
     // Random linear combination of proofs
     let mut counter_nonce: usize = 0;
     let r = loop {
@@ -246,7 +261,6 @@ where
         / &(r.clone() - &<P::ScalarField>::one());
     let p1 = P::pairing(P::G1::from(vk.alpha_g1) * r_sum, vk.beta_g2);
 
-    assert_eq!(vk.gamma_abc_g1.len(), public_inputs[0].len() + 1);
     let r_vec = structured_scalar_power(public_inputs.len(), &r);
     let mut g_ic = P::G1::from(vk.gamma_abc_g1[0]) * r_sum;
     for (i, b) in vk.gamma_abc_g1.iter().skip(1).enumerate() {
-- 
2.43.0


From 0667b1ba1948c78a25be48b24ff5876111a11071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 04/10] fix: refuse polynomials that do not fit the univariate
 commitment keys

Coefficients beyond the keys' capacity were silently dropped by commit and
open, so that different polynomials had the same commitment.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 1 +
 ip_proofs/src/applications/poly_commit/transparent.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index f8ffece..8225692 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -340,6 +340,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.degree() + 1);
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index e154937..ac84d58 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -273,6 +273,7 @@ impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
         polynomial: &UnivariatePolynomial<P::ScalarField>,
     ) -> BivariatePolynomial<P::ScalarField> {
         let (x_degree, y_degree) = bivariate_degrees;
+        assert!((x_degree + 1) * (y_degree + 1) >= polynomial.degree() + 1);
         let default_zero = vec![P::ScalarField::zero()];
         let mut coeff_iter = polynomial
             .coeffs
-- 
2.43.0


From e0eadcc90fb4654373a47d37e437be953a986522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 05/10] fix: univariate polynomial commitment setup for degree
 0

The skew factor was 0, so setup panicked with a division by zero.
---
 ip_proofs/src/applications/poly_commit/mod.rs         | 4 +++-
 ip_proofs/src/applications/poly_commit/transparent.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ip_proofs/src/applications/poly_commit/mod.rs b/ip_proofs/src/applications/poly_commit/mod.rs
index 8225692..801afeb 100644
--- a/ip_proofs/src/applications/poly_commit/mod.rs
+++ b/ip_proofs/src/applications/poly_commit/mod.rs
@@ -323,7 +323,9 @@ pub struct UnivariatePolynomialCommitment<P: Pairing, D: Digest> {
 impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
     fn bivariate_degrees(univariate_degree: usize) -> (usize, usize) {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
-        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
+        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize)
+            .next_power_of_two()
+            .max(2);
         // Skew split between bivariate degrees to account for KZG being less expensive than MIPP
         let skew_factor = if sqrt >= 32 { 16_usize } else { sqrt / 2 };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
diff --git a/ip_proofs/src/applications/poly_commit/transparent.rs b/ip_proofs/src/applications/poly_commit/transparent.rs
index ac84d58..f57fc25 100644
--- a/ip_proofs/src/applications/poly_commit/transparent.rs
+++ b/ip_proofs/src/applications/poly_commit/transparent.rs
@@ -256,7 +256,9 @@ pub struct UnivariatePolynomialCommitment<P: Pairing, D: Digest> {
 impl<P: Pairing, D: Digest> UnivariatePolynomialCommitment<P, D> {
     fn bivariate_degrees(univariate_degree: usize) -> (usize, usize) {
         //(((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two() - 1;
-        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize).next_power_of_two();
+        let sqrt = (((univariate_degree + 1) as f64).sqrt().ceil() as usize)
+            .next_power_of_two()
+            .max(2);
         // Skew split between bivariate degrees to account for scalar IPA being less expensive than MIPP
         let skew_factor = if sqrt >= 8 { 4_usize } else { sqrt / 2 };
         (sqrt / skew_factor - 1, sqrt * skew_factor - 1)
-- 
2.43.0


From fc50d948ee063235295b44fe52161e93ad5d8656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 06/10] fix: TIPA arguments for a single element

prove panicked for vectors of length one and verify panicked on any proof
without rounds, because the last challenge of an empty transcript was taken.
---
 ip_proofs/src/tipa/mod.rs                       | 6 ++++--
 ip_proofs/src/tipa/structured_scalar_message.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ip_proofs/src/tipa/mod.rs b/ip_proofs/src/tipa/mod.rs
index d1731ec..0fd8418 100644
--- a/ip_proofs/src/tipa/mod.rs
+++ b/ip_proofs/src/tipa/mod.rs
@@ -198,7 +198,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
@@ -261,7 +262,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             ck_b_final.serialize_uncompressed(&mut hash_input)?;
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index 05729a5..b9b8143 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -257,7 +257,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
@@ -308,7 +309,8 @@ where
             hash_input.extend_from_slice(&counter_nonce.to_be_bytes()[..]);
             transcript
                 .first()
-                .unwrap()
+                .cloned()
+                .unwrap_or_default()
                 .serialize_uncompressed(&mut hash_input)?;
             ck_a_final.serialize_uncompressed(&mut hash_input)?;
             if let Some(c) = LMC::Scalar::from_random_bytes(&D::digest(&hash_input)) {
-- 
2.43.0


From de4a9b25fb752d0e984e62a21e7c8f8982cae4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 07/10] fix: GIPA verifiers return an error on a wrong number
 of rounds

They panicked in an assertion, after building 2^rounds challenge products.
---
 ip_proofs/src/gipa.rs                           | 15 +++++++++++++++
 ip_proofs/src/tipa/structured_scalar_message.rs |  1 +
 2 files changed, 16 insertions(+)

diff --git a/ip_proofs/src/gipa.rs b/ip_proofs/src/gipa.rs
index ca3b191..3641f5c 100644
--- a/ip_proofs/src/gipa.rs
+++ b/ip_proofs/src/gipa.rs
@@ -147,6 +147,7 @@ where
                 ck.1.len(),
             )));
         }
+        Self::_check_number_of_rounds(ck.0.len(), proof)?;
         // Calculate base commitment and transcript
         let (base_com, transcript) = Self::_compute_recursive_challenges(
             (com.0.clone(), com.1.clone(), com.2.clone()),
@@ -325,6 +326,20 @@ where
         ))
     }
 
+    // A proof for messages of length n has log2(n) rounds
+    pub(crate) fn _check_number_of_rounds(
+        length: usize,
+        proof: &GIPAProof<IP, LMC, RMC, IPC, D>,
+    ) -> Result<(), Error> {
+        let num_rounds = proof.r_commitment_steps.len();
+        if !length.is_power_of_two() || length.trailing_zeros() as usize != num_rounds {
+            return Err(Box::new(InnerProductArgumentError::MessageLengthInvalid(
+                length, num_rounds,
+            )));
+        }
+        Ok(())
+    }
+
     // Helper function used to calculate recursive challenges from proof execution (transcript in reverse)
     pub fn verify_recursive_challenge_transcript(
         com: (&LMC::Output, &RMC::Output, &IPC::Output),
diff --git a/ip_proofs/src/tipa/structured_scalar_message.rs b/ip_proofs/src/tipa/structured_scalar_message.rs
index b9b8143..7adf0f2 100644
--- a/ip_proofs/src/tipa/structured_scalar_message.rs
+++ b/ip_proofs/src/tipa/structured_scalar_message.rs
@@ -99,6 +99,7 @@ where
         scalar_b: &LMC::Scalar,
         proof: &GIPAProof<IP, LMC, SSMPlaceholderCommitment<LMC::Scalar>, IPC, D>,
     ) -> Result<bool, Error> {
+        GIPA::_check_number_of_rounds(ck.0.len(), proof)?;
         // Calculate base commitments and recursive transcript
         let (mut base_com, transcript) =
             GIPA::verify_recursive_challenge_transcript((com.0, scalar_b, com.1), proof)?;
-- 
2.43.0


From 0d0a644cabd865acbcf38233b46a28e810a0e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:55 +0000
Subject: [PATCH 08/10] fix: SIPP verifier returns an error on a wrong number
 of proof elements

It panicked on such proofs, which come from the untrusted prover.
---
 sipp/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sipp/src/lib.rs b/sipp/src/lib.rs
index 742c3cf..2f18b4b 100644
--- a/sipp/src/lib.rs
+++ b/sipp/src/lib.rs
@@ -135,7 +135,9 @@ where
         assert_eq!(length, b.len());
         // Ensure there are the correct number of proof elements
         let proof_len = proof.gt_elems.len();
-        assert_eq!(proof_len as f32, f32::log2(length as f32));
+        if proof_len != length.trailing_zeros() as usize {
+            return Err(());
+        }
 
         // TODO(psi): should we also input a succinct bilinear group description to the rng?
         let mut rng = {
-- 
2.43.0


From c2b54d7c8c0401da97b1d28ce60d0c61efd25864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 09/10] fix: Fiat-Shamir generator keeps seeding and absorbing
 apart

from_seed(m || H(s)) gave the same stream as from_seed(s) followed by
absorb(m), so two different histories shared all their output.
---
 sipp/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sipp/src/rng.rs b/sipp/src/rng.rs
index 531fa7b..2ea0941 100644
--- a/sipp/src/rng.rs
+++ b/sipp/src/rng.rs
@@ -52,7 +52,8 @@ where
     /// `self.seed = H(self.seed || new_seed)`.
     #[inline]
     pub fn from_seed(seed: &[u8]) -> Self {
-        let digested_seed = D::digest(&seed);
+        // a last byte keeps seeding and absorbing apart
+        let digested_seed = D::digest(&[seed, &[0u8]].concat());
         let r = ChaChaRng::from_seed(digested_seed.into());
         Self {
             r,
@@ -67,6 +68,7 @@ where
     pub fn absorb(&mut self, seed: &[u8]) {
         let mut bytes = seed.to_vec();
         bytes.extend_from_slice(&self.seed);
+        bytes.push(1u8);
         self.seed = D::digest(&bytes);
         self.r = ChaChaRng::from_seed(self.seed.into());
     }
-- 
2.43.0


From d905324182329dcfb1afc62a85f577ff6fcca544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 10/10] fix: a list of several elements is no sum of shorter
 ones

GIPA verifiers accepted a claimed inner product with surplus elements, because
adding identity commitments of different lengths dropped them.
---
 dh_commitments/src/identity/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dh_commitments/src/identity/mod.rs b/dh_commitments/src/identity/mod.rs
index 0ec793e..be81316 100644
--- a/dh_commitments/src/identity/mod.rs
+++ b/dh_commitments/src/identity/mod.rs
@@ -41,6 +41,11 @@ where
     type Output = Self;
 
     fn add(self, rhs: Self) -> Self::Output {
+        // Lists of different lengths have no sum: surplus elements must not get lost, or a list
+        // would pass for its first elements
+        if self.0.len() != rhs.0.len() {
+            return IdentityOutput(vec![]);
+        }
         IdentityOutput(
             self.0
                 .iter()
-- 
2.43.0

