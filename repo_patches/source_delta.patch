From f2143cf80415a0e99814433da2c8e58f7e995b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 01/26] fix: refuse field encodings of the wrong length instead
 of panicking

---
 src/field/field.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/field/field.rs b/src/field/field.rs
index bdb225e..76f03a3 100644
--- a/src/field/field.rs
+++ b/src/field/field.rs
@@ -81,6 +81,9 @@ pub trait Field:
     }
 
     fn from_canonical_u8_vec(u8_limbs: Vec<u8>) -> Result<Self> {
+        if u8_limbs.len() != Self::BYTES {
+            return Err(Error::msg("Wrong number of bytes"));
+        }
         let mut u64_chunks = Vec::new();
         for u8_chunk in u8_limbs.chunks(8) {
             u64_chunks.push(
-- 
2.43.0


From d7ae78e01f981a4a267b3575d04f1cd263f76c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 02/26] fix: doubling a point of order two gives the identity

---
 src/curve/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index 1be98a8..153a686 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -116,7 +116,8 @@ impl<C: Curve> AffinePoint<C> {
             zero,
         } = *self;
 
-        if zero {
+        // A point with y = 0 has order two.
+        if zero || y1.is_zero() {
             return AffinePoint::ZERO;
         }
 
@@ -233,7 +234,8 @@ impl<C: Curve> ProjectivePoint<C> {
 
     pub fn double(&self) -> Self {
         let Self { x, y, z, zero } = *self;
-        if zero {
+        // A point with y = 0 has order two.
+        if zero || y.is_zero() {
             return ProjectivePoint::ZERO;
         }
 
-- 
2.43.0


From 4fd1a41890ada06f68bafd298a6b4b6222ecca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 03/26] fix: polynomial division with zero dividends, padded
 divisors and sparse quotients or divisors

---
 src/polynomial.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..c5c4b86 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -248,7 +250,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b[..=b_degree].iter().enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
@@ -272,7 +274,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -287,6 +289,8 @@ impl<F: Field> Polynomial<F> {
             if b.len() > l {
                 b.drain(l..);
             }
+            // Keep the coefficients of the next half aligned, even if the leading ones are zero.
+            b.pad(l);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -297,12 +301,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
@@ -312,11 +318,11 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            let q_len = a_degree - b_degree + 1;
+            let mut rev_q = rev_b_inv.mul(&self.rev()[..q_len].to_vec().into()).0;
+            // The reversed quotient has exactly `q_len` coefficients, some of which may be zero.
+            rev_q.resize(q_len, F::ZERO);
+            let mut q = Self(rev_q.into_iter().rev().collect());
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From 4d9854a9628528ce076ccf21a32b5e542df1d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 04/26] fix: identity points and trailing or non-canonical
 bytes in point and field encodings

---
 src/serialization.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..c15b85e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -31,13 +31,15 @@ impl<F: Field> FromBytes for F {
 
 impl<C: Curve> ToBytes for AffinePoint<C> {
     fn write<W: Write>(&self, mut writer: W) -> Result<()> {
-        let zero = if self.zero { 1 } else { 0 };
-        let odd = if self.y.to_canonical_u64_vec()[0] % 2 == 1 {
+        if self.zero {
+            writer.write_all(&[1])?;
+            return writer.write_all(&C::BaseField::ZERO.to_canonical_u8_vec());
+        }
+        let mask: u8 = if self.y.to_canonical_u64_vec()[0] % 2 == 1 {
             2
         } else {
             0
         };
-        let mask: u8 = zero | odd;
         writer.write_all(&[mask])?;
         writer.write_all(&self.x.to_canonical_u8_vec())
     }
@@ -48,23 +50,27 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
-        if mask & 1 == 1 {
-            return Ok(AffinePoint {
-                x: C::BaseField::ZERO,
-                y: C::BaseField::ZERO,
-                zero: true,
-            });
+        if mask > 2 {
+            return Err(Error::new(ErrorKind::Other, "Invalid point mask"));
         }
         let mut buf = vec![0u8; C::BaseField::BYTES];
         reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
+        if mask == 1 {
+            if x.is_nonzero() {
+                return Err(Error::new(ErrorKind::Other, "Non-canonical identity point"));
+            }
+            return Ok(AffinePoint::ZERO);
+        }
         let square_candidate = x.cube() + C::A * x + C::B;
         let y = square_candidate
             .square_root()
             .ok_or_else(|| Error::new(ErrorKind::Other, "Invalid x coordinate"))?;
-        if (y.to_canonical_u64_vec()[0] % 2) as u8 == (mask & 2) >> 1 {
+        if (y.to_canonical_u64_vec()[0] % 2) as u8 == mask >> 1 {
             Ok(AffinePoint::nonzero(x, y))
+        } else if y.is_zero() {
+            Err(Error::new(ErrorKind::Other, "Non-canonical sign of y = 0"))
         } else {
             Ok(AffinePoint::nonzero(x, -y))
         }
@@ -100,6 +106,9 @@ impl<'de, C: Curve> Deserialize<'de> for AffinePoint<C> {
             }
 
             fn visit_bytes<E: DeError>(self, v: &[u8]) -> std::result::Result<Self::Value, E> {
+                if v.len() != C::BaseField::BYTES + 1 {
+                    return Err(DeError::invalid_length(v.len(), &self));
+                }
                 AffinePoint::<C>::read(v).map_err(|e| DeError::custom(format!("{}", e)))
             }
         }
@@ -138,6 +147,9 @@ macro_rules! impl_serde_field {
                     }
 
                     fn visit_bytes<E: DeError>(self, v: &[u8]) -> std::result::Result<Self::Value, E> {
+                        if v.len() != <$field>::BYTES {
+                            return Err(DeError::invalid_length(v.len(), &self));
+                        }
                         <$field>::read(v).map_err(|e| DeError::custom(format!("{}", e)))
                     }
                 }
-- 
2.43.0


From 10ed87b0853171679ef97ae9f2cceb3b1212f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 05/26] fix: hand out each buffered transcript challenge only
 once

---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..f837231 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        // Without new inputs, the buffered outputs remain valid, and each must be used only once.
+        if self.input_buffer.is_empty() {
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        // Without new inputs, the buffered outputs remain valid, and each must be used only once.
+        if self.input_buffer.is_empty() {
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From e8705ef6bb528f2d6691d27a9de856d1760cce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 06/26] fix: bind public inputs in the transcript before any
 challenge is drawn

---
 src/plonk.rs       | 21 +++++++++++----------
 src/plonk_proof.rs |  7 +++----
 src/verifier.rs    |  4 ++++
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..630c47d 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -117,6 +117,16 @@ impl<C: HaloCurve> Circuit<C> {
             values_to_polynomials(&wire_values_by_wire_no_pis, &self.fft_precomputation_n)
         };
 
+        // Observe the public inputs. This must happen before any challenge is drawn; in particular they
+        // must not depend on alpha, which combines them in the public input quotient polynomial.
+        let public_inputs = (0..self.num_public_inputs)
+            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
+            .collect::<Vec<_>>();
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
+
         // Generate a random beta and gamma from the transcript.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_wires));
@@ -234,20 +244,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points.
         old_proofs
             .iter()
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..e4fbdc1 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -63,6 +63,9 @@ impl<C: HaloCurve> Proof<C> {
     ) -> Result<ProofChallenge<C>> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs).map_err(|_| anyhow!(error_msg))?,
+        );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
@@ -72,10 +75,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         old_proofs
             .iter()
             .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..d063dbe 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -56,6 +56,10 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     vk: &VerificationKey<C>,
     verify_g: bool,
 ) -> Result<Option<OldProof<C>>> {
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
     // Verify that the proof parameters are valid.
     check_proof_parameters(proof)?;
 
-- 
2.43.0


From ffda8da22259fb259d0131f13a85e048bb5cf9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 07/26] fix: derive the verifier's challenges with the key's
 security level

---
 src/plonk_proof.rs | 7 ++++---
 src/verifier.rs    | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index e4fbdc1..6f92c35 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -3,7 +3,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::plonk_challenger::Challenger;
 use crate::plonk_util::{halo_g, halo_n, halo_s};
-use crate::{AffinePoint, AffinePointTarget, Curve, Field, HaloCurve, PartialWitness, Target, SECURITY_BITS};
+use crate::{AffinePoint, AffinePointTarget, Curve, Field, HaloCurve, PartialWitness, Target};
 
 #[derive(Debug, Clone, Copy, Eq, PartialEq, Serialize, Deserialize)]
 pub struct SchnorrProof<C: HaloCurve> {
@@ -60,8 +60,9 @@ impl<C: HaloCurve> Proof<C> {
         &self,
         public_inputs: &[C::ScalarField],
         old_proofs: &[OldProof<C>],
+        security_bits: usize,
     ) -> Result<ProofChallenge<C>> {
-        let mut challenger = Challenger::new(SECURITY_BITS);
+        let mut challenger = Challenger::new(security_bits);
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_elements(
             &C::ScalarField::try_convert_all(public_inputs).map_err(|_| anyhow!(error_msg))?,
@@ -96,7 +97,7 @@ impl<C: HaloCurve> Proof<C> {
             challenger.observe_affine_points(&[self.halo_l[i], self.halo_r[i]]);
             let r_bf = challenger.get_challenge();
             let r_sf = r_bf.try_convert::<C::ScalarField>()?;
-            let r_bits = &r_sf.to_canonical_bool_vec()[..SECURITY_BITS];
+            let r_bits = &r_sf.to_canonical_bool_vec()[..security_bits];
             let u_j_squared = halo_n::<C>(r_bits);
             let u_j = u_j_squared.square_root().ok_or_else(|| {
                 anyhow!("Invalid transcript. Prover should have ensured that n(r) is square")
diff --git a/src/verifier.rs b/src/verifier.rs
index d063dbe..69bdb23 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -64,7 +64,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     check_proof_parameters(proof)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
-    let challs = proof.get_challenges(public_inputs, old_proofs)?;
+    let challs = proof.get_challenges(public_inputs, old_proofs, vk.security_bits)?;
 
     // Check the old proofs' openings.
     verify_old_proof_evaluation(old_proofs, &proof, challs.zeta)?;
-- 
2.43.0


From d516bec61aa79990a94b1e47ae792b2ed9ce587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 08/26] fix: run the curve addition generator only once its
 scalar bit is known

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..2846665 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -167,6 +167,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_ADDEND_Y,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
         ]
     }
 
-- 
2.43.0


From 8e2e12123f42362381565a38cf12b8483cd3e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 09/26] fix: mix all S-box outputs in the recursive form of the
 second Rescue step

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From 9a84e4701a8d5e8963e427e0e9ea390460da7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 10/26] fix: make base-4 range checks and the deterministic
 square root satisfiable

---
 src/circuit_builder.rs  | 55 +++++++++++++++++++++++++++--------------
 src/gates/base_4_sum.rs | 41 +++++++++++++++++++++++++-----
 2 files changed, 72 insertions(+), 24 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..602de4d 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,6 +192,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+
+            // Populate the unused limbs, so that the gate's generator can run.
+            for i in chunk.len()..Base4SumGate::<C>::NUM_LIMBS {
+                self.generate_constant(
+                    Target::Wire(Wire {
+                        gate,
+                        input: Base4SumGate::<C>::wire_limb(i),
+                    }),
+                    C::ScalarField::ZERO,
+                );
+            }
         }
     }
 
@@ -526,11 +537,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
-        for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
+        // Verify the decomposition by taking a weighted sum of the limbs. We accumulate the base 4
+        // limbs, starting with the most significant one, then add the second bit (scaled by its
+        // weight of 2). The first bit is always zero.
+        let dibits_be = dibits.into_iter().rev().collect::<Vec<_>>();
+        let mut sum = self.zero_wire();
+        for chunk in dibits_be.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
                 Base4SumGate::<C>::NUM_LIMBS,
@@ -539,14 +551,14 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
             let index = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(index));
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate: index,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
             for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
                 self.copy(
                     chunk[i],
                     Target::Wire(Wire {
@@ -554,13 +566,16 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            sum = Target::Wire(Wire {
+                gate: index,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            })
         }
-        self.copy(sum, x);
+        let four = self.constant_wire_u32(4);
+        let low_bits = self.double(bits[1]);
+        let sum = self.mul_add(sum, four, low_bits);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
@@ -822,7 +837,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
         // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        let mut dibits = self.split_base_4(x, num_dibits);
+
+        // The accumulators below shift by a dibit before adding the next one, so we need to start
+        // with the most significant dibit.
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
diff --git a/src/gates/base_4_sum.rs b/src/gates/base_4_sum.rs
index 03e6107..76515ab 100644
--- a/src/gates/base_4_sum.rs
+++ b/src/gates/base_4_sum.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::Gate;
-use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
 
 /// A gate for accumulating base-4 limbs.
 pub struct Base4SumGate<C: Curve> {
@@ -98,17 +98,46 @@ impl<C: HaloCurve> Gate<C> for Base4SumGate<C> {
 
 impl<C: HaloCurve> WitnessGenerator<C::ScalarField> for Base4SumGate<C> {
     fn dependencies(&self) -> Vec<Target<C::ScalarField>> {
-        Vec::new()
+        // The limbs are populated by a generator for the entire decomposition.
+        let mut inputs = vec![Self::WIRE_ACC_OLD];
+        inputs.extend((0..Self::NUM_LIMBS).map(Self::wire_limb));
+        inputs
+            .into_iter()
+            .map(|input| {
+                Target::Wire(Wire {
+                    gate: self.index,
+                    input,
+                })
+            })
+            .collect()
     }
 
     fn generate(
         &self,
         _constants: &[Vec<C::ScalarField>],
-        _witness: &PartialWitness<C::ScalarField>,
+        witness: &PartialWitness<C::ScalarField>,
     ) -> PartialWitness<C::ScalarField> {
-        // For base 4 decompositions, we don't do any witness generation on a per-gate level.
-        // Instead, we have a single generator which generates values for an entire decomposition.
-        PartialWitness::new()
+        let mut acc = witness.get_wire(Wire {
+            gate: self.index,
+            input: Self::WIRE_ACC_OLD,
+        });
+        for i in 0..Self::NUM_LIMBS {
+            let limb = witness.get_wire(Wire {
+                gate: self.index,
+                input: Self::wire_limb(i),
+            });
+            acc = acc.quadruple() + limb;
+        }
+
+        let mut result = PartialWitness::new();
+        result.set_wire(
+            Wire {
+                gate: self.index,
+                input: Self::WIRE_ACC_NEW,
+            },
+            acc,
+        );
+        result
     }
 }
 
-- 
2.43.0


From 575c090e8b30afe1cd9d7f204cf77a8f96bbed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 11/26] fix: unambiguous big integer splits and zero operands
 in big integer products

---
 src/circuit_bigint.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..30574c9 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -110,8 +110,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         if validate {
             // Check that we have a valid bigint encoding, with each limb being in the proper range.
-            for &limb in &limbs {
-                self.assert_dibit_length(limb, LIMB_DIBITS);
+            // The most significant limb only gets as many dibits as max calls for. Otherwise, a
+            // bigint which is meant to encode a native field element could also encode that
+            // element plus a multiple of the field's order.
+            for (i, &limb) in limbs.iter().enumerate() {
+                let max_limb_bits = max.bits() as usize - i * LIMB_BITS;
+                self.assert_dibit_length(limb, ceil_div_usize(max_limb_bits, 2).min(LIMB_DIBITS));
             }
         }
 
@@ -349,6 +353,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         let x_n = x.num_limbs();
         let y_n = y.num_limbs();
 
+        // A bigint without limbs is zero.
+        if x_n == 0 || y_n == 0 {
+            return BigIntTarget::zero();
+        }
+
         let mut result_digits = Vec::new();
         let mut carry: BigIntTarget<C::ScalarField> = BigIntTarget::zero();
 
@@ -371,6 +380,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
 
             let sum_of_limb_products_bigint = self.target_to_bigint(&sum_of_limb_products);
+            if sum_of_limb_products_bigint.num_limbs() == 0 {
+                // The sum is known to be zero.
+                result_digits.push(self.zero_wire());
+                carry = BigIntTarget::zero();
+                continue;
+            }
             let (first, rest) = sum_of_limb_products_bigint.split_smallest_limb();
             result_digits.push(first);
             carry = rest;
-- 
2.43.0


From 07e81130c8b78febf19498cadfef164f914fefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 12/26] fix: run generators that read or set public inputs

---
 src/circuit_builder.rs | 17 +++++++++++++++--
 src/witness.rs         |  5 ++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 602de4d..20c5b33 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -1122,7 +1122,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         let degree = self.num_gates();
         let degree_pow = log2_strict(degree);
-        let routing_target_partitions = self.get_routing_partitions();
+        let routing_target_partitions = self.get_routing_partitions(num_gates_without_pis);
         let wire_partitions = routing_target_partitions.to_wire_partitions();
         let sigma = wire_partitions.to_sigma();
 
@@ -1204,7 +1204,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         }
     }
 
-    fn get_routing_partitions(&self) -> TargetPartitions<C::ScalarField> {
+    fn get_routing_partitions(
+        &self,
+        num_gates_without_pis: usize,
+    ) -> TargetPartitions<C::ScalarField> {
         let mut partitions = TargetPartitions::new();
 
         for i in 0..self.virtual_target_index {
@@ -1220,6 +1223,16 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         for &(a, b) in &self.copy_constraints {
             partitions.merge(a, b);
         }
+
+        // Let generators refer to public inputs by giving each one the value of its routable wire.
+        for i in 0..self.public_input_index {
+            let pi = PublicInput::new(i);
+            partitions.add_partition(Target::PublicInput(pi));
+            partitions.merge(
+                Target::PublicInput(pi),
+                pi.routable_target(num_gates_without_pis),
+            );
+        }
         partitions
     }
 }
diff --git a/src/witness.rs b/src/witness.rs
index 90eef6c..e588d99 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -175,8 +175,8 @@ impl<F: Field> PartialWitness<F> {
         }
     }
 
-    /// Replace all `PublicInput`-type targets by their corresponding `Wire`-type targets
-    /// in the partial witness.
+    /// For each `PublicInput`-type target in the partial witness, also set the corresponding
+    /// `Wire`-type target.
     pub(crate) fn replace_public_inputs(&mut self, offset: usize) {
         let new_pis = self.wire_values.iter().filter_map(|(t, v)| {
             if let Target::PublicInput(pi) = t {
@@ -186,7 +186,6 @@ impl<F: Field> PartialWitness<F> {
             }
         }).collect::<Vec<_>>();
 
-        self.wire_values.retain(|t, _| !matches!(t, Target::PublicInput(_)));
         self.wire_values.extend(new_pis);
     }
 
-- 
2.43.0


From d252770fa85c8efca8f0db0440eff392dadb4510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 13/26] fix: give the in-circuit forms of the curve addition
 and endomorphism gates the native signs

---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index 2846665..a077e84 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..a81afd1 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From ff736cef4af5bdf1d6f97ff93ca7b3ae22703ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 14/26] fix: let identity points (unblinded commitments to
 zero) enter the transcript

---
 src/plonk_challenger.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index f837231..5e4b22b 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -41,9 +41,14 @@ impl<F: Field> Challenger<F> {
     }
 
     pub fn observe_affine_point<C: Curve<BaseField = F>>(&mut self, point: AffinePoint<C>) {
-        debug_assert!(!point.zero);
-        self.observe_element(point.x);
-        self.observe_element(point.y);
+        if point.zero {
+            // The identity has no affine coordinates. (0, 0) is on no curve with B != 0, so it is free to
+            // stand for it. Unblinded commitments to zero polynomials are identities.
+            self.observe_elements(&[F::ZERO; 2]);
+        } else {
+            self.observe_element(point.x);
+            self.observe_element(point.y);
+        }
     }
 
     pub fn observe_affine_points<C: Curve<BaseField = F>>(&mut self, points: &[AffinePoint<C>]) {
-- 
2.43.0


From 60919a58ae4a00dc1869f6ddfa77ca1e4bbc9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 15/26] fix: refuse proofs whose vectors do not have the shape
 the verification key calls for

---
 src/verifier.rs | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 69bdb23..c3a5732 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,7 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
-use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_CONSTANTS, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -61,7 +61,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
         "Incorrect number of public inputs."
     );
     // Verify that the proof parameters are valid.
-    check_proof_parameters(proof)?;
+    check_proof_parameters(proof, old_proofs.len(), vk)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs = proof.get_challenges(public_inputs, old_proofs, vk.security_bits)?;
@@ -289,20 +289,52 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
     Ok(())
 }
 
-/// Check that the parameters in a proof are well-formed, i.e,
-/// that curve points are on the curve, and field elements are in range.
-/// Panics otherwise.
-fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
+/// Check that the parameters in a proof are well-formed, i.e, that it has the shape the verification key
+/// calls for, that curve points are on the curve, and field elements are in range.
+fn check_proof_parameters<C: HaloCurve>(
+    proof: &Proof<C>,
+    num_old_proofs: usize,
+    vk: &VerificationKey<C>,
+) -> Result<()> {
     let Proof {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
         schnorr_proof,
         ..
     } = proof;
+    // Verify that the verification key and the proof have the expected shape. In particular, the opened
+    // values are only bound to their polynomials if each vector has exactly one value per polynomial.
+    ensure!(
+        vk.degree.is_power_of_two()
+            && vk.security_bits % 2 == 0
+            && vk.security_bits <= C::ScalarField::BITS
+            && vk.c_constants.len() == NUM_CONSTANTS
+            && vk.c_s_sigmas.len() == NUM_ROUTED_WIRES,
+        "The verification key is malformed."
+    );
+    ensure!(
+        c_wires.len() == NUM_WIRES && c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of polynomial commitments."
+    );
+    ensure!(
+        proof.all_opening_sets().iter().all(|o| {
+            o.o_constants.len() == NUM_CONSTANTS
+                && o.o_plonk_sigmas.len() == NUM_ROUTED_WIRES
+                && o.o_wires.len() == NUM_WIRES
+                && o.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && o.o_old_proofs.len() == num_old_proofs
+        }),
+        "Incorrect number of openings."
+    );
+    ensure!(
+        halo_l.len() == log2_strict(vk.degree),
+        "Incorrect number of Halo rounds."
+    );
     // Verify that the curve points are valid.
     ensure!(
         c_wires.iter().all(|p| p.is_valid()),
@@ -316,6 +348,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public inputs quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
-- 
2.43.0


From 8cc04a0fb44141ce349d78d55ecdadf1d7cea1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 16/26] fix: refuse deferred proofs and keys with malformed
 parts instead of hanging or crashing

---
 src/verifier.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index c3a5732..dce039a 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -281,6 +281,11 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
         bail!("Incorrect number of old proofs opening.")
     }
     for (i, p) in old_proofs.iter().enumerate() {
+        ensure!(
+            p.halo_g.is_valid() && p.halo_us.iter().all(|u| u.is_nonzero()),
+            "{}-th old proof is malformed",
+            i
+        );
         // If the value `v` doesn't match the corresponding wire in the `PublicInputGate`, return false.
         if halo_g(zeta, &p.halo_us) != proof.o_local.o_old_proofs[i] {
             bail!("{}-th old proof opening is incorrect", i);
@@ -314,7 +319,8 @@ fn check_proof_parameters<C: HaloCurve>(
             && vk.security_bits % 2 == 0
             && vk.security_bits <= C::ScalarField::BITS
             && vk.c_constants.len() == NUM_CONSTANTS
-            && vk.c_s_sigmas.len() == NUM_ROUTED_WIRES,
+            && vk.c_s_sigmas.len() == NUM_ROUTED_WIRES
+            && vk.c_constants.iter().chain(&vk.c_s_sigmas).all(|p| p.is_valid()),
         "The verification key is malformed."
     );
     ensure!(
-- 
2.43.0


From dabf4f1f0eda6caa789619f66e8239fe9f901210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 17/26] fix: pad lookups with a table value, and sort them into
 tables that have duplicates

---
 plookup/src/plookup.rs  | 49 ++++++++++++++++++++++++++++++-----------
 plookup/src/verifier.rs |  8 +++++--
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..048347e 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::too_many_arguments)]
 use crate::openings::open_all_polynomials;
 use crate::proof::PlookupProof;
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky::halo::batch_opening_proof;
 use plonky::plonk_challenger::Challenger;
 use plonky::plonk_util::reduce_with_powers;
@@ -14,12 +14,15 @@ pub const SECURITY_BITS: usize = 128;
 
 /// Computes a proof that `t` is a sub(multi)set of `f`, following the Plookup protocol (https://ia.cr/2020/315).
 pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result<PlookupProof<C>> {
+    ensure!(!t.is_empty(), "The table is empty.");
+    ensure!(
+        f.iter().all(|x| t.contains(x)),
+        "A value is not in the table."
+    );
     let (n, f, t) = pad_inputs(f, t);
 
     // Compute the `s` multiset of the Plookup protocol.
-    let mut s = f.clone();
-    s.extend_from_slice(&t);
-    sort_by(&mut s, &t);
+    let s = merge_by(&f, &t);
 
     // Initiate the Fiat-Shamir challenger.
     let mut challenger = Challenger::new(SECURITY_BITS);
@@ -152,20 +155,24 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     Ok(PlookupProof::from((commitments, openings, halo_proof, n)))
 }
 
+/// Pads `f` and `t` to lengths `n` and `n + 1`, where `n + 1` is a power of two. The padding repeats the
+/// last element of `t`, so that it neither adds a value to the table nor looks up one that isn't in it.
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
-    let d = t.len();
-    let f = if f.len() + 1 < d {
-        padded(f, d - 1)
-    } else {
-        f.to_vec()
-    };
-    let n = f.len().next_power_of_two() - 1;
+    let n = t.len().max(f.len() + 1).max(2).next_power_of_two() - 1;
 
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
+    let mut f = f.to_vec();
+    f.resize(n, t[t.len() - 1]);
+    let t = padded_table(t, n + 1);
     (n, f, t)
 }
 
+/// Pads a non-empty table to have length `n`, by repeating its last element.
+pub(crate) fn padded_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    let mut pad = t.to_vec();
+    pad.resize(n, t[t.len() - 1]);
+    pad
+}
+
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
 /// and elements of `f` appear in the same order as elements of `t`.
 fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
@@ -176,6 +183,22 @@ fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
     });
 }
 
+/// Merges `f` into `t`: each element of `f` is inserted after its first occurrence in `t`. Consecutive
+/// elements of the result are thus either equal or consecutive elements of `t`, even if `t` has duplicates.
+fn merge_by<F: Field>(f: &[F], t: &[F]) -> Vec<F> {
+    let mut f = f.to_vec();
+    sort_by(&mut f, t);
+    let mut f = f.into_iter().peekable();
+    let mut s = Vec::new();
+    for &x in t {
+        s.push(x);
+        while f.peek() == Some(&x) {
+            s.extend(f.next());
+        }
+    }
+    s
+}
+
 /// Computes the Plookup grand product polynomial.
 fn grand_polynomial<F: Field>(f: &[F], t: &[F], s: &[F], beta: F, gamma: F) -> Vec<F> {
     let n = f.len();
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..d409aa8 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,11 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    ensure!(
+        !t.is_empty() && t.len() <= n + 1,
+        "Incorrect table length"
+    );
+    let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From 9b52ab353fd6205fbead3581e180c410baa570e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 18/26] fix: check the G point and the shape of a lookup proof
 before accepting it, refuse instead of panicking

---
 plookup/src/proof.rs    | 19 +++++---------
 plookup/src/verifier.rs | 57 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/plookup/src/proof.rs b/plookup/src/proof.rs
index 8ba2b5f..1db7524 100644
--- a/plookup/src/proof.rs
+++ b/plookup/src/proof.rs
@@ -77,16 +77,9 @@ impl<C: HaloCurve> PlookupProof<C> {
         challenger.observe_affine_point(self.c_quotient);
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
-        let openings_bf: Vec<_> = self
-            .openings
-            .to_vec()
-            .into_iter()
-            .map(|f| {
-                C::try_convert_s2b(f)
-                    .expect("For now, we assume that all opened values fit in both fields")
-            })
-            .collect();
-        challenger.observe_elements(&openings_bf);
+        for f in self.openings.to_vec() {
+            challenger.observe_element(C::try_convert_s2b(f).map_err(|_| anyhow!(error_msg))?);
+        }
         let (v_bf, u_bf, u_scaling_bf) = challenger.get_3_challenges();
         let v = C::try_convert_b2s(v_bf).map_err(|_| anyhow!(error_msg))?;
         let u = C::try_convert_b2s(u_bf).map_err(|_| anyhow!(error_msg))?;
@@ -101,9 +94,9 @@ impl<C: HaloCurve> PlookupProof<C> {
             let r_sf = r_bf.try_convert::<C::ScalarField>()?;
             let r_bits = &r_sf.to_canonical_bool_vec()[..SECURITY_BITS];
             let u_j_squared = halo_n::<C>(r_bits);
-            let u_j = u_j_squared
-                .square_root()
-                .expect("Prover should have ensured that n(r) is square");
+            let u_j = u_j_squared.square_root().ok_or_else(|| {
+                anyhow!("Invalid transcript. Prover should have ensured that n(r) is square")
+            })?;
             halo_us.push(u_j);
         }
 
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index d409aa8..c868e46 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -2,18 +2,15 @@ use crate::plookup::{eval_l_i, padded_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
-use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
+use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use plonky::util::log2_strict;
 use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
 
 /// Verifies that a proof is valid for a set `t`.
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
+    check_proof_parameters(t.len(), proof)?;
     let n = proof.n;
-    ensure!(
-        !t.is_empty() && t.len() <= n + 1,
-        "Incorrect table length"
-    );
     let t = padded_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
@@ -98,7 +95,55 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
         "Invalid IPA proof."
     );
 
-    // TODO: Add option to verify `halo_g` point.
+    // Verify that `halo_g = <s, G>`.
+    // TODO: Add option to defer this check.
+    let msm_precomputation_2n2 = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
+    ensure!(
+        proof.halo_proof.halo_g
+            == pedersen_hash(&halo_s(&challs.halo_us), &msm_precomputation_2n2).to_affine(),
+        "Invalid G point."
+    );
+    Ok(())
+}
+
+/// Checks that the proof has the shape called for by `n`, that its points are on the curve, and that `n` fits
+/// the table.
+fn check_proof_parameters<C: HaloCurve>(table_len: usize, proof: &PlookupProof<C>) -> Result<()> {
+    let n = proof.n;
+    // The vanishing polynomial is evaluated on a subgroup of order `4 * (n + 1)`.
+    ensure!(
+        n > 0
+            && n < 1 << (C::ScalarField::TWO_ADICITY - 2).min(32)
+            && (n + 1).is_power_of_two(),
+        "Incorrect number of lookups."
+    );
+    ensure!(
+        table_len > 0 && table_len <= n + 1,
+        "Incorrect table length."
+    );
+    let halo_proof = &proof.halo_proof;
+    ensure!(
+        halo_proof.halo_l.len() == log2_strict(2 * n + 2)
+            && halo_proof.halo_r.len() == halo_proof.halo_l.len(),
+        "Incorrect number of Halo rounds."
+    );
+    ensure!(
+        [
+            proof.c_f,
+            proof.c_t,
+            proof.c_h1,
+            proof.c_h2,
+            proof.c_z,
+            proof.c_quotient,
+            halo_proof.halo_g,
+            halo_proof.schnorr_proof.r,
+        ]
+        .iter()
+        .chain(&halo_proof.halo_l)
+        .chain(&halo_proof.halo_r)
+        .all(|p| p.is_valid()),
+        "A point is not on the curve."
+    );
     Ok(())
 }
 
-- 
2.43.0


From a4a6feb10a7d0c72023f79a4a54f01711393e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 19/26] fix: a Lagrange basis polynomial is one, not zero, at
 its own node

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 048347e..8ee532e 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -298,7 +298,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From 93e61cadc5e4277a37633c422078974f4f5e6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 20/26] fix: in-circuit evaluation of the Halo polynomial g
 squares, not doubles, the power of x

---
 src/plonk_recursion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 464b125..ab7ee3a 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -603,7 +603,7 @@ fn halo_g_recursive<C: HaloCurve>(
         let u_i_inv = builder.inv(u_i);
         let term = builder.mul_add(u_i, x_power, u_i_inv);
         product = builder.mul(product, term);
-        x_power = builder.double(x_power);
+        x_power = builder.square(x_power);
     }
     product
 }
-- 
2.43.0


From 46a3eb64bb16fd84d80988e491af2559bdb59040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 21/26] fix: in-circuit verification raises zeta to the degree
 by squaring, not doubling

---
 src/plonk_recursion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index ab7ee3a..a3b6ed4 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -510,7 +510,7 @@ fn verify_assumptions<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField
     // Evaluate zeta^degree.
     let mut zeta_power_d = zeta;
     for _i in 0..degree_pow {
-        zeta_power_d = builder.double(zeta_power_d);
+        zeta_power_d = builder.square(zeta_power_d);
     }
 
     // Evaluate Z_H(zeta) = zeta^degree - 1.
-- 
2.43.0


From 85e108b166e19ac6c23b981c84821e4b599df9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 22/26] hooks: private parts of in-circuit verification, behind
 cfg(plonky_hooks)

---
 src/plonk_recursion.rs       |   3 +
 src/plonk_recursion/hooks.rs | 191 +++++++++++++++++++++++++++++++++++
 2 files changed, 194 insertions(+)
 create mode 100644 src/plonk_recursion/hooks.rs

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index a3b6ed4..b7a077a 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -5,6 +5,9 @@ use crate::plonk_util::{powers_recursive, reduce_with_powers_recursive};
 use crate::util::ceil_div_usize;
 use crate::{get_subgroup_shift, hash_usize_to_curve, AffinePointTarget, Circuit, CircuitBuilder, CurveMulEndoResult, CurveMulOp, Field, HaloCurve, OpeningSetTarget, ProofTarget, SchnorrProofTarget, Target, GRID_WIDTH, NUM_CONSTANTS, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
+#[cfg(plonky_hooks)]
+pub mod hooks;
+
 /// Wraps a `Circuit` for recursive verification with inputs for the proof data.
 /// The circuit is over the field `C::ScalarField` and verifies a proof performed over the curve `InnerC`.
 pub struct RecursiveCircuit<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> {
diff --git a/src/plonk_recursion/hooks.rs b/src/plonk_recursion/hooks.rs
new file mode 100644
index 0000000..5920fcc
--- /dev/null
+++ b/src/plonk_recursion/hooks.rs
@@ -0,0 +1,191 @@
+//! Access to the private parts of in-circuit verification, for external monitoring. Compiled only
+//! with `--cfg plonky_hooks`.
+
+use super::*;
+use crate::PublicInput;
+
+/// The in-circuit transcript.
+pub struct Transcript<F: Field>(RecursiveChallenger<F>);
+
+impl<F: Field> Transcript<F> {
+    pub fn new<C: HaloCurve<ScalarField = F>>(builder: &mut CircuitBuilder<C>) -> Self {
+        Transcript(RecursiveChallenger::new(builder))
+    }
+
+    pub fn observe_element(&mut self, element: Target<F>) {
+        self.0.observe_element(element)
+    }
+
+    pub fn observe_elements(&mut self, elements: &[Target<F>]) {
+        self.0.observe_elements(elements)
+    }
+
+    pub fn observe_point<C: HaloCurve<BaseField = F>>(&mut self, point: AffinePointTarget<C>) {
+        self.0.observe_affine_point(point)
+    }
+
+    pub fn observe_points<C: HaloCurve<BaseField = F>>(&mut self, points: &[AffinePointTarget<C>]) {
+        self.0.observe_affine_points(points)
+    }
+
+    pub fn get_1<C: HaloCurve<ScalarField = F>>(&mut self, builder: &mut CircuitBuilder<C>) -> Vec<Target<F>> {
+        vec![self.0.get_challenge(builder)]
+    }
+
+    pub fn get_2<C: HaloCurve<ScalarField = F>>(&mut self, builder: &mut CircuitBuilder<C>) -> Vec<Target<F>> {
+        let (a, b) = self.0.get_2_challenges(builder);
+        vec![a, b]
+    }
+
+    pub fn get_3<C: HaloCurve<ScalarField = F>>(&mut self, builder: &mut CircuitBuilder<C>) -> Vec<Target<F>> {
+        let (a, b, c) = self.0.get_3_challenges(builder);
+        vec![a, b, c]
+    }
+
+    pub fn get_n<C: HaloCurve<ScalarField = F>>(&mut self, builder: &mut CircuitBuilder<C>, n: usize) -> Vec<Target<F>> {
+        self.0.get_n_challenges(builder, n)
+    }
+}
+
+pub fn powers<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    x: Target<C::ScalarField>,
+    n: usize,
+) -> Vec<Target<C::ScalarField>> {
+    powers_recursive(builder, x, n)
+}
+
+pub fn combine_with_powers<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    terms: &[Target<C::ScalarField>],
+    alpha: Target<C::ScalarField>,
+) -> Target<C::ScalarField> {
+    reduce_with_powers_recursive(builder, terms, alpha)
+}
+
+pub fn combine_with_coefficients<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    terms: &[Target<C::ScalarField>],
+    coefficients: &[Target<C::ScalarField>],
+) -> Target<C::ScalarField> {
+    reduce_with_coefficients(builder, terms, coefficients)
+}
+
+pub fn composite_evaluation<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    components: &[Target<C::ScalarField>],
+    zeta_power_d: Target<C::ScalarField>,
+) -> Target<C::ScalarField> {
+    eval_composite_poly(builder, components, zeta_power_d)
+}
+
+pub fn g_evaluation<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    x: Target<C::ScalarField>,
+    us: &[Target<C::ScalarField>],
+) -> Target<C::ScalarField> {
+    halo_g_recursive(builder, x, us)
+}
+
+pub fn old_proof_evaluation<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
+    builder: &mut CircuitBuilder<C>,
+    old_proofs: &[OldProofTarget<InnerC>],
+    o_local: &OpeningSetTarget<C>,
+    zeta: Target<C::ScalarField>,
+) {
+    verify_old_proof_evaluation::<C, InnerC>(builder, old_proofs, o_local, zeta)
+}
+
+#[allow(clippy::too_many_arguments)]
+pub fn final_equation<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
+    builder: &mut CircuitBuilder<C>,
+    proof: &ProofTarget<C, InnerC>,
+    u_prime: AffinePointTarget<InnerC>,
+    halo_q: AffinePointTarget<InnerC>,
+    halo_b: Target<C::ScalarField>,
+    schnorr_challenge: Target<C::ScalarField>,
+    security_bits: usize,
+) {
+    verify_schnorr::<C, InnerC>(
+        builder,
+        proof,
+        u_prime,
+        halo_q,
+        halo_b,
+        schnorr_challenge,
+        security_bits,
+    )
+}
+
+/// The data about an inner proof which the next proof checks.
+#[derive(Clone)]
+pub struct Assumptions<F: Field> {
+    pub beta: Target<F>,
+    pub gamma: Target<F>,
+    pub alpha: Target<F>,
+    pub zeta: Target<F>,
+    pub o_constants: Vec<Target<F>>,
+    pub o_plonk_sigmas: Vec<Target<F>>,
+    pub o_local_wires: Vec<Target<F>>,
+    pub o_right_wires: Vec<Target<F>>,
+    pub o_below_wires: Vec<Target<F>>,
+    pub o_plonk_z_local: Target<F>,
+    pub o_plonk_z_right: Target<F>,
+    pub o_plonk_t: Vec<Target<F>>,
+    pub halo_us: Vec<Target<F>>,
+    pub old_proofs: Vec<Target<F>>,
+}
+
+/// Check the assumptions held by the given targets, in place of the openings of an inner proof's
+/// public inputs.
+pub fn check_assumptions<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
+    builder: &mut CircuitBuilder<C>,
+    degree_pow: usize,
+    assumptions: &Assumptions<C::ScalarField>,
+) {
+    let mut opened = Vec::new();
+    let mut one = |t: Target<C::ScalarField>| {
+        opened.push(t);
+        Target::PublicInput(PublicInput::new(opened.len() - 1))
+    };
+    let mut many = |ts: &[Target<C::ScalarField>]| ts.iter().map(|&t| one(t)).collect::<Vec<_>>();
+    let a = assumptions;
+    let singles = many(&[a.beta, a.gamma, a.alpha, a.zeta, a.o_plonk_z_local, a.o_plonk_z_right]);
+    let public_inputs = RecursionPublicInputs {
+        beta: singles[0],
+        gamma: singles[1],
+        alpha: singles[2],
+        zeta: singles[3],
+        o_constants: many(&a.o_constants),
+        o_plonk_sigmas: many(&a.o_plonk_sigmas),
+        o_local_wires: many(&a.o_local_wires),
+        o_right_wires: many(&a.o_right_wires),
+        o_below_wires: many(&a.o_below_wires),
+        o_plonk_z_local: singles[4],
+        o_plonk_z_right: singles[5],
+        o_plonk_t: many(&a.o_plonk_t),
+        halo_us: many(&a.halo_us),
+        old_proofs: many(&a.old_proofs),
+    };
+    verify_assumptions::<C, InnerC>(builder, degree_pow, &public_inputs, &opened)
+}
+
+/// What the public inputs of a recursive circuit stand for.
+pub fn exposed<F: Field>(pis: &RecursionPublicInputs<F>) -> Assumptions<F> {
+    Assumptions {
+        beta: pis.beta,
+        gamma: pis.gamma,
+        alpha: pis.alpha,
+        zeta: pis.zeta,
+        o_constants: pis.o_constants.clone(),
+        o_plonk_sigmas: pis.o_plonk_sigmas.clone(),
+        o_local_wires: pis.o_local_wires.clone(),
+        o_right_wires: pis.o_right_wires.clone(),
+        o_below_wires: pis.o_below_wires.clone(),
+        o_plonk_z_local: pis.o_plonk_z_local,
+        o_plonk_z_right: pis.o_plonk_z_right,
+        o_plonk_t: pis.o_plonk_t.clone(),
+        halo_us: pis.halo_us.clone(),
+        old_proofs: pis.old_proofs.clone(),
+    }
+}
-- 
2.43.0


From 11cd99ce739f07f167534f3ef10c0d1ac8346001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 23/26] fix: the in-circuit opening check left out the
 commitments of old proofs

---
 src/plonk_recursion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index b7a077a..2ede4f7 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -141,6 +141,7 @@ pub fn recursive_verification_circuit<
     let halo_us = verify_all_ipas::<C, InnerC>(
         &mut builder,
         &proof,
+        &old_proofs,
         zeta,
         u,
         v,
@@ -225,6 +226,7 @@ pub fn recursive_verification_circuit<
 fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
     builder: &mut CircuitBuilder<C>,
     proof: &ProofTarget<C, InnerC>,
+    old_proofs: &[OldProofTarget<InnerC>],
     zeta: Target<C::ScalarField>,
     u: Target<C::ScalarField>,
     v: Target<C::ScalarField>,
@@ -246,6 +248,7 @@ fn verify_all_ipas<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>(
         proof.c_wires.clone(),
         vec![proof.c_plonk_z],
         proof.c_plonk_t.clone(),
+        old_proofs.iter().map(|p| p.halo_g).collect(),
     ]
     .concat();
     let mut c_reduction_muls = Vec::new();
-- 
2.43.0


From b92209db7f7dbff96c3811b15a76dde1d17faf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 24/26] fix: a value given for a public input's own wire was
 silently overwritten

---
 src/witness.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/witness.rs b/src/witness.rs
index e588d99..3e0ce6c 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -186,7 +186,9 @@ impl<F: Field> PartialWitness<F> {
             }
         }).collect::<Vec<_>>();
 
-        self.wire_values.extend(new_pis);
+        for (target, value) in new_pis {
+            self.set_target(target, value);
+        }
     }
 
     /// Looks through the keys and looks for targets in `BufferGate`s following a `PublicInputGate`.
-- 
2.43.0


From 2e48c1a9aea0e8cb58090ba0f8d385049da927cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 25/26] fix: the challenges of earlier proofs were not part of
 the transcript

---
 src/plonk.rs       | 11 +++++++----
 src/plonk_proof.rs |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index 630c47d..d9e7d33 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -249,10 +249,13 @@ impl<C: HaloCurve> Circuit<C> {
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
         // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the old proofs' `G` points.
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        // Observe the old proofs' `G` points, and the challenges defining the polynomials they commit to.
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            for &u in &old_proof.halo_us {
+                challenger.observe_element(C::try_convert_s2b(u)?);
+            }
+        }
         // Generate a random `zeta` from the transcript.
         let zeta_bf = challenger.get_challenge();
         let zeta_sf =
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 6f92c35..593ba01 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -76,9 +76,12 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            for &u in &old_proof.halo_us {
+                challenger.observe_element(C::try_convert_s2b(u).map_err(|_| anyhow!(error_msg))?);
+            }
+        }
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
         for os in self.all_opening_sets().iter() {
-- 
2.43.0


From 4511b05ccab2699f818465feeb6c3cca7cd7a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 26/26] fix: the permutation polynomial and the quotient chunks
 were not masked

The random values in the blinding gates were not part of any copy cycle, so that Z and its openings
were determined by the rest of the witness, and there were as many of them per wire as openings of
that wire polynomial, which left nothing to mask the openings of the quotient chunks with.
---
 src/circuit_builder.rs | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 20c5b33..8378cb3 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -5,7 +5,7 @@ use std::collections::{BTreeMap, HashMap};
 use crate::gates::*;
 use crate::plonk_util::{commit_polynomials, polynomials_to_values_padded, sigma_polynomials, values_to_polynomials};
 use crate::util::{ceil_div_usize, log2_strict, transpose};
-use crate::{blake_hash_usize_to_curve, fft_precompute, generate_rescue_constants, msm_precompute, AffinePoint, AffinePointTarget, BoundedTarget, Circuit, Curve, Field, HaloCurve, PartialWitness, PublicInput, Target, TargetPartitions, VirtualTarget, Wire, WitnessGenerator, NUM_CONSTANTS, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, generate_rescue_constants, msm_precompute, AffinePoint, AffinePointTarget, BoundedTarget, Circuit, Curve, Field, HaloCurve, PartialWitness, PublicInput, Target, TargetPartitions, VirtualTarget, Wire, WitnessGenerator, NUM_CONSTANTS, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 use num::{BigUint, Zero};
 
 pub struct CircuitBuilder<C: HaloCurve> {
@@ -1040,15 +1040,33 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.copy(conditional_target_1, conditional_target_2);
     }
 
-    /// Adds a gate with random wire values. By adding `k` of these gates, we can ensure that
-    /// nothing is learned by opening the wire polynomials at `k` points outside of H.
-    fn add_blinding_gate(&mut self) {
-        let gate = self.num_gates();
-        self.add_gate_no_constants(BufferGate::new(gate));
-        for input in 0..NUM_WIRES {
-            self.add_generator(RandomGenerator {
-                target: Target::Wire(Wire { gate, input }),
-            });
+    /// Adds gates with random wire values. Since we will open each polynomial at three points outside
+    /// of H, we need as many random values as there are openings to ensure nothing is learned from
+    /// them: three for each wire polynomial, three for each chunk of the quotient polynomial, and three
+    /// for the permutation polynomial Z. As Z does not depend on wires which are not copied, three of
+    /// the random values are copied to the next gate; each of them makes one value of Z random.
+    fn add_blinding_gates(&mut self) {
+        let num_copies = 3;
+        let num_openings = 3 * (NUM_WIRES + QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER + 1);
+        let first = self.num_gates();
+        for _i in 0..ceil_div_usize(num_openings + num_copies, NUM_WIRES) {
+            let gate = self.num_gates();
+            self.add_gate_no_constants(BufferGate::new(gate));
+        }
+
+        let copies = (0..num_copies)
+            .map(|i| (Wire { gate: first + i, input: 2 * i }, Wire { gate: first + i + 1, input: 2 * i + 1 }))
+            .collect::<Vec<_>>();
+        for gate in first..self.num_gates() {
+            for input in 0..NUM_WIRES {
+                let wire = Wire { gate, input };
+                if !copies.iter().any(|&(_, copy)| copy == wire) {
+                    self.add_generator(RandomGenerator { target: Target::Wire(wire) });
+                }
+            }
+        }
+        for (wire, copy) in copies {
+            self.copy(Target::Wire(wire), Target::Wire(copy));
         }
 
         struct RandomGenerator<F: Field> {
@@ -1095,11 +1113,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     }
 
     pub fn build(mut self) -> Circuit<C> {
-        // Since we will open each polynomial at three points outside of H, we need three random
-        // values to ensure nothing is learned from the out-of-H openings.
-        for _i in 0..3 {
-            self.add_blinding_gate();
-        }
+        self.add_blinding_gates();
 
         // Append the public inputs at the end of the circuit and update the copy constraints.
         let num_gates_without_pis = self.num_gates();
-- 
2.43.0

