From ba3da390e34261c9df7736f2f758606d347cee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 01/34] fix: challenger no longer repeats a challenge when
 squeezed twice in a row

---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..77f6009 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        if self.input_buffer.is_empty() {
+            // Nothing to absorb, so any buffered outputs are still valid.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        if self.input_buffer.is_empty() {
+            // Nothing to absorb, so any buffered outputs are still valid.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From b9c2a350d154fcfbc22f0193415a99a6eba44107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 02/34] fix: Base4SumGate generates its new accumulator value

---
 src/gates/base_4_sum.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/gates/base_4_sum.rs b/src/gates/base_4_sum.rs
index 03e6107..08801d2 100644
--- a/src/gates/base_4_sum.rs
+++ b/src/gates/base_4_sum.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::Gate;
-use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, NUM_ROUTED_WIRES, NUM_WIRES};
 
 /// A gate for accumulating base-4 limbs.
 pub struct Base4SumGate<C: Curve> {
@@ -98,17 +98,38 @@ impl<C: HaloCurve> Gate<C> for Base4SumGate<C> {
 
 impl<C: HaloCurve> WitnessGenerator<C::ScalarField> for Base4SumGate<C> {
     fn dependencies(&self) -> Vec<Target<C::ScalarField>> {
-        Vec::new()
+        let mut deps = vec![Target::Wire(Wire {
+            gate: self.index,
+            input: Self::WIRE_ACC_OLD,
+        })];
+        deps.extend((0..Self::NUM_LIMBS).map(|i| {
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::wire_limb(i),
+            })
+        }));
+        deps
     }
 
     fn generate(
         &self,
         _constants: &[Vec<C::ScalarField>],
-        _witness: &PartialWitness<C::ScalarField>,
+        witness: &PartialWitness<C::ScalarField>,
     ) -> PartialWitness<C::ScalarField> {
-        // For base 4 decompositions, we don't do any witness generation on a per-gate level.
-        // Instead, we have a single generator which generates values for an entire decomposition.
-        PartialWitness::new()
+        // For base 4 decompositions, there is a single generator which generates the limbs of an
+        // entire decomposition. Here we only accumulate this gate's limbs.
+        let wire = |input| Wire {
+            gate: self.index,
+            input,
+        };
+        let acc_new = (0..Self::NUM_LIMBS).fold(
+            witness.get_wire(wire(Self::WIRE_ACC_OLD)),
+            |acc, i| acc.quadruple() + witness.get_wire(wire(Self::wire_limb(i))),
+        );
+
+        let mut result = PartialWitness::new();
+        result.set_wire(wire(Self::WIRE_ACC_NEW), acc_new);
+        result
     }
 }
 
-- 
2.43.0


From ab668a66a99750ce93ca962595908f2bd7dcf170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 03/34] fix: assert_all_base_4 populates the limbs it does not
 use

---
 src/circuit_builder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..2af69fb 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,6 +192,17 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+
+            // Zero out the unused limbs, so that they satisfy the base 4 checks.
+            for i in chunk.len()..Base4SumGate::<C>::NUM_LIMBS {
+                self.generate_constant(
+                    Target::Wire(Wire {
+                        gate,
+                        input: Base4SumGate::<C>::wire_limb(i),
+                    }),
+                    C::ScalarField::ZERO,
+                );
+            }
         }
     }
 
-- 
2.43.0


From 0e847c9ee73d40a91c11b1b7703acc9c84a6cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 04/34] fix: assert_dibit_length weighs the most significant
 dibit highest

---
 src/circuit_builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 2af69fb..322ccdc 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -833,7 +833,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
         // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        let mut dibits = self.split_base_4(x, num_dibits);
+
+        // We accumulate dibits starting with the most significant one.
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
-- 
2.43.0


From 3b8b6dda92648389ad9a45352acfc89f0084540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 05/34] fix: deterministic_square_root checks the decomposition
 of the root it returns

---
 src/circuit_builder.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 322ccdc..5563199 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -537,11 +537,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
-        for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
+        // Verify the decomposition by taking a weighted sum of the limbs. We start with the base 4
+        // limbs, most significant first. Then come the two bits; the first one is always zero.
+        let mut sum = self.zero_wire();
+        let reversed_dibits: Vec<_> = dibits.into_iter().rev().collect();
+        for chunk in reversed_dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
                 Base4SumGate::<C>::NUM_LIMBS,
@@ -550,14 +550,14 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
             let index = self.num_gates();
             self.add_gate_no_constants(Base4SumGate::new(index));
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate: index,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
             for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
                 self.copy(
                     chunk[i],
                     Target::Wire(Wire {
@@ -565,13 +565,16 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            sum = Target::Wire(Wire {
+                gate: index,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            });
         }
-        self.copy(sum, x);
+        let four = self.constant_wire_u32(4);
+        let doubled_bit = self.double(bits[1]);
+        sum = self.mul_add(sum, four, doubled_bit);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
-- 
2.43.0


From 30875b9c3b74661d2151992172f2c55961abac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 06/34] fix: recursive RescueStepBGate constraint multiplies
 each MDS column by its own input

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From 9b17d56913d8854348bc1389373e914adb940245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 07/34] fix: CurveAddGate waits for its scalar bit before
 generating

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..7d36ff3 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -159,6 +159,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_SCALAR_ACC_OLD,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
             Target::Wire(Wire {
                 gate: self.index,
                 input: Self::WIRE_ADDEND_X,
-- 
2.43.0


From c2cc9a17501a729316463797e58e45393e977ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 08/34] fix: polynomial division handles zero dividends and
 zero coefficients

---
 src/polynomial.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..56bbbd2 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -248,7 +250,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b.iter().take(b_degree + 1).enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
@@ -272,7 +274,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -287,6 +289,7 @@ impl<F: Field> Polynomial<F> {
             if b.len() > l {
                 b.drain(l..);
             }
+            b.pad(l);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -297,12 +300,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
@@ -312,11 +317,13 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            let q_len = a_degree - b_degree + 1;
+            let rev_a: Polynomial<F> = self.rev()[..q_len].to_vec().into();
+            let mut q = rev_b_inv.mul(&rev_a);
+            // Make sure that we have exactly `q_len` coefficients, then reverse all of them,
+            // including any zeros.
+            q.0.resize(q_len, F::ZERO);
+            q.0.reverse();
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From 14f8eb94cb3b8a5ada7eb468fd9deac7cc2461da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 09/34] fix: bigint_mul handles operands and partial products
 without limbs

---
 src/circuit_bigint.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..f40ce68 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -349,6 +349,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         let x_n = x.num_limbs();
         let y_n = y.num_limbs();
 
+        // If either operand has no limbs, it encodes zero.
+        if x_n == 0 || y_n == 0 {
+            return BigIntTarget::zero();
+        }
+
         let mut result_digits = Vec::new();
         let mut carry: BigIntTarget<C::ScalarField> = BigIntTarget::zero();
 
@@ -371,9 +376,15 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
 
             let sum_of_limb_products_bigint = self.target_to_bigint(&sum_of_limb_products);
-            let (first, rest) = sum_of_limb_products_bigint.split_smallest_limb();
-            result_digits.push(first);
-            carry = rest;
+            if sum_of_limb_products_bigint.num_limbs() == 0 {
+                // This sum is bounded by zero.
+                result_digits.push(self.zero_wire());
+                carry = BigIntTarget::zero();
+            } else {
+                let (first, rest) = sum_of_limb_products_bigint.split_smallest_limb();
+                result_digits.push(first);
+                carry = rest;
+            }
         }
 
         // Add any remaining carry digits.
-- 
2.43.0


From cc854dec369756bb3358cd70f5ef4c5560dab6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 10/34] fix: range check the most significant limb of a bigint
 against its bound

---
 src/circuit_bigint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index f40ce68..4ba158e 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -110,8 +110,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         if validate {
             // Check that we have a valid bigint encoding, with each limb being in the proper range.
-            for &limb in &limbs {
-                self.assert_dibit_length(limb, LIMB_DIBITS);
+            // The most significant limb only gets as many dibits as the bound calls for. Otherwise
+            // all limbs together could exceed the native field, and a (small) field element would
+            // have several valid encodings; see `target_to_bigint`.
+            for (i, &limb) in limbs.iter().enumerate() {
+                let max_bits = max.bits() as usize - i * LIMB_BITS;
+                self.assert_dibit_length(limb, ceil_div_usize(max_bits, 2).min(LIMB_DIBITS));
             }
         }
 
-- 
2.43.0


From 10de182927b254284a728be46d13e4c42635629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 11/34] fix: reading the point at infinity consumes its whole
 encoding

---
 src/serialization.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..fb9244e 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,9 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        // The x coordinate is always written, so it must be consumed even if the point is zero.
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +58,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
-- 
2.43.0


From f4fd7a68ed44df98ad32ccce6b96d0f2472fe20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 12/34] fix: the transcript observes the public inputs before
 generating any challenge

---
 src/plonk.rs       | 22 ++++++++++++----------
 src/plonk_proof.rs |  8 ++++----
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index a9b26b2..0c9bb41 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -117,6 +117,17 @@ impl<C: HaloCurve> Circuit<C> {
             values_to_polynomials(&wire_values_by_wire_no_pis, &self.fft_precomputation_n)
         };
 
+        let public_inputs = (0..self.num_public_inputs)
+            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
+            .collect::<Vec<_>>();
+
+        // Observe the public inputs. This must come before any challenge is generated; in particular,
+        // `alpha` is used to combine the public inputs, so it must depend on them.
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(&public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
+
         // Generate a random beta and gamma from the transcript.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_wires));
@@ -234,20 +245,11 @@ impl<C: HaloCurve> Circuit<C> {
             blinding_commitments,
         );
 
-        let public_inputs = (0..self.num_public_inputs)
-            .map(|i| wire_values_by_wire_index[i % NUM_WIRES][self.num_gates_without_pis + 2 * (i / NUM_WIRES)])
-            .collect::<Vec<_>>();
-
         // Observe the `t` polynomial commitment.
         challenger
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
-        // If the proof doesn't output public inputs, observe the `pis_quotient` polynomial commitment and the public inputs.
+        // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the public inputs
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(&public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         // Observe the old proofs' `G` points.
         old_proofs
             .iter()
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 4a11a7a..2e274f5 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -63,6 +63,10 @@ impl<C: HaloCurve> Proof<C> {
     ) -> Result<ProofChallenge<C>> {
         let mut challenger = Challenger::new(SECURITY_BITS);
         let error_msg = "Conversion from base to scalar field failed.";
+        challenger.observe_elements(
+            &C::ScalarField::try_convert_all(public_inputs)
+                .expect("Public inputs should fit in both fields"),
+        );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
         let beta = C::try_convert_b2s(beta_bf).map_err(|_| anyhow!(error_msg))?;
@@ -72,10 +76,6 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        challenger.observe_elements(
-            &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
-        );
         old_proofs
             .iter()
             .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
-- 
2.43.0


From d653ec97cc54cad3a9fe1f4ad36c6f322c52a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 13/34] fix: verify_proof rejects proofs and public inputs of
 the wrong shape

---
 src/plonk_proof.rs |  2 +-
 src/verifier.rs    | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index 2e274f5..a12fb32 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -65,7 +65,7 @@ impl<C: HaloCurve> Proof<C> {
         let error_msg = "Conversion from base to scalar field failed.";
         challenger.observe_elements(
             &C::ScalarField::try_convert_all(public_inputs)
-                .expect("Public inputs should fit in both fields"),
+                .map_err(|_| anyhow!("Public inputs should fit in both fields"))?,
         );
         challenger.observe_affine_points(&self.c_wires);
         let (beta_bf, gamma_bf) = challenger.get_2_challenges();
diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..c8d21b3 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -8,7 +8,7 @@ use crate::halo::verify_ipa;
 use crate::plonk_proof::OldProof;
 use crate::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use crate::util::{ceil_div_usize, log2_strict};
-use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES};
+use crate::{blake_hash_usize_to_curve, fft_precompute, msm_execute_parallel, msm_precompute, AffinePoint, Circuit, FftPrecomputation, Field, HaloCurve, MsmPrecomputation, Polynomial, Proof, GRID_WIDTH, NUM_ROUTED_WIRES, NUM_WIRES, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 pub const SECURITY_BITS: usize = 128;
 
@@ -57,6 +57,7 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     verify_g: bool,
 ) -> Result<Option<OldProof<C>>> {
     // Verify that the proof parameters are valid.
+    check_proof_shape(public_inputs.len(), proof, old_proofs.len(), vk)?;
     check_proof_parameters(proof)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
@@ -285,6 +286,41 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
     Ok(())
 }
 
+/// Check that each list in a proof has the length called for by the verification key. Since openings
+/// and commitments are matched by position, a proof of any other shape would be meaningless.
+fn check_proof_shape<C: HaloCurve>(
+    num_public_inputs: usize,
+    proof: &Proof<C>,
+    num_old_proofs: usize,
+    vk: &VerificationKey<C>,
+) -> Result<()> {
+    ensure!(
+        num_public_inputs == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
+    ensure!(
+        proof.c_wires.len() == NUM_WIRES
+            && proof.c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of polynomial commitments."
+    );
+    ensure!(
+        proof.all_opening_sets().iter().all(|os| {
+            os.o_constants.len() == vk.c_constants.len()
+                && os.o_plonk_sigmas.len() == vk.c_s_sigmas.len()
+                && os.o_wires.len() == NUM_WIRES
+                && os.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && os.o_old_proofs.len() == num_old_proofs
+        }),
+        "Incorrect number of openings."
+    );
+    let degree_pow = log2_strict(vk.degree);
+    ensure!(
+        proof.halo_l.len() == degree_pow && proof.halo_r.len() == degree_pow,
+        "Incorrect number of Halo rounds."
+    );
+    Ok(())
+}
+
 /// Check that the parameters in a proof are well-formed, i.e,
 /// that curve points are on the curve, and field elements are in range.
 /// Panics otherwise.
-- 
2.43.0


From d8338e1dd75264e17ad9f40e74f00c04170cd248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 14/34] fix: verify_proof checks that the public inputs
 quotient commitment is on the curve

---
 src/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index c8d21b3..4f2ab08 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -329,6 +329,7 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
@@ -348,6 +349,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public inputs quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
-- 
2.43.0


From bbc52508229b83a89cf9a44ad726d8fa1884fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 15/34] fix: verify_proof rejects proofs containing the point
 at infinity

---
 src/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index 4f2ab08..22ef914 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -362,6 +362,17 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         "A Halo right point is not on the curve."
     );
     ensure!(halo_g.is_valid(), "The Halo G point is not on the curve.");
+    // The transcript can only absorb affine coordinates, which the point at infinity doesn't have.
+    ensure!(
+        c_wires
+            .iter()
+            .chain(c_plonk_t)
+            .chain(halo_l)
+            .chain(halo_r)
+            .chain(&[*c_plonk_z, *c_pis_quotient, *halo_g, schnorr_proof.r])
+            .all(|p| !p.zero),
+        "A point of the proof is the point at infinity."
+    );
     // Verify that the field elements are valid.
     ensure!(
         proof.all_opening_sets().iter().all(|v| {
-- 
2.43.0


From a031a7caa77e6083ba6c33e56a5e79bb3061c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 16/34] fix: a Lagrange basis polynomial evaluates to one at
 its own point

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..961a0e3 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -275,7 +275,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From cf1211eff9e4e21be36078f4adc74e77d2d27f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 17/34] fix: plookup domain has room for a witness whose length
 is a power of two

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 961a0e3..0f1dbf7 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -159,7 +159,7 @@ fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
     } else {
         f.to_vec()
     };
-    let n = f.len().next_power_of_two() - 1;
+    let n = (f.len() + 1).next_power_of_two() - 1;
 
     let f = padded(&f, n);
     let t = padded(t, n + 1);
-- 
2.43.0


From 4b839bc7e19664432e3a182347f98a60fb0f640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 18/34] fix: plookup pads the table and the witness with table
 entries

---
 plookup/src/plookup.rs  | 30 ++++++++++++++++++++----------
 plookup/src/verifier.rs |  8 ++++++--
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 0f1dbf7..84d1beb 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -2,7 +2,7 @@
 #![allow(clippy::too_many_arguments)]
 use crate::openings::open_all_polynomials;
 use crate::proof::PlookupProof;
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky::halo::batch_opening_proof;
 use plonky::plonk_challenger::Challenger;
 use plonky::plonk_util::reduce_with_powers;
@@ -14,6 +14,11 @@ pub const SECURITY_BITS: usize = 128;
 
 /// Computes a proof that `t` is a sub(multi)set of `f`, following the Plookup protocol (https://ia.cr/2020/315).
 pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result<PlookupProof<C>> {
+    ensure!(!t.is_empty(), "The table is empty.");
+    ensure!(
+        f.iter().all(|x| t.contains(x)),
+        "The witness is not a subset of the table."
+    );
     let (n, f, t) = pad_inputs(f, t);
 
     // Compute the `s` multiset of the Plookup protocol.
@@ -152,20 +157,25 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     Ok(PlookupProof::from((commitments, openings, halo_proof, n)))
 }
 
+/// Pad the witness with a table entry and the table with its last entry, so that neither of them
+/// gains a value which isn't in the table.
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
-    let d = t.len();
-    let f = if f.len() + 1 < d {
-        padded(f, d - 1)
-    } else {
-        f.to_vec()
-    };
-    let n = (f.len() + 1).next_power_of_two() - 1;
+    let len = f.len().max(t.len() - 1).max(1);
+    let n = (len + 1).next_power_of_two() - 1;
 
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
+    let t = pad_table(t, n + 1);
+    let mut f = f.to_vec();
+    f.resize(n, t[n]);
     (n, f, t)
 }
 
+/// Pad a non-empty table to have length `n`, by repeating its last entry.
+pub(crate) fn pad_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    let mut pad = t.to_vec();
+    pad.resize(n, t[t.len() - 1]);
+    pad
+}
+
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
 /// and elements of `f` appear in the same order as elements of `t`.
 fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..fcdf5a6 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, pad_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,11 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    ensure!(
+        !t.is_empty() && n > 0 && (n + 1).is_power_of_two() && t.len() <= n + 1,
+        "Incorrect domain size"
+    );
+    let t = pad_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From d729b1ea4caea55e9d94ec78df23117f8ab7dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 19/34] fix: plookup verify checks the G point and the shape of
 the proof

---
 plookup/src/proof.rs    |  9 ++++---
 plookup/src/verifier.rs | 57 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 9 deletions(-)

diff --git a/plookup/src/proof.rs b/plookup/src/proof.rs
index 8ba2b5f..0066dbe 100644
--- a/plookup/src/proof.rs
+++ b/plookup/src/proof.rs
@@ -82,10 +82,11 @@ impl<C: HaloCurve> PlookupProof<C> {
             .to_vec()
             .into_iter()
             .map(|f| {
-                C::try_convert_s2b(f)
-                    .expect("For now, we assume that all opened values fit in both fields")
+                C::try_convert_s2b(f).map_err(|_| {
+                    anyhow!("For now, we assume that all opened values fit in both fields")
+                })
             })
-            .collect();
+            .collect::<Result<_>>()?;
         challenger.observe_elements(&openings_bf);
         let (v_bf, u_bf, u_scaling_bf) = challenger.get_3_challenges();
         let v = C::try_convert_b2s(v_bf).map_err(|_| anyhow!(error_msg))?;
@@ -103,7 +104,7 @@ impl<C: HaloCurve> PlookupProof<C> {
             let u_j_squared = halo_n::<C>(r_bits);
             let u_j = u_j_squared
                 .square_root()
-                .expect("Prover should have ensured that n(r) is square");
+                .ok_or_else(|| anyhow!("Prover should have ensured that n(r) is square"))?;
             halo_us.push(u_j);
         }
 
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index fcdf5a6..28c8eaa 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,8 +1,8 @@
 use crate::plookup::{eval_l_i, pad_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
-use plonky::halo::verify_ipa;
-use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
+use plonky::halo::{verify_ipa, OpeningProof};
+use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, halo_s, pedersen_hash, powers, reduce_with_powers};
 use plonky::util::log2_strict;
 use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation_power_of_2, msm_execute_parallel, msm_precompute, AffinePoint, Field, HaloCurve, PolynomialCommitment};
 
@@ -10,9 +10,10 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
+    check_proof_parameters(proof)?;
     ensure!(
-        !t.is_empty() && n > 0 && (n + 1).is_power_of_two() && t.len() <= n + 1,
-        "Incorrect domain size"
+        !t.is_empty() && t.len() <= n + 1,
+        "Incorrect table size"
     );
     let t = pad_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
@@ -98,7 +99,53 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
         "Invalid IPA proof."
     );
 
-    // TODO: Add option to verify `halo_g` point.
+    // Verify that `halo_g = <s, G>`.
+    let msm_precomputation = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
+    ensure!(
+        proof.halo_proof.halo_g
+            == pedersen_hash(&halo_s(&challs.halo_us), &msm_precomputation).to_affine(),
+        "Invalid G point."
+    );
+    Ok(())
+}
+
+/// Check that the domain size matches the number of Halo rounds, and that all points in the proof
+/// are non-zero points of the curve.
+fn check_proof_parameters<C: HaloCurve>(proof: &PlookupProof<C>) -> Result<()> {
+    let OpeningProof {
+        halo_l,
+        halo_r,
+        halo_g,
+        schnorr_proof,
+    } = &proof.halo_proof;
+    let degree_pow = halo_l.len();
+    ensure!(
+        degree_pow > 1 && degree_pow < 32 && proof.n == (1 << (degree_pow - 1)) - 1,
+        "Incorrect domain size"
+    );
+    ensure!(
+        halo_r.len() == degree_pow,
+        "Incorrect number of Halo rounds."
+    );
+    let points = [
+        &[
+            proof.c_f,
+            proof.c_t,
+            proof.c_h1,
+            proof.c_h2,
+            proof.c_z,
+            proof.c_quotient,
+            *halo_g,
+            schnorr_proof.r,
+        ],
+        &halo_l[..],
+        &halo_r[..],
+    ]
+    .concat();
+    ensure!(
+        points.iter().all(|p| !p.zero && p.is_valid()),
+        "A point of the proof is zero or not on the curve."
+    );
     Ok(())
 }
 
-- 
2.43.0


From 4dae1bcc80c235d8b3cc0289d1365e6d762b2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 20/34] fix: BLS12-377 multiplicative generators generate the
 whole group

---
 src/field/bls12_377_base.rs   | 6 +++++-
 src/field/bls12_377_scalar.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/field/bls12_377_base.rs b/src/field/bls12_377_base.rs
index bdafdae..7feadde 100644
--- a/src/field/bls12_377_base.rs
+++ b/src/field/bls12_377_base.rs
@@ -195,7 +195,11 @@ impl Field for Bls12377Base {
             8738795276227363922, 81297770384137296]
     };
 
-    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self::FIVE;
+    // 15
+    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self {
+        limbs: [1580481994230331156, 7393753505699199837, 15893201093018099506, 15064395564155502359,
+            7595513421530309810, 112614884009382239]
+    };
 
     const ALPHA: Self = Self::FIVE;
 
diff --git a/src/field/bls12_377_scalar.rs b/src/field/bls12_377_scalar.rs
index 14f5d56..cdd0736 100644
--- a/src/field/bls12_377_scalar.rs
+++ b/src/field/bls12_377_scalar.rs
@@ -163,7 +163,8 @@ impl Field for Bls12377Scalar {
     const FIVE: Self = Self { limbs: [6006113053051977660, 3366551019440832441, 5772352412093595556, 754655161751966990] };
     const NEG_ONE: Self = Self { limbs: [10157024534604021774, 16668528035959406606, 5322190058819395602, 387181115924875961] };
 
-    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self { limbs: [1855201571499933546, 8511318076631809892, 6222514765367795509, 1122129207579058019] };
+    // 22
+    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self { limbs: [2984901390528151251, 10561528701063790279, 5476750214495080041, 898978044469942640] };
 
     /// x^11 is a permutation in this field.
     const ALPHA: Self = Self { limbs: [1855201571499933546, 8511318076631809892, 6222514765367795509, 1122129207579058019] };
-- 
2.43.0


From d583cd1477ef8a310c740bd1d11cf52aea0efc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 21/34] fix: a public input and its wire given different values
 are refused like any other conflict

---
 src/witness.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/witness.rs b/src/witness.rs
index 90eef6c..eef41a9 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -187,7 +187,9 @@ impl<F: Field> PartialWitness<F> {
         }).collect::<Vec<_>>();
 
         self.wire_values.retain(|t, _| !matches!(t, Target::PublicInput(_)));
-        self.wire_values.extend(new_pis);
+        for (target, value) in new_pis {
+            self.set_target(target, value);
+        }
     }
 
     /// Looks through the keys and looks for targets in `BufferGate`s following a `PublicInputGate`.
-- 
2.43.0


From 23fab91081de2a4faabc3a17c24e6e8944d2c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 22/34] hooks (cfg verif_hooks): generator schedule and
 in-circuit challenger for external checkers

---
 src/lib.rs         |  2 ++
 src/plonk.rs       |  7 ++++++-
 src/verif_hooks.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 53 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 42cb6e4..6baf8e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,6 +66,8 @@ mod rescue;
 mod serialization;
 mod target;
 pub mod util;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 mod verifier;
 mod witness;
 
diff --git a/src/plonk.rs b/src/plonk.rs
index 0c9bb41..fe1733a 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -534,7 +534,12 @@ impl<C: HaloCurve> Circuit<C> {
         while !pending_generator_indices.is_empty() {
             let mut populated_targets: Vec<Target<C::ScalarField>> = Vec::new();
 
-            for &generator_idx in &pending_generator_indices {
+            #[cfg(not(verif_hooks))]
+            let schedule = pending_generator_indices.iter().cloned();
+            #[cfg(verif_hooks)]
+            let schedule = crate::verif_hooks::schedule(&pending_generator_indices);
+
+            for generator_idx in schedule {
                 let generator: &dyn WitnessGenerator<C::ScalarField> =
                     self.generators[generator_idx].borrow();
                 let result = generator.generate(&self.gate_constants, &witness);
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..2931bcd
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,45 @@
+//! Instrumentation for external checkers. Compiled only with `--cfg verif_hooks`; not part of the API.
+
+use std::cell::RefCell;
+use std::collections::HashSet;
+
+use crate::plonk_challenger::RecursiveChallenger;
+use crate::{CircuitBuilder, HaloCurve, Target};
+
+type Scheduler = Box<dyn FnMut(Vec<usize>) -> Vec<usize>>;
+
+thread_local! {
+    static SCHEDULER: RefCell<Option<Scheduler>> = RefCell::new(None);
+}
+
+/// Sets, for the current thread, the function that decides in which order the generators which are
+/// ready in one round of witness generation run. It is given their indices in ascending order.
+pub fn set_generator_scheduler(scheduler: Option<Scheduler>) {
+    SCHEDULER.with(|s| *s.borrow_mut() = scheduler);
+}
+
+pub(crate) fn schedule(pending: &HashSet<usize>) -> Vec<usize> {
+    SCHEDULER.with(|s| match &mut *s.borrow_mut() {
+        None => pending.iter().cloned().collect(),
+        Some(scheduler) => {
+            let mut ready: Vec<usize> = pending.iter().cloned().collect();
+            ready.sort();
+            scheduler(ready)
+        }
+    })
+}
+
+/// Runs the in-circuit challenger over rounds of observations, each followed by a number of squeezes.
+pub fn recursive_challenges<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    rounds: &[(Vec<Target<C::ScalarField>>, usize)],
+) -> Vec<Vec<Target<C::ScalarField>>> {
+    let mut challenger = RecursiveChallenger::new(builder);
+    rounds
+        .iter()
+        .map(|(observed, n)| {
+            challenger.observe_elements(observed);
+            challenger.get_n_challenges(builder, *n)
+        })
+        .collect()
+}
-- 
2.43.0


From 59ebfc5a6eb314bd4714c2ddbd669e42ecabc4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 23/34] fix: doubling a point of order two yields the identity

---
 src/curve/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index 1be98a8..153a686 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -116,7 +116,8 @@ impl<C: Curve> AffinePoint<C> {
             zero,
         } = *self;
 
-        if zero {
+        // A point with y = 0 has order two.
+        if zero || y1.is_zero() {
             return AffinePoint::ZERO;
         }
 
@@ -233,7 +234,8 @@ impl<C: Curve> ProjectivePoint<C> {
 
     pub fn double(&self) -> Self {
         let Self { x, y, z, zero } = *self;
-        if zero {
+        // A point with y = 0 has order two.
+        if zero || y.is_zero() {
             return ProjectivePoint::ZERO;
         }
 
-- 
2.43.0


From b87838ca5b88300fc8e605b06a653a3643681eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 24/34] fix: the transcript absorbs the point at infinity, so
 that unblinded zero polynomials can be committed to

---
 plookup/src/verifier.rs |  6 +++---
 src/plonk_challenger.rs |  9 ++++++---
 src/verifier.rs         | 11 -----------
 3 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index 28c8eaa..5d38055 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -110,7 +110,7 @@ pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Re
 }
 
 /// Check that the domain size matches the number of Halo rounds, and that all points in the proof
-/// are non-zero points of the curve.
+/// are on the curve.
 fn check_proof_parameters<C: HaloCurve>(proof: &PlookupProof<C>) -> Result<()> {
     let OpeningProof {
         halo_l,
@@ -143,8 +143,8 @@ fn check_proof_parameters<C: HaloCurve>(proof: &PlookupProof<C>) -> Result<()> {
     ]
     .concat();
     ensure!(
-        points.iter().all(|p| !p.zero && p.is_valid()),
-        "A point of the proof is zero or not on the curve."
+        points.iter().all(|p| p.is_valid()),
+        "A point of the proof is not on the curve."
     );
     Ok(())
 }
diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 77f6009..b9d6f74 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -41,9 +41,12 @@ impl<F: Field> Challenger<F> {
     }
 
     pub fn observe_affine_point<C: Curve<BaseField = F>>(&mut self, point: AffinePoint<C>) {
-        debug_assert!(!point.zero);
-        self.observe_element(point.x);
-        self.observe_element(point.y);
+        if point.zero {
+            // The commitment to a zero polynomial. No curve has a point with these coordinates.
+            self.observe_elements(&[F::ZERO, F::ZERO]);
+        } else {
+            self.observe_elements(&[point.x, point.y]);
+        }
     }
 
     pub fn observe_affine_points<C: Curve<BaseField = F>>(&mut self, points: &[AffinePoint<C>]) {
diff --git a/src/verifier.rs b/src/verifier.rs
index 22ef914..4f2ab08 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -362,17 +362,6 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         "A Halo right point is not on the curve."
     );
     ensure!(halo_g.is_valid(), "The Halo G point is not on the curve.");
-    // The transcript can only absorb affine coordinates, which the point at infinity doesn't have.
-    ensure!(
-        c_wires
-            .iter()
-            .chain(c_plonk_t)
-            .chain(halo_l)
-            .chain(halo_r)
-            .chain(&[*c_plonk_z, *c_pis_quotient, *halo_g, schnorr_proof.r])
-            .all(|p| !p.zero),
-        "A point of the proof is the point at infinity."
-    );
     // Verify that the field elements are valid.
     ensure!(
         proof.all_opening_sets().iter().all(|v| {
-- 
2.43.0


From 93ca6d2ee7f796946ad96284d65a95746425680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 25/34] fix: generators that depend on public inputs run, and
 may populate them

---
 src/plonk.rs   |  7 ++++++-
 src/witness.rs | 21 ++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index fe1733a..1fe2de4 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -513,6 +513,7 @@ impl<C: HaloCurve> Circuit<C> {
         let mut copy_result = self.generate_copies(&witness, &witness.all_populated_targets());
         copy_result.copy_buffer_to_pi_gate(self.num_gates_without_pis);
         witness.extend(copy_result);
+        witness.populate_public_inputs(self.num_public_inputs, self.num_gates_without_pis);
 
         // Build a list of "pending" generators which are ready to run.
         let mut pending_generator_indices = HashSet::new();
@@ -542,7 +543,8 @@ impl<C: HaloCurve> Circuit<C> {
             for generator_idx in schedule {
                 let generator: &dyn WitnessGenerator<C::ScalarField> =
                     self.generators[generator_idx].borrow();
-                let result = generator.generate(&self.gate_constants, &witness);
+                let mut result = generator.generate(&self.gate_constants, &witness);
+                result.replace_public_inputs(self.num_gates_without_pis);
                 populated_targets.extend(result.all_populated_targets());
                 witness.extend(result);
                 completed_generator_indices.insert(generator_idx);
@@ -552,6 +554,9 @@ impl<C: HaloCurve> Circuit<C> {
             copy_result.copy_buffer_to_pi_gate(self.num_gates_without_pis);
             populated_targets.extend(copy_result.all_populated_targets());
             witness.extend(copy_result);
+            populated_targets.extend(
+                witness.populate_public_inputs(self.num_public_inputs, self.num_gates_without_pis),
+            );
 
             // Refresh the set of pending generators.
             pending_generator_indices.clear();
diff --git a/src/witness.rs b/src/witness.rs
index eef41a9..e012a00 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -1,5 +1,5 @@
 use crate::util::transpose;
-use crate::{biguint_to_field, biguint_to_limbs, field_to_biguint, AffinePoint, AffinePointTarget, BigIntTarget, Curve, Field, ForeignFieldTarget, OrderingTarget, Target, Wire, LIMB_BITS, NUM_WIRES, NUM_ADVICE_WIRES, NUM_ROUTED_WIRES};
+use crate::{biguint_to_field, biguint_to_limbs, field_to_biguint, AffinePoint, AffinePointTarget, BigIntTarget, Curve, Field, ForeignFieldTarget, OrderingTarget, PublicInput, Target, Wire, LIMB_BITS, NUM_WIRES, NUM_ADVICE_WIRES, NUM_ROUTED_WIRES};
 use num::{BigUint, Zero};
 use std::{cmp::Ordering, collections::HashMap};
 
@@ -192,6 +192,25 @@ impl<F: Field> PartialWitness<F> {
         }
     }
 
+    /// Makes the value of each public input whose wire is populated available under its
+    /// `PublicInput`-type target too, for generators that depend on it. Returns the targets added.
+    pub(crate) fn populate_public_inputs(
+        &mut self,
+        num_public_inputs: usize,
+        offset: usize,
+    ) -> Vec<Target<F>> {
+        let mut added = Vec::new();
+        for pi in (0..num_public_inputs).map(PublicInput::new) {
+            let target = Target::PublicInput(pi);
+            let wire = pi.original_wire(offset);
+            if self.contains_wire(wire) && !self.contains_target(target) {
+                self.set_target(target, self.get_wire(wire));
+                added.push(target);
+            }
+        }
+        added
+    }
+
     /// Looks through the keys and looks for targets in `BufferGate`s following a `PublicInputGate`.
     /// If some are found, add the corresponding non-routable wire in the `PublicInputGate` to the
     /// partial witness.
-- 
2.43.0


From 377a3d392f631bbed8e7d25c954e3e11cf96ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 26/34] fix: in-circuit curve gate constraints have the same
 sign as the native ones

At a random point the constraints of all gates are summed, so a constraint
whose in-circuit form is the negation of its native form changes the sum.
---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index 7d36ff3..a7fbeab 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..a81afd1 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From d131cd40cd027cf2fa7209c5c96afff432046db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 27/34] fix: bigint_add enforces that limbs bounded by zero are
 zero

Range checks only work with whole dibits, so the quotient in bigint_div_rem
may exceed its bound. Its product with the divisor could then carry into a
limb which bigint_add ignored, and a wrong quotient and remainder satisfied
the circuit.
---
 src/circuit_bigint.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index 4ba158e..63be2d2 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -261,8 +261,15 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         &mut self,
         limbs: &[BoundedTarget<C::ScalarField>],
     ) -> BigIntTarget<C::ScalarField> {
-        let nonzero_limbs: Vec<BoundedTarget<C::ScalarField>> =
-            limbs.iter().cloned().filter(|l| !l.max.is_zero()).collect();
+        let (nonzero_limbs, zero_limbs): (Vec<_>, Vec<_>) =
+            limbs.iter().cloned().partition(|l| !l.max.is_zero());
+
+        // A limb which is bounded by zero does not contribute to the sum. But its bound is only
+        // implied if the operands it was computed from respect their own bounds, which the prover
+        // may violate (range checks work with whole dibits), so we need to enforce it.
+        for limb in zero_limbs {
+            self.assert_zero(limb.target);
+        }
 
         if nonzero_limbs.is_empty() {
             return BigIntTarget::zero();
-- 
2.43.0


From e916e1a70c9b606d5758aa3658b21b9ca288eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 28/34] fix: the transcript observes the Halo challenges of old
 proofs

zeta depended on an old proof's G only. Since the verifier only compares the opening of G's
polynomial at zeta with g(zeta, halo_us), challenges chosen after zeta passed for any point G.
---
 src/plonk.rs       | 11 +++++++----
 src/plonk_proof.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/plonk.rs b/src/plonk.rs
index 1fe2de4..ce887fb 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -250,10 +250,13 @@ impl<C: HaloCurve> Circuit<C> {
             .observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&c_plonk_t));
         // Observe the `pis_quotient` polynomial commitment.
         challenger.observe_affine_point(c_pis_quotient.to_affine());
-        // Observe the old proofs' `G` points.
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        // Observe the old proofs' `G` points and Halo challenges.
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            for &u in &old_proof.halo_us {
+                challenger.observe_element(C::try_convert_s2b(u)?);
+            }
+        }
         // Generate a random `zeta` from the transcript.
         let zeta_bf = challenger.get_challenge();
         let zeta_sf =
diff --git a/src/plonk_proof.rs b/src/plonk_proof.rs
index a12fb32..16e954d 100644
--- a/src/plonk_proof.rs
+++ b/src/plonk_proof.rs
@@ -76,9 +76,13 @@ impl<C: HaloCurve> Proof<C> {
         let alpha = C::try_convert_b2s(alpha_bf).map_err(|_| anyhow!(error_msg))?;
         challenger.observe_affine_points(&self.c_plonk_t);
         challenger.observe_affine_point(self.c_pis_quotient);
-        old_proofs
-            .iter()
-            .for_each(|old_proof| challenger.observe_affine_point(old_proof.halo_g));
+        for old_proof in old_proofs {
+            challenger.observe_affine_point(old_proof.halo_g);
+            // The old proof's claim is `halo_g = commit(g(X, halo_us))`, so `zeta` must depend on both.
+            for &u in &old_proof.halo_us {
+                challenger.observe_element(C::try_convert_s2b(u).map_err(|_| anyhow!(error_msg))?);
+            }
+        }
         let zeta_bf = challenger.get_challenge();
         let zeta = C::try_convert_b2s(zeta_bf).map_err(|_| anyhow!(error_msg))?;
         for os in self.all_opening_sets().iter() {
-- 
2.43.0


From 2e0ee6e53a8f098b1ff18a9f124b567fcd43f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 29/34] fix: a public input computed by a generator reaches its
 routable wire

---
 src/plonk.rs   |  4 ++++
 src/witness.rs | 21 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/plonk.rs b/src/plonk.rs
index ce887fb..a4051c3 100644
--- a/src/plonk.rs
+++ b/src/plonk.rs
@@ -512,6 +512,7 @@ impl<C: HaloCurve> Circuit<C> {
 
         // Replace public inputs targets by their corresponding wires in the circuit.
         witness.replace_public_inputs(self.num_gates_without_pis);
+        witness.route_public_inputs(self.num_public_inputs, self.num_gates_without_pis);
 
         let mut copy_result = self.generate_copies(&witness, &witness.all_populated_targets());
         copy_result.copy_buffer_to_pi_gate(self.num_gates_without_pis);
@@ -552,6 +553,9 @@ impl<C: HaloCurve> Circuit<C> {
                 witness.extend(result);
                 completed_generator_indices.insert(generator_idx);
             }
+            populated_targets.extend(
+                witness.route_public_inputs(self.num_public_inputs, self.num_gates_without_pis),
+            );
 
             let mut copy_result = self.generate_copies(&witness, &populated_targets);
             copy_result.copy_buffer_to_pi_gate(self.num_gates_without_pis);
diff --git a/src/witness.rs b/src/witness.rs
index e012a00..2280c06 100644
--- a/src/witness.rs
+++ b/src/witness.rs
@@ -211,6 +211,27 @@ impl<F: Field> PartialWitness<F> {
         added
     }
 
+    /// Copies the value of each public input whose wire is populated to the routable wire which copy
+    /// constraints refer to, whenever the public input became known. Returns the targets added.
+    pub(crate) fn route_public_inputs(
+        &mut self,
+        num_public_inputs: usize,
+        offset: usize,
+    ) -> Vec<Target<F>> {
+        let mut added = Vec::new();
+        for pi in (0..num_public_inputs).map(PublicInput::<F>::new) {
+            let wire = pi.original_wire(offset);
+            let routable_target = pi.routable_target(offset);
+            if self.contains_wire(wire) && routable_target != Target::Wire(wire) {
+                if !self.contains_target(routable_target) {
+                    added.push(routable_target);
+                }
+                self.set_target(routable_target, self.get_wire(wire));
+            }
+        }
+        added
+    }
+
     /// Looks through the keys and looks for targets in `BufferGate`s following a `PublicInputGate`.
     /// If some are found, add the corresponding non-routable wire in the `PublicInputGate` to the
     /// partial witness.
-- 
2.43.0


From e1061105052a61f5087793faf28614402bcb6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 30/34] fix: verify_proof rejects old proofs with a zero
 challenge instead of looping

---
 src/verifier.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index 4f2ab08..fa3ea45 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -278,6 +278,12 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
         bail!("Incorrect number of old proofs opening.")
     }
     for (i, p) in old_proofs.iter().enumerate() {
+        // The polynomial `g(X, halo_us)` is only defined for nonzero challenges.
+        ensure!(
+            p.halo_us.iter().all(|u| u.is_nonzero()),
+            "A challenge of the {}-th old proof is zero.",
+            i
+        );
         // If the value `v` doesn't match the corresponding wire in the `PublicInputGate`, return false.
         if halo_g(zeta, &p.halo_us) != proof.o_local.o_old_proofs[i] {
             bail!("{}-th old proof opening is incorrect", i);
-- 
2.43.0


From 8ba41e354ba5cb4241abdfa1e8521fe1d5199cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 31/34] fix: verify_proof rejects old proofs whose G point is
 not on the curve

---
 src/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/verifier.rs b/src/verifier.rs
index fa3ea45..0e3a179 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -278,6 +278,11 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
         bail!("Incorrect number of old proofs opening.")
     }
     for (i, p) in old_proofs.iter().enumerate() {
+        ensure!(
+            p.halo_g.is_valid(),
+            "The G point of the {}-th old proof is not on the curve.",
+            i
+        );
         // The polynomial `g(X, halo_us)` is only defined for nonzero challenges.
         ensure!(
             p.halo_us.iter().all(|u| u.is_nonzero()),
-- 
2.43.0


From 91800cde12bd752c894d9a5d6ebc6531fedd00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 32/34] fix: table lookups refuse rows outside of the table
 that compress like a row inside

---
 plookup/src/table.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/plookup/src/table.rs b/plookup/src/table.rs
index 9b9e40f..970958d 100644
--- a/plookup/src/table.rs
+++ b/plookup/src/table.rs
@@ -1,7 +1,7 @@
 use crate::plookup::{prove, SECURITY_BITS};
 use crate::proof::PlookupProof;
 use crate::verifier::verify;
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use itertools::Itertools;
 use plonky::plonk_challenger::Challenger;
 use plonky::{Field, HaloCurve};
@@ -103,6 +103,11 @@ impl<F: Field, const N: usize> Table<F, N> {
 
     /// Proves that `ws` is a subtable of `self` using the Plookup protocol.
     pub fn prove_row<C: HaloCurve<ScalarField = F>>(&self, ws: &Self) -> Result<PlookupProof<C>> {
+        // `prove` only sees the reduced rows, and a row outside of the table can have the reduction of one inside.
+        ensure!(
+            ws.0.iter().all(|w| self.0.contains(w)),
+            "The witness is not a subset of the table."
+        );
         let (t, f) = self.to_vecs_with_row_witnesses(ws);
         prove(&f, &t)
     }
@@ -112,6 +117,11 @@ impl<F: Field, const N: usize> Table<F, N> {
         &self,
         ws: &[Vec<F>; N],
     ) -> Result<PlookupProof<C>> {
+        // `prove` only sees the reduced rows, and a row outside of the table can have the reduction of one inside.
+        ensure!(
+            (0..ws[0].len()).all(|i| self.0.iter().any(|a| (0..N).all(|j| a[j] == ws[j][i]))),
+            "The witness is not a subset of the table."
+        );
         let (t, f) = self.to_vecs_with_column_witnesses(ws);
         prove(&f, &t)
     }
-- 
2.43.0


From 4e7b2b85ed6aa24ba74ab1beee2b16912abeaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 33/34] fix: prove_column refuses columns of different lengths

---
 plookup/src/table.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plookup/src/table.rs b/plookup/src/table.rs
index 970958d..29b03d2 100644
--- a/plookup/src/table.rs
+++ b/plookup/src/table.rs
@@ -117,6 +117,10 @@ impl<F: Field, const N: usize> Table<F, N> {
         &self,
         ws: &[Vec<F>; N],
     ) -> Result<PlookupProof<C>> {
+        ensure!(
+            ws.iter().all(|w| w.len() == ws[0].len()),
+            "The columns have different lengths."
+        );
         // `prove` only sees the reduced rows, and a row outside of the table can have the reduction of one inside.
         ensure!(
             (0..ws[0].len()).all(|i| self.0.iter().any(|a| (0..N).all(|j| a[j] == ws[j][i]))),
-- 
2.43.0


From c203ccb232a3974e9457121ec91f990c08975c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 34/34] hooks: observations of points by the in-circuit
 challenger, behind cfg verif_hooks

---
 src/verif_hooks.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 2931bcd..ed53ac0 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -4,7 +4,7 @@ use std::cell::RefCell;
 use std::collections::HashSet;
 
 use crate::plonk_challenger::RecursiveChallenger;
-use crate::{CircuitBuilder, HaloCurve, Target};
+use crate::{AffinePointTarget, CircuitBuilder, Curve, HaloCurve, Target};
 
 type Scheduler = Box<dyn FnMut(Vec<usize>) -> Vec<usize>>;
 
@@ -43,3 +43,25 @@ pub fn recursive_challenges<C: HaloCurve>(
         })
         .collect()
 }
+
+/// Like `recursive_challenges`, with points observed, one by one in even rounds and as a list in odd ones.
+pub fn recursive_point_challenges<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>>(
+    builder: &mut CircuitBuilder<C>,
+    rounds: &[(Vec<AffinePointTarget<InnerC>>, usize)],
+) -> Vec<Vec<Target<C::ScalarField>>> {
+    let mut challenger = RecursiveChallenger::new(builder);
+    rounds
+        .iter()
+        .enumerate()
+        .map(|(i, (observed, n))| {
+            if i % 2 == 0 {
+                observed
+                    .iter()
+                    .for_each(|&point| challenger.observe_affine_point(point));
+            } else {
+                challenger.observe_affine_points(observed);
+            }
+            challenger.get_n_challenges(builder, *n)
+        })
+        .collect()
+}
-- 
2.43.0

