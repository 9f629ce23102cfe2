From e7719b742802ec71f7deaf2ce1dec7fd57465c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 01/24] fix: use the frame's row offsets in the verifier's DEEP
 consistency check

The prover divides each trace term by (x - z * g^offset), the verifier divided
by (x - z * g^row_index), so valid proofs of computations whose offsets are not
0, 1, 2, ... were rejected.
---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..5eb2574 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -423,10 +423,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From 9f51a39307022c65bb41c53b40a0dc80a694367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 02/24] fix: verify the Merkle proofs of the trace openings

step_4 computed whether the opened trace values are the committed ones and then
dropped the result, so a proof could open any trace values it liked.
---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 5eb2574..f229c20 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result = proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From ac5f137d7609f31dba61c11476d9cb3667c54597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/24] fix: check the shape of a proof before verifying it

The verifier took the number of FRI layers, queries, openings, columns and path
nodes from the proof: a proof with missing layers or openings skipped the checks
they stand for, and other malformed proofs made the verifier panic.
---
 src/starks/frame.rs    |  5 +++
 src/starks/verifier.rs | 76 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 80 insertions(+), 1 deletion(-)

diff --git a/src/starks/frame.rs b/src/starks/frame.rs
index 8c588f7..806fd9d 100644
--- a/src/starks/frame.rs
+++ b/src/starks/frame.rs
@@ -27,6 +27,11 @@ impl<F: IsFFTField> Frame<F> {
         self.row_width
     }
 
+    /// Whether the frame holds exactly `num_rows` rows of `num_columns` elements.
+    pub fn has_dimensions(&self, num_rows: usize, num_columns: usize) -> bool {
+        self.row_width == num_columns && self.data.len() == num_rows * num_columns
+    }
+
     pub fn get_row(&self, row_idx: usize) -> &[FieldElement<F>] {
         let row_offset = row_idx * self.row_width;
         &self.data[row_offset..row_offset + self.row_width]
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index f229c20..c475295 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 #[cfg(not(feature = "test_fiat_shamir"))]
 use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
 use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
+use lambdaworks_crypto::merkle_tree::proof::Proof;
 use log::error;
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -19,7 +20,7 @@ use lambdaworks_math::{
 };
 
 use super::{
-    config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend},
+    config::{BatchedMerkleTreeBackend, Commitment, FriMerkleTreeBackend},
     domain::Domain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
@@ -559,6 +560,69 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Checks that the claimed trace length is one for which the evaluation domains exist.
+fn trace_length_is_valid<F: IsFFTField>(
+    proof: &StarkProof<F>,
+    proof_options: &ProofOptions,
+) -> bool {
+    let blowup_factor = proof_options.blowup_factor as usize;
+    proof.trace_length.is_power_of_two()
+        && blowup_factor.is_power_of_two()
+        && u64::from(proof.trace_length.trailing_zeros() + blowup_factor.trailing_zeros())
+            <= F::TWO_ADICITY.min(u64::from(usize::BITS - 2))
+}
+
+/// Checks that every list in the proof has the length that the protocol prescribes for the
+/// given AIR. All the following steps rely on it: a missing element would not be verified,
+/// or it would be accessed out of bounds.
+fn proof_shape_is_valid<F, A>(air: &A, proof: &StarkProof<F>, domain: &Domain<F>) -> bool
+where
+    F: IsFFTField,
+    FieldElement<F>: ByteConversion,
+    A: AIR<Field = F>,
+{
+    let trace_columns = air.context().trace_columns;
+    let frame_rows = air.context().transition_offsets.len();
+    let number_of_trees = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+    let number_of_queries = air.options().fri_number_of_queries;
+    let number_of_layers = (domain.root_order as usize).max(1);
+    let path_length = domain.lde_root_order as usize;
+
+    let frame = &proof.trace_ood_frame_evaluations;
+
+    proof.lde_trace_merkle_roots.len() == number_of_trees
+        && frame.has_dimensions(frame_rows, trace_columns)
+        && proof.fri_layers_merkle_roots.len() == number_of_layers
+        && proof.query_list.len() == number_of_queries
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_composition_poly_proof.merkle_path.len() == path_length
+                && opening.lde_trace_merkle_proofs.len() == number_of_trees
+                && opening
+                    .lde_trace_merkle_proofs
+                    .iter()
+                    .all(|path| path.merkle_path.len() == path_length)
+                && opening.lde_trace_evaluations.len() == trace_columns
+        })
+        && proof.query_list.iter().all(|query| {
+            let paths_are_valid = |paths: &[Proof<Commitment>]| {
+                paths.len() == number_of_layers
+                    && paths
+                        .iter()
+                        .enumerate()
+                        .all(|(layer, path)| path.merkle_path.len() == path_length - layer)
+            };
+            query.layers_evaluations.len() == number_of_layers
+                && query.layers_evaluations_sym.len() == number_of_layers
+                && paths_are_valid(&query.layers_auth_paths)
+                && paths_are_valid(&query.layers_auth_paths_sym)
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -574,6 +638,11 @@ where
         return false;
     }
 
+    if !trace_length_is_valid(proof, proof_options) {
+        error!("The trace length is not valid");
+        return false;
+    }
+
     #[cfg(feature = "instruments")]
     println!("- Started step 1: Recover challenges");
     #[cfg(feature = "instruments")]
@@ -583,6 +652,11 @@ where
     let air = A::new(proof.trace_length, pub_input, proof_options);
     let domain = Domain::new(&air);
 
+    if !proof_shape_is_valid(&air, proof, &domain) {
+        error!("The proof does not have the expected shape");
+        return false;
+    }
+
     let challenges =
         step_1_replay_rounds_and_recover_challenges(&air, proof, &domain, &mut transcript);
 
-- 
2.43.0


From 49e9cc63562377fb1decd5f1ba7f3bf9669a2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/24] fix: reject boundary assertions about steps outside of
 the trace

The domain point of a step repeats every trace_length steps, so a proof for
num_steps was also accepted for num_steps + trace_length.
---
 src/starks/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index c475295..d060b00 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -222,6 +222,17 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     //let n_trace_cols = air.context().trace_columns;
     // special cases.
     let trace_length = air.trace_length();
+
+    // An assertion about a step outside of the trace cannot hold. It would otherwise be
+    // taken as one about that step modulo the trace length.
+    if boundary_constraints
+        .constraints
+        .iter()
+        .any(|constraint| constraint.step >= trace_length)
+    {
+        return false;
+    }
+
     let composition_poly_degree_bound = air.composition_poly_degree_bound();
     let boundary_term_degree_adjustment = composition_poly_degree_bound - trace_length;
     let number_of_b_constraints = boundary_constraints.constraints.len();
-- 
2.43.0


From 10dd848d184d15b49da56c051e0400d7a8b67f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 05/24] fix: bind the boundary assertions to the Fiat-Shamir
 transcript

The transcript did not depend on the public inputs. Given a proof, its challenges
could be computed first and the asserted values then chosen to satisfy the one
linear equation they appear in.
---
 src/starks/prover.rs     |  9 ++++++++-
 src/starks/transcript.rs | 18 ++++++++++++++++++
 src/starks/verifier.rs   |  7 ++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/starks/prover.rs b/src/starks/prover.rs
index 84a8b40..d763d35 100644
--- a/src/starks/prover.rs
+++ b/src/starks/prover.rs
@@ -35,7 +35,9 @@ use super::proof::options::ProofOptions;
 use super::proof::stark::{DeepPolynomialOpenings, StarkProof};
 use super::trace::TraceTable;
 use super::traits::AIR;
-use super::transcript::{batch_sample_challenges, transcript_to_field};
+use super::transcript::{
+    append_boundary_constraints, batch_sample_challenges, transcript_to_field,
+};
 
 #[derive(Debug)]
 pub enum ProvingError {
@@ -593,6 +595,11 @@ where
     #[cfg(feature = "instruments")]
     let timer2 = Instant::now();
 
+    append_boundary_constraints(
+        &air.boundary_constraints(&round_1_result.rap_challenges),
+        &mut transcript,
+    );
+
     // <<<< Receive challenges: 𝛼_j^B
     let boundary_coeffs_alphas = batch_sample_challenges(
         air.boundary_constraints(&round_1_result.rap_challenges)
diff --git a/src/starks/transcript.rs b/src/starks/transcript.rs
index 8343621..7a2d69a 100644
--- a/src/starks/transcript.rs
+++ b/src/starks/transcript.rs
@@ -7,6 +7,8 @@ use lambdaworks_math::{
     traits::ByteConversion,
 };
 
+use super::constraints::boundary::BoundaryConstraints;
+
 /// Uses randomness from the transcript to create a FieldElement
 /// One bit less than the max used by the FieldElement is used as randomness. For StarkFields, this would be 251 bits randomness.
 /// Randomness is interpreted as limbs in BigEndian, and each Limb is ordered in BigEndian
@@ -68,6 +70,22 @@ where
     }
 }
 
+/// Binds the boundary assertions, and with them the public inputs they were made from, to
+/// the transcript. This has to happen before the challenges that combine the assertions are
+/// drawn: otherwise, given a proof, one could look for other assertions that agree with it.
+pub fn append_boundary_constraints<F: IsFFTField, T: Transcript>(
+    boundary_constraints: &BoundaryConstraints<F>,
+    transcript: &mut T,
+) where
+    FieldElement<F>: ByteConversion,
+{
+    for constraint in &boundary_constraints.constraints {
+        transcript.append(&(constraint.col as u64).to_be_bytes());
+        transcript.append(&(constraint.step as u64).to_be_bytes());
+        transcript.append(&constraint.value.to_bytes_be());
+    }
+}
+
 pub fn batch_sample_challenges<F: IsFFTField, T: Transcript>(
     size: usize,
     transcript: &mut T,
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d060b00..bd67ada 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -26,7 +26,10 @@ use super::{
     grinding::hash_transcript_with_int_and_get_leading_zeros,
     proof::{options::ProofOptions, stark::StarkProof},
     traits::AIR,
-    transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize},
+    transcript::{
+        append_boundary_constraints, batch_sample_challenges, sample_z_ood, transcript_to_field,
+        transcript_to_usize,
+    },
 };
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -88,6 +91,8 @@ where
     // ==========|   Round 2   |==========
     // ===================================
 
+    append_boundary_constraints(&air.boundary_constraints(&rap_challenges), transcript);
+
     // These are the challenges alpha^B_j and beta^B_j
     // >>>> Send challenges: 𝛼_j^B
     let boundary_coeffs_alphas = batch_sample_challenges(
-- 
2.43.0


From ec7150e66eb33fae49f089d6eb9fbc90f388102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 06/24] fix: expect the range-check builtin columns only with a
 range-check segment

A run with an output segment and no range-check segment has no builtin columns in
its main trace, so proving it failed.
---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..8cb55e5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -620,7 +620,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From fba02d7d79fbbbba85340b96ad199d92cdd0299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 07/24] fix: assert the initial value of fp

The public input states it and the constraints' documentation lists it, but no
assertion did: a proof verified with any fp_init, and the execution could start
with any frame pointer.
---
 src/cairo/air.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 8cb55e5..6ee92fa 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -782,6 +782,7 @@ impl AIR for CairoAIR {
     ) -> BoundaryConstraints<Self::Field> {
         let initial_pc = BoundaryConstraint::new(MEM_A_TRACE_OFFSET, 0, self.pub_inputs.pc_init);
         let initial_ap = BoundaryConstraint::new(MEM_P_TRACE_OFFSET, 0, self.pub_inputs.ap_init);
+        let initial_fp = BoundaryConstraint::new(FRAME_FP, 0, self.pub_inputs.fp_init);
 
         let final_pc = BoundaryConstraint::new(
             MEM_A_TRACE_OFFSET,
@@ -839,6 +840,7 @@ impl AIR for CairoAIR {
         let constraints = vec![
             initial_pc,
             initial_ap,
+            initial_fp,
             final_pc,
             final_ap,
             permutation_final_constraint,
-- 
2.43.0


From 9b22f1601f4becebd1ff632e2c85b59f8351987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 08/24] fix: reject Cairo public inputs without steps or
 range-check bounds

verify_cairo_proof panicked on them, and they can be decoded from any file.
---
 src/cairo/air.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 6ee92fa..03f6dc6 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -1182,6 +1182,14 @@ pub fn verify_cairo_proof(
     pub_input: &PublicInputs,
     proof_options: &ProofOptions,
 ) -> bool {
+    // The constraints are only defined for a public input that describes an execution.
+    if pub_input.num_steps == 0
+        || pub_input.range_check_min.is_none()
+        || pub_input.range_check_max.is_none()
+    {
+        return false;
+    }
+
     verify::<Stark252PrimeField, CairoAIR>(proof, pub_input, proof_options)
 }
 
-- 
2.43.0


From 37062486858f906f6fd4fc48c519e9c8d3daed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 09/24] fix: bind the Cairo public memory to the Fiat-Shamir
 transcript

The public memory enters the constraints only as one product under the challenges
of the memory permutation argument, which did not depend on it. Given a proof, one
could compute them and add, for example, any cell whose address and value combine
to zero: the proof verified for that memory too.
---
 src/cairo/air.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 03f6dc6..93aeb86 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -731,6 +731,15 @@ impl AIR for CairoAIR {
     }
 
     fn build_rap_challenges<T: Transcript>(&self, transcript: &mut T) -> Self::RAPChallenges {
+        // Bind the public memory before drawing the challenges of the memory permutation
+        // argument: knowing them, one could look for other memories with the same product.
+        let mut public_memory: Vec<_> = self.pub_inputs.public_memory.iter().collect();
+        public_memory.sort_by_key(|(address, _)| address.representative());
+        for (address, value) in public_memory {
+            transcript.append(&address.to_bytes_be());
+            transcript.append(&value.to_bytes_be());
+        }
+
         CairoRAPChallenges {
             alpha_memory: transcript_to_field(transcript),
             z_memory: transcript_to_field(transcript),
-- 
2.43.0


From 6f9a6a80931753548d456f1635202ce428606dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 10/24] fix: report truncated range-check bounds when decoding
 public inputs

Decoding indexed past the end of the input and panicked.
---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 93aeb86..8088b37 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -331,7 +331,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -352,7 +354,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From fb3ddc64c5d8c3b10eb926ec922f4064c01cbd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 11/24] fix: encode query decommitments without evaluations

Encoding one, which decoding can return, panicked.
---
 src/starks/fri/fri_decommit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..e06235d 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,11 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = self
+            .layers_evaluations
+            .first()
+            .or(self.layers_evaluations_sym.first())
+            .map_or(0, |evaluation| evaluation.to_bytes_be().len());
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From f06d99798cc74466fb90cc0d347195802983ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 12/24] fix: enforce the Cairo constraint selector

Nothing constrained the selector column, which switches the instruction, operand,
register and opcode constraints off: a trace with zeros in it could state any
execution. It now has to be one in every step that has a next one.
---
 src/cairo/air.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 8088b37..6574ed0 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -67,8 +67,11 @@ const RANGE_CHECK_0: usize = 46;
 const RANGE_CHECK_1: usize = 47;
 const RANGE_CHECK_2: usize = 48;
 
+// Selector constraint
+const SELECTOR: usize = 49;
+
 // Range-check builtin value decomposition constraint
-const RANGE_CHECK_BUILTIN: usize = 49;
+const RANGE_CHECK_BUILTIN: usize = 50;
 
 // Frame row identifiers
 //  - Flags
@@ -605,6 +608,7 @@ impl AIR for CairoAIR {
             2, 2, 2, 2, // Permutation auxiliary constraints.
             2, 2, 2, // range-check increasing constraints.
             2, 2, 2, // range-check permutation argument constraints.
+            2, // selector constraint.
         ];
         let mut transition_exemptions = vec![
             0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, // flags (16)
@@ -617,8 +621,9 @@ impl AIR for CairoAIR {
             0, 0, 0, 1, // memory permutation argument (4)
             0, 0, 1, // range check continuous (3)
             0, 0, 0, // range check permutation argument (3)
+            1, // selector (1)
         ];
-        let mut num_transition_constraints = 49;
+        let mut num_transition_constraints = 50;
 
         // This is a hacky solution for the moment and must be changed once we start implementing 
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
@@ -773,6 +778,7 @@ impl AIR for CairoAIR {
         memory_is_increasing(&mut constraints, frame, builtin_offset);
         permutation_argument(&mut constraints, frame, rap_challenges, builtin_offset);
         permutation_argument_range_check(&mut constraints, frame, rap_challenges, builtin_offset);
+        selector_is_decreasing(&mut constraints, frame);
 
         if self.has_rc_builtin {
             range_check_builtin(&mut constraints, frame);
@@ -850,7 +856,7 @@ impl AIR for CairoAIR {
             FieldElement::from(self.pub_inputs.range_check_max.unwrap() as u64),
         );
 
-        let constraints = vec![
+        let mut constraints = vec![
             initial_pc,
             initial_ap,
             initial_fp,
@@ -862,6 +868,15 @@ impl AIR for CairoAIR {
             range_check_max,
         ];
 
+        // The constraints that depend on the selector hold in every step but the last one.
+        if self.pub_inputs.num_steps > 1 {
+            constraints.push(BoundaryConstraint::new(
+                FRAME_SELECTOR,
+                self.pub_inputs.num_steps - 2,
+                one,
+            ));
+        }
+
         BoundaryConstraints::from_constraints(constraints)
     }
 
@@ -1001,6 +1016,15 @@ fn enforce_selector(constraints: &mut [FE], frame: &Frame<Stark252PrimeField>) {
     }
 }
 
+/// Once the selector is not one, it is zero in all the following rows. The boundary constraint
+/// on the last step that has a transition makes it one in all the steps before.
+fn selector_is_decreasing(constraints: &mut [FE], frame: &Frame<Stark252PrimeField>) {
+    let curr = frame.get_row(0);
+    let next = frame.get_row(1);
+
+    constraints[SELECTOR] = &next[FRAME_SELECTOR] * (FE::one() - &curr[FRAME_SELECTOR]);
+}
+
 fn memory_is_increasing(
     constraints: &mut [FE],
     frame: &Frame<Stark252PrimeField>,
-- 
2.43.0


From c1d31a0b794f5bfe32089791629ff89a54c1b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 13/24] fix: compute and compare the provable security of proof
 options correctly

new_with_checked_provable_security took the leading zeros of the blowup factor for
its logarithm, accepted options below the target and rejected those above it.
---
 src/starks/proof/options.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..7034a6e 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -111,10 +111,11 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
-        if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+        if security_target as usize
+            >= (grinding_factor as usize)
+                .saturating_add(num_bits_blowup_factor.saturating_mul(fri_number_of_queries) / 2)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From d72b98fe45fcca93f1e14c737247ba61357104b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 14/24] fix: do not overflow when checking the security of
 proof options

Without grinding and queries, or with a very large number of queries, the estimate
overflowed: a panic, or options without security accepted.
---
 src/starks/proof/options.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index 7034a6e..2943c89 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -86,7 +86,9 @@ impl ProofOptions {
         let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
 
         if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+            >= (grinding_factor as usize)
+                .saturating_add(num_bits_blowup_factor.saturating_mul(fri_number_of_queries))
+                .saturating_sub(1)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From d811bf24b8caf39754bb5836b1f7e1ae16efd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 15/24] fix: do not count a zero blowup factor as eight bits of
 security

---
 src/starks/proof/options.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index 2943c89..9e90773 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -83,7 +83,7 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        let num_bits_blowup_factor = Self::num_bits_blowup_factor(blowup_factor);
 
         if security_target as usize
             >= (grinding_factor as usize)
@@ -113,7 +113,7 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        let num_bits_blowup_factor = Self::num_bits_blowup_factor(blowup_factor);
 
         if security_target as usize
             >= (grinding_factor as usize)
@@ -130,6 +130,14 @@ impl ProofOptions {
         })
     }
 
+    /// Security bits that each query provides: the logarithm of the blowup factor.
+    fn num_bits_blowup_factor(blowup_factor: u8) -> usize {
+        match blowup_factor {
+            0 => 0,
+            _ => blowup_factor.trailing_zeros() as usize,
+        }
+    }
+
     fn check_field_security<F: IsPrimeField>(
         security_target: u8,
     ) -> Result<(), InsecureOptionError> {
-- 
2.43.0


From 0bb9e64e759f889a5db4dff1c6fcacc78fb0ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 16/24] fix: fill memory holes next to output cells and
 unaccessed public cells

The length of the program was taken to be the size of the public memory, which also
counts the output cells, so that holes in as many cells after the program were not filled
and the memory was not continuous.
---
 src/cairo/execution_trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..4b0c5f0 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -64,6 +64,9 @@ pub fn build_main_trace(
     let mut address_cols = main_trace
         .get_cols(&[FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR])
         .table;
+    // The public memory is added to the accesses in a posterior step of the protocol, so that
+    // none of its addresses is a hole and all the addresses around them have to be continuous.
+    address_cols.extend(public_input.public_memory.keys());
     address_cols.sort_by_key(|x| x.representative());
 
     let (rc_holes, rc_min, rc_max) = get_rc_holes(&main_trace, &[OFF_DST, OFF_OP0, OFF_OP1]);
@@ -71,7 +74,7 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    let mut memory_holes = get_memory_holes(&address_cols, 0);
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From a0128ac2a0a3f7b1493844c0f5d8c9a49ad5e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 17/24] fix: report instruction words that have more than 63
 bits

The highest bit and everything above 64 bits was silently dropped.
---
 src/cairo/decode/instruction_flags.rs | 5 +++++
 src/cairo/errors.rs                   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/cairo/decode/instruction_flags.rs b/src/cairo/decode/instruction_flags.rs
index da60b3a..c2344a0 100644
--- a/src/cairo/decode/instruction_flags.rs
+++ b/src/cairo/decode/instruction_flags.rs
@@ -292,6 +292,11 @@ impl TryFrom<&FE> for CairoInstructionFlags {
     type Error = InstructionDecodingError;
 
     fn try_from(mem_value: &FE) -> Result<Self, Self::Error> {
+        // Three offsets of 16 bits and 15 flags.
+        if mem_value.representative() >= (1_u64 << 63).into() {
+            return Err(InstructionDecodingError::InstructionTooLarge);
+        }
+
         Ok(CairoInstructionFlags {
             opcode: CairoOpcode::try_from(mem_value)?,
             pc_update: PcUpdate::try_from(mem_value)?,
diff --git a/src/cairo/errors.rs b/src/cairo/errors.rs
index c7cf11d..fc7451b 100644
--- a/src/cairo/errors.rs
+++ b/src/cairo/errors.rs
@@ -24,6 +24,8 @@ pub enum InstructionDecodingError {
     InvalidOp0Reg,
     #[error("Invalid dst_reg value")]
     InvalidDstReg,
+    #[error("Instruction has more than 63 bits")]
+    InstructionTooLarge,
     #[error("Instruction not found in memory")]
     InstructionNotFound,
 }
-- 
2.43.0


From 80e2db5a996e122052b6e0473b0b5dba826f0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 18/24] fix: tie the Cairo memory permutation argument to the
 first step of the trace

---
 src/cairo/air.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 6574ed0..8be6679 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -464,6 +464,15 @@ pub struct CairoAIR {
 }
 
 impl CairoAIR {
+    /// The instruction word of the first step, as the public memory states it.
+    fn initial_instruction(&self) -> FE {
+        self.pub_inputs
+            .public_memory
+            .get(&self.pub_inputs.pc_init)
+            .cloned()
+            .unwrap_or_else(FE::zero)
+    }
+
     fn get_builtin_offset(&self) -> usize {
         if self.has_rc_builtin {
             0
@@ -868,6 +877,31 @@ impl AIR for CairoAIR {
             range_check_max,
         ];
 
+        // The memory permutation argument starts from the first access and the smallest one.
+        // Otherwise its column could begin with any value, and end as expected with sorted columns
+        // that are no permutation of the trace.
+        let initial_inst = self.initial_instruction();
+        let permutation_initial = (&rap_challenges.z_memory
+            - (&self.pub_inputs.pc_init + &rap_challenges.alpha_memory * &initial_inst))
+            * rap_challenges.z_memory.inv();
+        constraints.extend(
+            [
+                (FRAME_INST, initial_inst),
+                // The smallest address is the dummy cell of the public memory.
+                (MEMORY_ADDR_SORTED_0 - builtin_offset, FieldElement::zero()),
+                (
+                    MEMORY_VALUES_SORTED_0 - builtin_offset,
+                    FieldElement::zero(),
+                ),
+                (
+                    PERMUTATION_ARGUMENT_COL_0 - builtin_offset,
+                    permutation_initial,
+                ),
+            ]
+            .into_iter()
+            .map(|(col, value)| BoundaryConstraint::new(col, 0, value)),
+        );
+
         // The constraints that depend on the selector hold in every step but the last one.
         if self.pub_inputs.num_steps > 1 {
             constraints.push(BoundaryConstraint::new(
@@ -1223,6 +1257,7 @@ pub fn verify_cairo_proof(
     if pub_input.num_steps == 0
         || pub_input.range_check_min.is_none()
         || pub_input.range_check_max.is_none()
+        || !pub_input.public_memory.contains_key(&pub_input.pc_init)
     {
         return false;
     }
-- 
2.43.0


From 7a891ff97267931bdaf0bdf279008f969831eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 19/24] fix: do not build the whole domains that a proof claims
 when verifying it

The verifier allocated the trace and low degree extension domains of the length claimed by the
proof. A proof of a few kilobytes claiming 2^40 rows made it abort. It now computes only the
elements that are opened.
---
 src/starks/domain.rs     | 41 ++++++++++++++++++++++++++++++++++++++++
 src/starks/transcript.rs | 21 +++++++++++++++++---
 src/starks/verifier.rs   | 38 +++++++++++++++----------------------
 3 files changed, 74 insertions(+), 26 deletions(-)

diff --git a/src/starks/domain.rs b/src/starks/domain.rs
index d35b2f6..5651d0b 100644
--- a/src/starks/domain.rs
+++ b/src/starks/domain.rs
@@ -55,3 +55,44 @@ impl<F: IsFFTField> Domain<F> {
         }
     }
 }
+
+/// What the verifier needs to know about the domains. Unlike [Domain], it does not hold their
+/// elements: there are as many of them as the proof claims, and only a few are opened.
+pub struct VerifierDomain<F: IsFFTField> {
+    pub(crate) root_order: u32,
+    pub(crate) lde_root_order: u32,
+    pub(crate) trace_primitive_root: FieldElement<F>,
+    lde_primitive_root: FieldElement<F>,
+    coset_offset: FieldElement<F>,
+}
+
+impl<F: IsFFTField> VerifierDomain<F> {
+    pub fn new<A>(air: &A) -> Self
+    where
+        A: AIR<Field = F>,
+    {
+        let root_order = air.trace_length().trailing_zeros();
+        let lde_root_order =
+            (air.trace_length() * air.options().blowup_factor as usize).trailing_zeros();
+
+        Self {
+            root_order,
+            lde_root_order,
+            trace_primitive_root: F::get_primitive_root_of_unity(root_order as u64).unwrap(),
+            lde_primitive_root: F::get_primitive_root_of_unity(lde_root_order as u64).unwrap(),
+            coset_offset: FieldElement::<F>::from(air.options().coset_offset),
+        }
+    }
+
+    /// The element of the low degree extension domain at the given position.
+    pub(crate) fn lde_element(&self, index: usize) -> FieldElement<F> {
+        &self.coset_offset * self.lde_primitive_root.pow(index as u64)
+    }
+
+    /// Whether the element belongs to the trace domain or to the low degree extension domain.
+    pub(crate) fn contains(&self, element: &FieldElement<F>) -> bool {
+        let lde_length = 1_u64 << self.lde_root_order;
+        element.pow(1_u64 << self.root_order) == FieldElement::one()
+            || element.pow(lde_length) == self.coset_offset.pow(lde_length)
+    }
+}
diff --git a/src/starks/transcript.rs b/src/starks/transcript.rs
index 7a2d69a..718e4a4 100644
--- a/src/starks/transcript.rs
+++ b/src/starks/transcript.rs
@@ -57,14 +57,29 @@ pub fn sample_z_ood<F: IsPrimeField, T: Transcript>(
     trace_roots_of_unity: &[FieldElement<F>],
     transcript: &mut T,
 ) -> FieldElement<F>
+where
+    FieldElement<F>: ByteConversion,
+{
+    sample_z_ood_outside_of(
+        |value| {
+            lde_roots_of_unity_coset.iter().any(|x| x == value)
+                || trace_roots_of_unity.iter().any(|x| x == value)
+        },
+        transcript,
+    )
+}
+
+/// Same as [sample_z_ood], for domains given by their membership test.
+pub fn sample_z_ood_outside_of<F: IsPrimeField, T: Transcript>(
+    is_in_domains: impl Fn(&FieldElement<F>) -> bool,
+    transcript: &mut T,
+) -> FieldElement<F>
 where
     FieldElement<F>: ByteConversion,
 {
     loop {
         let value: FieldElement<F> = transcript_to_field(transcript);
-        if !lde_roots_of_unity_coset.iter().any(|x| x == &value)
-            && !trace_roots_of_unity.iter().any(|x| x == &value)
-        {
+        if !is_in_domains(&value) {
             return value;
         }
     }
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd67ada..07ad88b 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -21,14 +21,14 @@ use lambdaworks_math::{
 
 use super::{
     config::{BatchedMerkleTreeBackend, Commitment, FriMerkleTreeBackend},
-    domain::Domain,
+    domain::VerifierDomain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
     proof::{options::ProofOptions, stark::StarkProof},
     traits::AIR,
     transcript::{
-        append_boundary_constraints, batch_sample_challenges, sample_z_ood, transcript_to_field,
-        transcript_to_usize,
+        append_boundary_constraints, batch_sample_challenges, sample_z_ood_outside_of,
+        transcript_to_field, transcript_to_usize,
     },
 };
 
@@ -63,7 +63,7 @@ where
 fn step_1_replay_rounds_and_recover_challenges<F, A, T>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     transcript: &mut T,
 ) -> Challenges<F, A>
 where
@@ -128,11 +128,7 @@ where
     // ===================================
 
     // >>>> Send challenge: z
-    let z = sample_z_ood(
-        &domain.lde_roots_of_unity_coset,
-        &domain.trace_roots_of_unity,
-        transcript,
-    );
+    let z = sample_z_ood_outside_of(|value| domain.contains(value), transcript);
 
     // <<<< Receive value: H₁(z²)
     transcript.append(&proof.composition_poly_even_ood_evaluation.to_bytes_be());
@@ -214,7 +210,7 @@ where
 fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool {
     // BEGIN TRACE <-> Composition poly consistency evaluation check
@@ -284,9 +280,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
     let denominator = (&challenges.z.pow(trace_length) - FieldElement::<F>::one()).inv();
 
     let exemption = air
-        .transition_exemptions_verifier(
-            domain.trace_roots_of_unity.iter().last().expect("has last"),
-        )
+        .transition_exemptions_verifier(&domain.trace_primitive_root.pow(trace_length - 1))
         .iter()
         .map(|poly| poly.evaluate(&challenges.z))
         .collect::<Vec<FieldElement<F>>>();
@@ -335,7 +329,7 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
 
 fn step_3_verify_fri<F, A>(
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -348,8 +342,7 @@ where
     let mut evaluation_point_inverse = challenges
         .iotas
         .iter()
-        .map(|iota| &domain.lde_roots_of_unity_coset[*iota])
-        .cloned()
+        .map(|iota| domain.lde_element(*iota))
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut evaluation_point_inverse);
     proof
@@ -375,7 +368,7 @@ where
 fn step_4_verify_deep_composition_polynomial<F: IsFFTField, A: AIR<Field = F>>(
     air: &A,
     proof: &StarkProof<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     challenges: &Challenges<F, A>,
 ) -> bool
 where
@@ -386,7 +379,7 @@ where
     let mut denom_inv = challenges
         .iotas
         .iter()
-        .map(|iota_n| &domain.lde_roots_of_unity_coset[*iota_n] - z_squared)
+        .map(|iota_n| domain.lde_element(*iota_n) - z_squared)
         .collect::<Vec<FieldElement<F>>>();
     FieldElement::inplace_batch_inverse(&mut denom_inv);
 
@@ -445,8 +438,7 @@ where
                     .transition_offsets
                     .iter()
                     .map(|offset| {
-                        &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(*offset)
+                        domain.lde_element(*iota_n) - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
@@ -465,7 +457,7 @@ fn verify_query_and_sym_openings<F: IsField + IsFFTField>(
     zetas: &[FieldElement<F>],
     iota: usize,
     fri_decommitment: &FriDecommitment<F>,
-    domain: &Domain<F>,
+    domain: &VerifierDomain<F>,
     evaluation_point: FieldElement<F>,
     two_inv: &FieldElement<F>,
 ) -> bool
@@ -591,7 +583,7 @@ fn trace_length_is_valid<F: IsFFTField>(
 /// Checks that every list in the proof has the length that the protocol prescribes for the
 /// given AIR. All the following steps rely on it: a missing element would not be verified,
 /// or it would be accessed out of bounds.
-fn proof_shape_is_valid<F, A>(air: &A, proof: &StarkProof<F>, domain: &Domain<F>) -> bool
+fn proof_shape_is_valid<F, A>(air: &A, proof: &StarkProof<F>, domain: &VerifierDomain<F>) -> bool
 where
     F: IsFFTField,
     FieldElement<F>: ByteConversion,
@@ -666,7 +658,7 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
-    let domain = Domain::new(&air);
+    let domain = VerifierDomain::new(&air);
 
     if !proof_shape_is_valid(&air, proof, &domain) {
         error!("The proof does not have the expected shape");
-- 
2.43.0


From b58f9b4bfed239159ea48145223bc6c4b948c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 20/24] fix: report Cairo 1 programs that cannot be read or run

Malformed or failing Cairo 1 programs made run_program panic instead of returning an error.
---
 src/cairo/runner/run.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index 22bfc5b..d15fdf9 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -32,6 +32,8 @@ pub enum Error {
     VirtualMachine(#[from] VirtualMachineError),
     #[error(transparent)]
     Trace(#[from] TraceError),
+    #[error("The Cairo 1 program could not be read")]
+    Casm(#[from] serde_json::Error),
 }
 
 /// Indicates the version of the Cairo program.
@@ -100,19 +102,18 @@ pub fn run_program(
             (vm, runner)
         }
         CairoVersion::V1 => {
-            let casm_contract: CasmContractClass = serde_json::from_slice(program_content).unwrap();
-            let program: Program = casm_contract.clone().try_into().unwrap();
-            let mut runner = CairoRunner::new(
-                &(casm_contract.clone().try_into().unwrap()),
-                layout.as_str(),
-                false,
-            )
-            .unwrap();
+            let casm_contract: CasmContractClass = serde_json::from_slice(program_content)?;
+            let program: Program = casm_contract
+                .clone()
+                .try_into()
+                .map_err(CairoRunError::Program)?;
+            let mut runner = CairoRunner::new(&program, layout.as_str(), false)
+                .map_err(CairoRunError::Runner)?;
             let mut vm = VirtualMachine::new(true);
 
             runner
                 .initialize_function_runner_cairo_1(&mut vm, &[BuiltinName::range_check])
-                .unwrap();
+                .map_err(CairoRunError::Runner)?;
 
             // Implicit Args
             let syscall_segment = MaybeRelocatable::from(vm.add_memory_segment());
@@ -182,8 +183,7 @@ pub fn run_program(
                     Some(program.data_len() + program_extra_data.len()),
                     &mut vm,
                     &mut hint_processor,
-                )
-                .unwrap();
+                )?;
 
             let _ = runner.relocate(&mut vm, true);
 
-- 
2.43.0


From bca8e92963b4fc6b2a3e61c35c15382486799ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 21/24] fix: report Cairo 1 programs without instructions

---
 src/cairo/runner/run.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cairo/runner/run.rs b/src/cairo/runner/run.rs
index d15fdf9..67504e0 100644
--- a/src/cairo/runner/run.rs
+++ b/src/cairo/runner/run.rs
@@ -34,6 +34,8 @@ pub enum Error {
     Trace(#[from] TraceError),
     #[error("The Cairo 1 program could not be read")]
     Casm(#[from] serde_json::Error),
+    #[error("The program has no instructions")]
+    EmptyProgram,
 }
 
 /// Indicates the version of the Cairo program.
@@ -107,6 +109,11 @@ pub fn run_program(
                 .clone()
                 .try_into()
                 .map_err(CairoRunError::Program)?;
+            // The words added after the program run even if there is none, but are not
+            // part of it: the proof would be about no program.
+            if program.data_len() == 0 {
+                return Err(Error::EmptyProgram);
+            }
             let mut runner = CairoRunner::new(&program, layout.as_str(), false)
                 .map_err(CairoRunError::Runner)?;
             let mut vm = VirtualMachine::new(true);
-- 
2.43.0


From b354867441d4152cefcbaf0b060921bca257bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:32 +0000
Subject: [PATCH 22/24] fix: report command line arguments that are not valid
 Unicode

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1f95202..90f27d2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,11 @@ fn verify_proof(
 fn main() {
     let proof_options = ProofOptions::default_test_options();
 
-    let args: Vec<String> = env::args().collect();
+    let args: Result<Vec<String>, _> = env::args_os().map(|arg| arg.into_string()).collect();
+    let Ok(args) = args else {
+        println!("Arguments have to be valid Unicode");
+        return;
+    };
 
     if args.len() < 2 {
         println!("Usage: cargo run <command> [arguments]");
-- 
2.43.0


From bb8513f1a2b7a87e58e7f27a498e609cd3ce27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 23/24] fix: take the low bytes of the randomness for fields of
 fewer than 32 bytes

---
 src/starks/transcript.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/starks/transcript.rs b/src/starks/transcript.rs
index 718e4a4..349a632 100644
--- a/src/starks/transcript.rs
+++ b/src/starks/transcript.rs
@@ -41,7 +41,9 @@ where
     let mask: u8 = pre_mask.wrapping_sub(1);
     randomness[i] &= mask;
 
-    FieldElement::from_bytes_be(randomness).unwrap()
+    // An element may take fewer bytes than the randomness. The bits kept are the lowest ones.
+    let element_size = FieldElement::<F>::zero().to_bytes_be().len();
+    FieldElement::from_bytes_be(&randomness[randomness.len() - element_size..]).unwrap()
 }
 
 pub fn transcript_to_usize<T: Transcript>(transcript: &mut T) -> usize {
-- 
2.43.0


From 3c9c88cb13853e9c7d8f248a7e229b98d20e7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 24/24] fix: evaluate the exemptions in the verifier without
 building a polynomial for each of them

---
 src/starks/traits.rs   | 20 +++++++++++---------
 src/starks/verifier.rs |  9 ++++-----
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/starks/traits.rs b/src/starks/traits.rs
index e318931..a1e8923 100644
--- a/src/starks/traits.rs
+++ b/src/starks/traits.rs
@@ -95,24 +95,26 @@ pub trait AIR: Clone {
 
     fn pub_inputs(&self) -> &Self::PublicInputs;
 
+    /// The evaluations at `z` of the polynomials that vanish on the last rows of the trace: the
+    /// one at index `i` is for `i + 1` exempt rows. `root` is the last element of the trace domain.
     fn transition_exemptions_verifier(
         &self,
         root: &FieldElement<Self::Field>,
-    ) -> Vec<Polynomial<FieldElement<Self::Field>>> {
-        let x = Polynomial::new_monomial(FieldElement::one(), 1);
-
+        z: &FieldElement<Self::Field>,
+    ) -> Vec<FieldElement<Self::Field>> {
         let max = self
             .context()
             .transition_exemptions
             .iter()
             .max()
             .expect("has maximum");
-        (1..=*max)
-            .map(|index| {
-                (1..=index).fold(
-                    Polynomial::new_monomial(FieldElement::one(), 0),
-                    |acc, k| acc * (&x - root.pow(k)),
-                )
+        let mut root_power = FieldElement::one();
+        let mut evaluation = FieldElement::one();
+        (0..*max)
+            .map(|_| {
+                root_power = &root_power * root;
+                evaluation = &evaluation * (z - &root_power);
+                evaluation.clone()
             })
             .collect()
     }
diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index 07ad88b..b12dc88 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -279,11 +279,10 @@ fn step_2_verify_claimed_composition_polynomial<F: IsFFTField, A: AIR<Field = F>
 
     let denominator = (&challenges.z.pow(trace_length) - FieldElement::<F>::one()).inv();
 
-    let exemption = air
-        .transition_exemptions_verifier(&domain.trace_primitive_root.pow(trace_length - 1))
-        .iter()
-        .map(|poly| poly.evaluate(&challenges.z))
-        .collect::<Vec<FieldElement<F>>>();
+    let exemption = air.transition_exemptions_verifier(
+        &domain.trace_primitive_root.pow(trace_length - 1),
+        &challenges.z,
+    );
 
     let max_degree = air
         .context()
-- 
2.43.0

