From 9ebecda6fe487a012b325549c80cc50e9a67ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 1/9] fix: verifier checks the openings of the trace

The verdict of the trace openings was computed and dropped, so a proof
whose trace evaluations are not in the committed trees was accepted.
---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..bd6c18f 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result = proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From bdde8f8461b14adc2f40757349e76d4a6e8b6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 2/9] fix: verifier rejects proofs with an unexpected shape

Missing queries, openings, FRI layers, columns or frame rows made the
verifier panic or skip the corresponding check: a proof with no DEEP
openings, with extra FRI layers or without the auxiliary commitment could
be accepted.
---
 src/starks/verifier.rs | 76 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 73 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd6c18f..c36be24 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -5,6 +5,7 @@ use std::time::Instant;
 #[cfg(not(feature = "test_fiat_shamir"))]
 use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
 use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
+use lambdaworks_crypto::merkle_tree::proof::Proof;
 use log::error;
 
 #[cfg(feature = "test_fiat_shamir")]
@@ -19,7 +20,7 @@ use lambdaworks_math::{
 };
 
 use super::{
-    config::{BatchedMerkleTreeBackend, FriMerkleTreeBackend},
+    config::{BatchedMerkleTreeBackend, Commitment, FriMerkleTreeBackend},
     domain::Domain,
     fri::fri_decommit::FriDecommitment,
     grinding::hash_transcript_with_int_and_get_leading_zeros,
@@ -556,6 +557,69 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Checks that there is an evaluation domain for a trace of this length.
+fn is_valid_trace_length(trace_length: usize, proof_options: &ProofOptions) -> bool {
+    trace_length.is_power_of_two()
+        && trace_length
+            .checked_mul(proof_options.blowup_factor as usize)
+            .is_some()
+}
+
+/// Checks that the proof has the number of commitments, evaluations and openings
+/// that the AIR and the proof options prescribe.
+fn has_expected_shape<F, A>(air: &A, proof: &StarkProof<F>) -> bool
+where
+    F: IsFFTField,
+    A: AIR<Field = F>,
+{
+    let trace_columns = air.context().trace_columns;
+    let number_of_queries = air.options().fri_number_of_queries;
+    let number_of_trace_commitments = if air.number_auxiliary_rap_columns() == 0 {
+        1
+    } else {
+        2
+    };
+    let lde_root_order =
+        (proof.trace_length * air.options().blowup_factor as usize).trailing_zeros() as usize;
+    // The prover always commits to the first layer.
+    let number_of_layers = (proof.trace_length.trailing_zeros() as usize).max(1);
+
+    proof.lde_trace_merkle_roots.len() == number_of_trace_commitments
+        && proof.trace_ood_frame_evaluations.num_columns() == trace_columns
+        && proof.trace_ood_frame_evaluations.num_rows() == air.context().transition_offsets.len()
+        && proof.fri_layers_merkle_roots.len() == number_of_layers
+        && proof.query_list.len() == number_of_queries
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof.query_list.iter().all(|query| {
+            let is_layer_path = |(layer, path): (usize, &Proof<Commitment>)| {
+                path.merkle_path.len() + layer == lde_root_order
+            };
+            query.layers_evaluations.len() == number_of_layers
+                && query.layers_evaluations_sym.len() == number_of_layers
+                && query.layers_auth_paths.len() == number_of_layers
+                && query.layers_auth_paths_sym.len() == number_of_layers
+                && query
+                    .layers_auth_paths
+                    .iter()
+                    .enumerate()
+                    .all(is_layer_path)
+                && query
+                    .layers_auth_paths_sym
+                    .iter()
+                    .enumerate()
+                    .all(is_layer_path)
+        })
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_trace_evaluations.len() == trace_columns
+                && opening.lde_trace_merkle_proofs.len() == number_of_trace_commitments
+                && opening
+                    .lde_trace_merkle_proofs
+                    .iter()
+                    .chain([&opening.lde_composition_poly_proof])
+                    .all(|path| path.merkle_path.len() == lde_root_order)
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -566,8 +630,8 @@ where
     A: AIR<Field = F>,
     FieldElement<F>: ByteConversion,
 {
-    // Verify there are enough queries
-    if proof.query_list.len() < proof_options.fri_number_of_queries {
+    // The rest of the verifier indexes the proof, so its shape has to be checked first
+    if !is_valid_trace_length(proof.trace_length, proof_options) {
         return false;
     }
 
@@ -578,6 +642,12 @@ where
 
     let mut transcript = step_1_transcript_initialization();
     let air = A::new(proof.trace_length, pub_input, proof_options);
+
+    if !has_expected_shape(&air, proof) {
+        error!("The proof does not have the expected shape");
+        return false;
+    }
+
     let domain = Domain::new(&air);
 
     let challenges =
-- 
2.43.0


From 5de8ab40f080af674f931d6fd7f99cfd4fd0c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 3/9] fix: proof options are checked against the right security
 bounds

---
 src/starks/proof/options.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..9ad9fa6 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -83,10 +83,13 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        let num_bits_blowup_factor = Self::num_bits_blowup_factor(blowup_factor);
 
         if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+            >= num_bits_blowup_factor
+                .saturating_mul(fri_number_of_queries)
+                .saturating_add(grinding_factor as usize)
+                .saturating_sub(1)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
@@ -111,10 +114,11 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        let num_bits_blowup_factor = Self::num_bits_blowup_factor(blowup_factor);
 
         if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+            > (num_bits_blowup_factor.saturating_mul(fri_number_of_queries) / 2)
+                .saturating_add(grinding_factor as usize)
         {
             return Err(InsecureOptionError::SecurityBits);
         }
@@ -127,6 +131,14 @@ impl ProofOptions {
         })
     }
 
+    /// Bits of security each query contributes. A blowup factor of zero contributes none.
+    fn num_bits_blowup_factor(blowup_factor: u8) -> usize {
+        if blowup_factor == 0 {
+            return 0;
+        }
+        blowup_factor.trailing_zeros() as usize
+    }
+
     fn check_field_security<F: IsPrimeField>(
         security_target: u8,
     ) -> Result<(), InsecureOptionError> {
-- 
2.43.0


From 2b6a924692681b1a1d4a04d89503929ce1d1c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 4/9] fix: range-check columns are used only when the run has a
 range-check segment

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..8cb55e5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -620,7 +620,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From 0a2668c1a985314c353f13ffa367dbc9aab4752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 5/9] fix: the initial fp is pinned to the public input

---
 src/cairo/air.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 8cb55e5..6ee92fa 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -782,6 +782,7 @@ impl AIR for CairoAIR {
     ) -> BoundaryConstraints<Self::Field> {
         let initial_pc = BoundaryConstraint::new(MEM_A_TRACE_OFFSET, 0, self.pub_inputs.pc_init);
         let initial_ap = BoundaryConstraint::new(MEM_P_TRACE_OFFSET, 0, self.pub_inputs.ap_init);
+        let initial_fp = BoundaryConstraint::new(FRAME_FP, 0, self.pub_inputs.fp_init);
 
         let final_pc = BoundaryConstraint::new(
             MEM_A_TRACE_OFFSET,
@@ -839,6 +840,7 @@ impl AIR for CairoAIR {
         let constraints = vec![
             initial_pc,
             initial_ap,
+            initial_fp,
             final_pc,
             final_ap,
             permutation_final_constraint,
-- 
2.43.0


From 44c4528b2ecf36fe942f3923ff65ee01cbf2e290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 6/9] fix: truncated range-check bounds are a deserialization
 error

---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 6ee92fa..4fc6b2c 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -331,7 +331,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -352,7 +354,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From df946189f8e37af8fa7137b382ff26351300a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 7/9] fix: FRI decommitments without evaluations can be
 serialized

---
 src/starks/fri/fri_decommit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..e06235d 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,11 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = self
+            .layers_evaluations
+            .first()
+            .or(self.layers_evaluations_sym.first())
+            .map_or(0, |evaluation| evaluation.to_bytes_be().len());
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From 51271bb05ef9533093993a225ee4ae5eeaaaadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 8/9] fix: fill the memory holes below and between the cells of
 the public memory

The holes were taken to be above public_memory.len(), as if the public memory
were the first addresses. With an output segment, addresses that follow the
program were never filled, so that the sorted addresses had a gap, and output
cells which the run does not access were filled with a made-up value.
---
 src/cairo/execution_trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..a3e4183 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -71,7 +71,11 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    // The cells of the public memory are added to the memory argument on their own, wherever
+    // they are (the output segment does not follow the program), so they are no holes. Every
+    // other missing address is one.
+    let mut memory_holes = get_memory_holes(&address_cols, 0);
+    memory_holes.retain(|hole| !public_input.public_memory.contains_key(hole));
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From efdd2d82842698c805281086d2759de419338879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 9/9] fix: verifier divides the trace terms of the DEEP
 polynomial at the AIR's transition offsets

The prover divides by X - z*g^offset for every transition offset, the verifier
used the position of the row in the frame instead. For an AIR whose offsets are
not 0, 1, 2, ... every honest proof was rejected, and the checked relation was
not the one the proof claims.
---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index c36be24..31cfdc7 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -424,10 +424,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0

