From ed3050bac588b9394376bb12accdc011164e2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:27 +0000
Subject: [PATCH 01/10] fix: bind exponentiation result columns to the
 evaluations the GKR reduction starts from

The verifier checked that the prover-sent exp_evals equal base^bits, but never
that the exp_result oracle evaluates to them, so a prover could commit arbitrary
result columns. Add the evaluation claims on the result oracles.
---
 crates/core/src/constraint_system/exp.rs    | 19 +++++++++++++++++--
 crates/core/src/constraint_system/prove.rs  | 10 ++++++----
 crates/core/src/constraint_system/verify.rs |  2 +-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/constraint_system/exp.rs b/crates/core/src/constraint_system/exp.rs
index b63dc73..ff0112a 100644
--- a/crates/core/src/constraint_system/exp.rs
+++ b/crates/core/src/constraint_system/exp.rs
@@ -1,6 +1,6 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::cmp::Reverse;
+use std::{cmp::Reverse, iter};
 
 use binius_field::{
 	ExtensionField, Field, PackedExtension, PackedField, RepackedExtension, TowerField,
@@ -148,8 +148,14 @@ where
 		.map_err(Error::from)
 }
 
+/// Constructs the evalcheck claims that remain after the exponentiation reduction.
+///
+/// Besides the claims on the exponent bits and the dynamic bases that GKR reduces to, this includes
+/// the claims that the exponentiation result columns evaluate to the values the reduction started
+/// from.
 pub fn make_eval_claims<F: TowerField>(
 	exponents: &[Exp<F>],
+	exp_claims: &[ExpClaim<F>],
 	base_exp_output: BaseExpReductionOutput<F>,
 ) -> Result<Vec<EvalcheckMultilinearClaim<F>>, Error> {
 	let dynamic_base_ids = exponents
@@ -165,7 +171,16 @@ pub fn make_eval_claims<F: TowerField>(
 		.map(|exp| exp.bits_ids.clone())
 		.collect::<Vec<_>>();
 
-	gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids).map_err(Error::from)
+	let result_claims =
+		iter::zip(exponents, exp_claims).map(|(exp, claim)| EvalcheckMultilinearClaim {
+			id: exp.exp_result_id,
+			eval_point: claim.eval_point.clone().into(),
+			eval: claim.eval,
+		});
+
+	let mut eval_claims = gkr_exp::make_eval_claims(metas, base_exp_output, dynamic_base_ids)?;
+	eval_claims.extend(result_claims);
+	Ok(eval_claims)
 }
 
 #[instrument(skip_all, name = "exp::repack_witness")]
diff --git a/crates/core/src/constraint_system/prove.rs b/crates/core/src/constraint_system/prove.rs
index a9c873b..d27d417 100644
--- a/crates/core/src/constraint_system/prove.rs
+++ b/crates/core/src/constraint_system/prove.rs
@@ -254,22 +254,24 @@ where
 		.map(|x| x.into())
 		.collect::<Vec<_>>();
 
-	let exp_claims = exp::make_claims(&exponents, &oracles, &exp_challenge, &exp_evals)?
-		.into_iter()
+	let exp_claims = exp::make_claims(&exponents, &oracles, &exp_challenge, &exp_evals)?;
+	let fast_exp_claims = exp_claims
+		.iter()
+		.cloned()
 		.map(|claim| claim.isomorphic())
 		.collect::<Vec<_>>();
 
 	let base_exp_output = gkr_exp::batch_prove::<_, _, FFastExt<Tower>, _, _>(
 		EvaluationOrder::HighToLow,
 		exp_witnesses,
-		&exp_claims,
+		&fast_exp_claims,
 		fast_domain_factory.clone(),
 		&mut transcript,
 		backend,
 	)?
 	.isomorphic();
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let exp_eval_claims = exp::make_eval_claims(&exponents, &exp_claims, base_exp_output)?;
 	emit_max_rss();
 	drop(exp_span);
 
diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 4217533..8c8f902 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -146,7 +146,7 @@ where
 	let base_exp_output =
 		gkr_exp::batch_verify(EvaluationOrder::HighToLow, &exp_claims, &mut transcript)?;
 
-	let exp_eval_claims = exp::make_eval_claims(&exponents, base_exp_output)?;
+	let exp_eval_claims = exp::make_eval_claims(&exponents, &exp_claims, base_exp_output)?;
 
 	// Grand product arguments
 	// Grand products for non-zero checks
-- 
2.43.0


From 5942d25e6e9ec594e6144210c9e78362ce7b2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:09 +0000
Subject: [PATCH 02/10] fix: check the balance of channels that only have
 boundary values

A channel whose flushes all belong to empty tables (the prover picks table sizes)
was skipped, so unbalanced boundary values on it were accepted.
---
 crates/core/src/constraint_system/verify.rs | 29 ++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/constraint_system/verify.rs b/crates/core/src/constraint_system/verify.rs
index 8c8f902..f662d9e 100644
--- a/crates/core/src/constraint_system/verify.rs
+++ b/crates/core/src/constraint_system/verify.rs
@@ -1,6 +1,9 @@
 // Copyright 2024-2025 Irreducible Inc.
 
-use std::collections::hash_map::Entry;
+use std::{
+	collections::{BTreeSet, hash_map::Entry},
+	iter,
+};
 
 use binius_field::{
 	BinaryField, PackedField, TowerField,
@@ -316,12 +319,20 @@ fn verify_channels_balance<F: TowerField>(
 		return Err(VerificationError::IncorrectNumberOfFlushProducts.into());
 	}
 
-	let mut flush_iter = flushes
-		.iter()
-		.zip(flush_products.iter().copied())
-		.peekable();
-	while let Some((flush, _)) = flush_iter.peek() {
-		let channel_id = flush.channel_id;
+	// A channel may have boundary values but no flushes, e.g. if all tables flushing to it are empty.
+	// Such a channel must be balanced too.
+	let channel_ids = chain!(
+		flushes.iter().map(|flush| flush.channel_id),
+		boundaries.iter().map(|boundary| boundary.channel_id),
+	)
+	.collect::<BTreeSet<_>>();
+	for channel_id in channel_ids {
+		if channel_id >= permutation_challenges.len() {
+			return Err(Error::ChannelIdOutOfRange {
+				max: permutation_challenges.len().saturating_sub(1),
+				got: channel_id,
+			});
+		}
 
 		let boundary_products =
 			boundaries
@@ -359,8 +370,8 @@ fn verify_channels_balance<F: TowerField>(
 					(pull_product, push_product)
 				});
 
-		let (pull_product, push_product) = flush_iter
-			.peeking_take_while(|(flush, _)| flush.channel_id == channel_id)
+		let (pull_product, push_product) = iter::zip(flushes, flush_products.iter().copied())
+			.filter(|(flush, _)| flush.channel_id == channel_id)
 			.fold(boundary_products, |(pull_product, push_product), (flush, flush_product)| {
 				let flush_product_with_multiplicity =
 					flush_product.pow_vartime([flush.multiplicity]);
-- 
2.43.0


From f1d421805b1ba44a266203853a617c6f7261e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:02 +0000
Subject: [PATCH 03/10] fix: reject out-of-range duplicate claim indices in
 evalcheck instead of panicking

---
 crates/core/src/protocols/evalcheck/verify.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..5eeda05 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -327,14 +327,13 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		let subproof = deserialize_evalcheck_proof(&mut transcript.message())?;
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
-				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
+				// The index is provided by the prover, so it may be out of range.
+				match self.round_claims.get(index as usize) {
+					Some(claim) if claim.id == oracle_id && claim.eval_point == eval_point => {
+						Ok(claim.eval)
+					}
+					_ => Err(VerificationError::DuplicateClaimMismatch.into()),
 				}
-
-				Ok(self.round_claims[index].eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From b999d76576c8e416e63190a48a0b94613d0d1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:59 +0000
Subject: [PATCH 04/10] fix: constrain the borrow bits of the WideSub gadget

---
 crates/m3/src/gadgets/sub.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..9536737 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -197,6 +197,16 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 			}
 		});
 
+		// Check that the equation holds at every bit:
+		//
+		//     (bin + (1 - xin)) * (bin + yin) + bin = bout
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow_out[{bit}]"),
+				(bin[bit] + (xin[bit] - B1::ONE)) * (bin[bit] + yin[bit]) + bin[bit] - bout[bit],
+			);
+		}
+
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
 		let zout = if flags.commit_zout {
-- 
2.43.0


From c902103f054dd6c11d6b86f8694960865c9b1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:59 +0000
Subject: [PATCH 05/10] fix: pin the carry-in of the WideAdd gadget to zero
 when none is given

---
 crates/m3/src/gadgets/add.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..cd9cdd6 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
-- 
2.43.0


From 1b56c4b5328c1705cbeedd9740d4a5b671452d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:59 +0000
Subject: [PATCH 06/10] fix: accept a zero remainder of a negative dividend in
 DivSS32

---
 crates/m3/src/gadgets/div.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..3748f3a 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_col},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check that sign(p) == sign(r), unless r is zero
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			out_rem * (upcast_col(p_in_bits[31]) - upcast_col(out_rem_bits[31])),
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 1f0a826a1a0e95ea4658fe791ae1ffa9544b2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:41 +0000
Subject: [PATCH 07/10] fix: a reused odd power in ArithCircuitPoly evaluates
 to its full value

The step registered for a Pow node was the last squaring, not the
multiplication that follows it when the lowest exponent bit is set, so the
second use of x^3 evaluated to x^2.
---
 crates/fast_compute/src/arith_circuit.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..ab9eac6 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -106,9 +106,6 @@ fn convert_circuit_steps<F: Field>(
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -118,6 +115,12 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
+				// The value of the power is in the slot of the last step pushed, which is a
+				// multiplication if the lowest bit of the exponent is set.
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
+
 				acc
 			}
 		}
-- 
2.43.0


From 29ccb712e4921a1c0bc252373d94b016935c0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 08/10] fix: ArithCircuitPoly accumulates in place only into a
 slot nothing else refers to

a * (a + b * c) with a shared non-variable a overwrote the slot of a that
the outer product had already captured, and evaluated to (a + b * c)^2.
---
 crates/fast_compute/src/arith_circuit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index ab9eac6..b3b4def 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -66,10 +66,19 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
+				let first_own_step = result.len();
 				let left = convert_step(*left, original_steps, result, node_to_step);
 
 				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
-					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
+					let mul_step = match &original_steps[*right] {
+						// The slot of `left` is overwritten, so it must not be one that is already
+						// referenced by a step which is evaluated later.
+						ArithCircuitStep::Mul(mleft, mright) if left >= first_own_step => {
+							Some((mleft, mright))
+						}
+						_ => None,
+					};
+					if let Some((mleft, mright)) = mul_step {
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
-- 
2.43.0


From 1fe4070547feaa52d5d16b72c09a86c358189056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 09/10] fix: zeroth powers are the constant one instead of a
 panic

Compiling an expression with x^0 for evaluation, or asking for its cost,
panicked in ilog2 although evaluate() and the linear normal form give one.
---
 crates/math/src/arith_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..c38ee19 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -324,7 +324,7 @@ impl<F: Field> ArithCircuit<F> {
 				// 1. log2(e) squarings.
 				// 1. popcount(e) - 1 multiplications.
 				ArithCircuitStep::Pow(_, exp) => {
-					let n_squares = exp.ilog2() as usize;
+					let n_squares = exp.checked_ilog2().unwrap_or(0) as usize;
 					let n_muls = exp.count_ones().saturating_sub(1) as usize;
 					acc + EvalCost::mul(n_muls) + EvalCost::square(n_squares)
 				}
@@ -581,6 +581,9 @@ impl<F: Field> ArithCircuit<F> {
 						_ => {}
 					}
 				}
+				ArithCircuitStep::Pow(_, 0) => {
+					*curr_step = ArithCircuitStep::Const(F::ONE);
+				}
 				ArithCircuitStep::Pow(base, exp) => match prev_steps[*base] {
 					ArithCircuitStep::Const(value) => {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
-- 
2.43.0


From eec1365d32f1c6c5edd1c334943a3579a8bec703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 10/10] fix: nested powers are only merged if the product of
 the exponents fits

Constant folding multiplied the exponents of nested powers without checking
for overflow: a wrapped exponent in release builds, a panic in debug builds.
---
 crates/math/src/arith_expr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c38ee19..b6bb442 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -589,7 +589,9 @@ impl<F: Field> ArithCircuit<F> {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
 					}
 					ArithCircuitStep::Pow(base_inner, exp_inner) => {
-						*curr_step = ArithCircuitStep::Pow(base_inner, *exp * exp_inner);
+						if let Some(exp) = exp.checked_mul(exp_inner) {
+							*curr_step = ArithCircuitStep::Pow(base_inner, exp);
+						}
 					}
 					_ => {}
 				},
-- 
2.43.0

