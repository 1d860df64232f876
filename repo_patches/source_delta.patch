From 06081b004143a4b8934321dbdf0845b017912c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:23 +0000
Subject: [PATCH 01/14] fix: only combine product constraints using independent
 range constraints

Replacing `x * a = 0` and `x * b = 0` by `x * (a + b) = 0` relies on `a` and
`b` being non-negative. The range constraints used could be consequences of
the constraints that are removed, for example for `(x - 1) * x = 0` or for
`(x - 1) * y = 0` with a range check on `y` conditional on `x`, and then the
replacement admitted new solutions. Use only range constraints that follow
from a single other constraint.
---
 .../src/rule_based_optimizer/driver.rs        | 24 +++++++++++++++++-
 .../src/rule_based_optimizer/environment.rs   | 25 +++++++++++++++++++
 .../src/rule_based_optimizer/rules.rs         |  3 +++
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/constraint-solver/src/rule_based_optimizer/driver.rs b/constraint-solver/src/rule_based_optimizer/driver.rs
index ef2975e..be90961 100644
--- a/constraint-solver/src/rule_based_optimizer/driver.rs
+++ b/constraint-solver/src/rule_based_optimizer/driver.rs
@@ -12,7 +12,8 @@ use crate::{
     constraint_system::{
         BusInteraction, BusInteractionHandler, ComputationMethod, ConstraintSystem, DerivedVariable,
     },
-    grouped_expression::{GroupedExpression, RangeConstraintProvider},
+    effect::Effect,
+    grouped_expression::{GroupedExpression, NoRangeConstraints, RangeConstraintProvider},
     indexed_constraint_system::IndexedConstraintSystem,
     inliner::DegreeBound,
     rule_based_optimizer::{
@@ -84,6 +85,26 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
             .copied()
             .collect::<HashSet<_>>();
 
+        // Range constraints that follow from a single constraint alone.
+        let independent_range_constraints = system
+            .bus_interactions()
+            .iter()
+            .flat_map(|b| b.solve(&bus_interaction_handler, &NoRangeConstraints))
+            .chain(
+                system
+                    .algebraic_constraints()
+                    .iter()
+                    .flat_map(|c| c.as_ref().solve(&NoRangeConstraints))
+                    .map(|result| result.effects),
+            )
+            .flatten()
+            .filter_map(|effect| match effect {
+                Effect::RangeConstraint(v, rc) => Some((var_mapper.id(&v), rc)),
+                _ => None,
+            })
+            .into_grouping_map()
+            .reduce(|rc1, _, rc2| rc1.conjunction(&rc2));
+
         // Create the "environment" singleton that can be used by the rules
         // to query information from the outside world.
         let env = Environment::<T>::new(
@@ -93,6 +114,7 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
                 .map(|(id, var)| (id, var.to_string()))
                 .collect(),
             single_occurrence_vars,
+            independent_range_constraints,
             // The NewVarGenerator will be used to generate fresh variables.
             // because of lifetime and determinism issues, we pass the next ID that
             // the var_mapper would use here and then re-create the
diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 660cb78..3ce37e8 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -10,6 +10,7 @@ use powdr_number::FieldElement;
 use crate::{
     constraint_system::ComputationMethod,
     grouped_expression::GroupedExpression,
+    range_constraint::RangeConstraint,
     rule_based_optimizer::{
         item_db::ItemDB,
         new_var_generator::NewVarGenerator,
@@ -30,6 +31,10 @@ pub struct Environment<T: FieldElement> {
     /// Variables that only occurr once in the system
     /// (also only once in the constraint they occur in).
     single_occurrence_variables: HashSet<Var>,
+
+    /// Range constraints on variables that each follow from a single bus interaction
+    /// or algebraic constraint alone.
+    independent_range_constraints: HashMap<Var, RangeConstraint<T>>,
     new_var_generator: RefCell<NewVarGenerator<T>>,
 }
 
@@ -68,12 +73,14 @@ impl<T: FieldElement> Environment<T> {
         expressions: ItemDB<GroupedExpression<T, Var>, Expr>,
         var_to_string: HashMap<Var, String>,
         single_occurrence_variables: HashSet<Var>,
+        independent_range_constraints: HashMap<Var, RangeConstraint<T>>,
         new_var_generator: NewVarGenerator<T>,
     ) -> Self {
         Self {
             expressions: RefCell::new(expressions),
             var_to_string,
             single_occurrence_variables,
+            independent_range_constraints,
             new_var_generator: RefCell::new(new_var_generator),
         }
     }
@@ -149,6 +156,24 @@ impl<T: FieldElement> Environment<T> {
         Some((*coeff, *var, *expr.constant_offset()))
     }
 
+    /// Returns true if `a` and `b` are non-negative and their sum does not wrap, and this
+    /// follows from the system without using the constraints `x * a = 0` and `x * b = 0`.
+    pub fn non_negative_independently_of(&self, x: Expr, a: Expr, b: Expr) -> bool {
+        let db = self.expressions.borrow();
+        let x_vars = db[x].referenced_unknown_variables().collect::<HashSet<_>>();
+        let [rc_a, rc_b] =
+            [a, b].map(|e| db[e].range_constraint(&self.independent_range_constraints));
+        let mut vars = [a, b]
+            .into_iter()
+            .flat_map(|e| db[e].referenced_unknown_variables());
+        rc_a.range().0.is_zero()
+            && rc_b.range().0.is_zero()
+            && !rc_a.combine_sum(&rc_b).is_unconstrained()
+            // If the two factors of a product share a variable, then its range constraint
+            // could be a consequence of the product.
+            && !vars.any(|v| x_vars.contains(v))
+    }
+
     pub fn try_to_number(&self, expr: Expr) -> Option<T> {
         let db = self.expressions.borrow();
         let expr = &db[expr];
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b4a0752..1fc038e 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -541,6 +541,8 @@ crepe! {
     // If we have `x * a = 0` and `x * b = 0` and `a` and `b` are
     // both non-negative and their sum is constrained, then we can replace
     // both constraints by `x * (a + b) = 0`.
+    // The range constraints on `a` and `b` must not be consequences of the constraints
+    // we remove, as it is for example the case in `(x - 1) * x = 0`.
     ReplaceAlgebraicConstraintsBy(extend_by_none([e1, e2]), replacement) <-
       Env(env),
       ProductConstraint(e1, x, a),
@@ -550,6 +552,7 @@ crepe! {
       RangeConstraintOnExpression(b, rc_b),
       (rc_a.range().0 == T::zero()
         && rc_b.range().0 == T::zero() && !rc_a.combine_sum(&rc_b).is_unconstrained()),
+      (env.non_negative_independently_of(x, a, b)),
       let replacement = extend_by_none([env.insert_owned(env.extract(x) * (env.extract(a) + env.extract(b)))]);
 
     //////////////////////// AFFINE SOLVING //////////////////////////
-- 
2.43.0


From 72227996eb53d13439834ce27cdbeeb4b4379593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:23 +0000
Subject: [PATCH 02/14] fix: integer overflow in the no-wrap zero sum rule

The sum of two upper bounds does not fit the integer type of a 64-bit field.
---
 constraint-solver/src/rule_based_optimizer/rules.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index 1fc038e..66af740 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -586,7 +586,8 @@ crepe! {
       RangeConstraintOnExpression(tail, rc_tail),
       (rc_head.range().0 == T::from(0)),
       (rc_tail.range().0 == T::from(0)),
-      (rc_head.range().1.to_integer() + rc_tail.range().1.to_integer() < T::from(-1).to_integer());
+      // Subtract on the right because the sum might overflow the integer type.
+      (rc_head.range().1.to_integer() < T::from(-1).to_integer() - rc_tail.range().1.to_integer());
 
     EqualZero(head) <- EntailsZeroHeadAndTail(head,_);
     EqualZero(tail) <- EntailsZeroHeadAndTail(_, tail);
-- 
2.43.0


From 628774586c7a789fa0e262047375f99590931a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:37 +0000
Subject: [PATCH 03/14] fix: display the canonical value of plonky3 field
 elements

---
 number/src/plonky3_macros.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 0b0169f..e5166cd 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -33,7 +33,6 @@ macro_rules! powdr_field_plonky3 {
             PartialOrd,
             Serialize,
             Deserialize,
-            derive_more::Display,
         )]
         // Serialize/deserialize through canonical u32 so the on-disk format
         // does not depend on the inner plonky3 type's internal representation
@@ -128,6 +127,13 @@ macro_rules! powdr_field_plonky3 {
             }
         }
 
+        impl fmt::Display for $name {
+            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+                // The inner type might not be in canonical form (Mersenne31 has two zeros).
+                fmt::Display::fmt(&self.to_canonical_u32(), f)
+            }
+        }
+
         impl LowerHex for $name {
             fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
                 LowerHex::fmt(&self.to_canonical_u32(), f)
-- 
2.43.0


From 3d7fb2d3d705a61d573ac0c5e0a961cdf24184c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:37 +0000
Subject: [PATCH 04/14] fix: reject numbers that are too large when parsing
 plonky3 field elements

---
 number/src/plonky3_macros.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index e5166cd..eb1914b 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -99,9 +99,12 @@ macro_rules! powdr_field_plonky3 {
             }
 
             fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
-                u32::from_str_radix(s, radix)
-                    .map(Self::from_canonical_u32)
-                    .map_err(|e| e.to_string())
+                let n = u32::from_str_radix(s, radix).map_err(|e| e.to_string())?;
+                if Self::Integer::from(n) < Self::modulus() {
+                    Ok(Self::from_canonical_u32(n))
+                } else {
+                    Err(format!("Number \"{s}\" too large for field."))
+                }
             }
 
             fn checked_from(value: ibig::UBig) -> Option<Self> {
-- 
2.43.0


From 1c9478599d15e72e4bc4f8649a26b602aa5c1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:26 +0000
Subject: [PATCH 05/14] fix: the variable range checker supports at most 25
 bits

---
 openvm-bus-interaction-handler/src/lib.rs     |  6 ++++--
 .../src/variable_range_checker.rs             | 20 +++++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/openvm-bus-interaction-handler/src/lib.rs b/openvm-bus-interaction-handler/src/lib.rs
index 7d8e162..922f683 100644
--- a/openvm-bus-interaction-handler/src/lib.rs
+++ b/openvm-bus-interaction-handler/src/lib.rs
@@ -24,7 +24,7 @@ use crate::{
     bitwise_lookup::bitwise_lookup_pure_range_constraints,
     bus_map::{default_openvm_bus_map, BusMap, OpenVmBusType},
     tuple_range_checker::TupleRangeCheckerHandler,
-    variable_range_checker::variable_range_checker_pure_range_constraints,
+    variable_range_checker::{variable_range_checker_pure_range_constraints, MAX_BITS},
 };
 
 mod bitwise_lookup;
@@ -246,7 +246,9 @@ impl<T: FieldElement> RangeConstraintHandler<T> for OpenVmBusInteractionHandler<
                 // Use the variable range checker to range-check expressions:
                 // See: https://github.com/openvm-org/openvm/blob/v1.0.0/crates/circuits/primitives/src/var_range/bus.rs
                 // Expects (x, bits), where `x` is in the range [0, 2^bits - 1]
-                let Some(num_bits) = range_constraint_to_num_bits(&rc) else {
+                let Some(num_bits) = range_constraint_to_num_bits(&rc)
+                    .filter(|num_bits| *num_bits as u64 <= MAX_BITS)
+                else {
                     return Err(MakeRangeConstraintsError(format!(
                         "Failed to get number of bits from range constraint: {rc:?}"
                     )));
diff --git a/openvm-bus-interaction-handler/src/variable_range_checker.rs b/openvm-bus-interaction-handler/src/variable_range_checker.rs
index 7b687d8..9d2df1b 100644
--- a/openvm-bus-interaction-handler/src/variable_range_checker.rs
+++ b/openvm-bus-interaction-handler/src/variable_range_checker.rs
@@ -6,7 +6,7 @@ use powdr_number::{FieldElement, LargeInt};
 
 /// The maximum number of bits that can be checked by the variable range checker.
 // TODO: This should be configurable
-const MAX_BITS: u64 = 25;
+pub const MAX_BITS: u64 = 25;
 
 /// Implements [BusInteractionHandler::handle_bus_interaction] for the variable range checker bus,
 /// tightening the currently known range constraints.
@@ -41,13 +41,17 @@ pub fn variable_range_checker_pure_range_constraints<T: FieldElement, V: Ord + C
     let [x, bits] = payload else {
         panic!("Expected arguments (x, bits)");
     };
-    bits.try_to_number().map(|bits| {
-        [(
-            x.clone(),
-            RangeConstraint::from_mask((1u64 << bits.to_degree()) - 1),
-        )]
-        .into()
-    })
+    // Interactions with more bits than supported are never satisfied, so they
+    // are not equivalent to a range constraint.
+    bits.try_to_number()
+        .filter(|bits| *bits <= T::from(MAX_BITS))
+        .map(|bits| {
+            [(
+                x.clone(),
+                RangeConstraint::from_mask((1u64 << bits.to_degree()) - 1),
+            )]
+            .into()
+        })
 }
 
 #[cfg(test)]
-- 
2.43.0


From c3049118ecd205dc243592dfdf54f1b316a73b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:29 +0000
Subject: [PATCH 06/14] fix: a lookup is only free if its field can take every
 value

remove_free_variables removed lookups such as [foo * bar + 1] in [...] with
free foo, although for bar = 0 the field cannot be chosen.
---
 autoprecompiles/src/constraint_optimizer.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 47347ad..f572f2e 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -288,7 +288,7 @@ fn try_replace_by_number<T: FieldElement, V: Clone + Ord + Hash + Display>(
 /// Motivation: Suppose there is a constraint `2 * foo = bar` and `foo` only appears in this constraint.
 /// Then, if we assume that all constraints are satisfiable, the prover would be able to satisfy it for
 /// any value of `bar` by solving for `foo`. Therefore, the constraint can be removed.
-/// The same would be true for a *stateless* bus interaction, e.g. `[foo * bar] in [BYTES]`.
+/// The same would be true for a *stateless* bus interaction, e.g. `[foo + bar] in [BYTES]`.
 ///
 /// This function removes *some* constraints like this (see TODOs below).
 fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
@@ -334,14 +334,19 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                     .filter(|field| field.try_to_number().is_none())
                     .count()
                     == 1;
-                // If the expression is linear in the free variable, the prover would be able to solve for it
-                // to satisfy the constraint. Otherwise, this is not necessarily the case.
-                // Note that if the above check is true, there will only be one field of degree > 0.
-                let all_degrees_at_most_one = bus_interaction
+                // If we can solve for the free variable, the prover can choose any value for that field.
+                // Note that being linear in the free variable is not enough, because its coefficient
+                // could be zero (e.g. `foo` is not free in `[foo * bar + 1] in [ONE_TO_TEN]` if `bar = 0`).
+                let can_choose_unknown_field = bus_interaction
                     .payload
                     .iter()
-                    .all(|field| field.degree_of_variable(variable) <= 1);
-                is_stateless && has_one_unknown_field && all_degrees_at_most_one
+                    .filter(|field| field.try_to_number().is_none())
+                    .all(|field| {
+                        AlgebraicConstraint::from(field)
+                            .try_solve_for(variable)
+                            .is_some()
+                    });
+                is_stateless && has_one_unknown_field && can_choose_unknown_field
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From c39fe728a58e5b1e2b64b9213ab437db844cc1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:29 +0000
Subject: [PATCH 07/14] fix: filtering empirical constraints twice keeps the
 selected columns

---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From 331b90ab39db3a79fc718a19f8ba1a967cba4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 08/14] fix: exported precompiles can be read back

The flattened precompile contains maps with integer keys (program counters of
range and equivalence constraints), which serde cannot read through
`#[serde(flatten)]`, so every export with such constraints failed to load.
---
 autoprecompiles/src/export.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/autoprecompiles/src/export.rs b/autoprecompiles/src/export.rs
index 775e576..2849fc7 100644
--- a/autoprecompiles/src/export.rs
+++ b/autoprecompiles/src/export.rs
@@ -7,7 +7,10 @@ use std::{
 use itertools::Itertools;
 use powdr_constraint_solver::constraint_system::ConstraintSystem;
 use powdr_number::FieldElement;
-use serde::{Deserialize, Serialize};
+use serde::{
+    de::{DeserializeOwned, Error},
+    Deserialize, Deserializer, Serialize,
+};
 
 use crate::{
     adapter::{Adapter, AdapterApcOverPowdrField, AdapterOptimisticConstraints},
@@ -268,9 +271,23 @@ impl<T> PcStep for SimpleInstruction<T> {
     }
 }
 
-#[derive(Serialize, Deserialize)]
+#[derive(Serialize)]
 pub struct ApcWithBusMap<Apc, BusMap> {
     #[serde(flatten)]
     pub apc: Apc,
     pub bus_map: BusMap,
 }
+
+/// Not derived, because `#[serde(flatten)]` cannot read maps with integer keys,
+/// which are part of the optimistic constraints.
+impl<'de, Apc: DeserializeOwned, BusMap: DeserializeOwned> Deserialize<'de>
+    for ApcWithBusMap<Apc, BusMap>
+{
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let value = serde_json::Value::deserialize(deserializer)?;
+        Ok(Self {
+            apc: Apc::deserialize(&value).map_err(D::Error::custom)?,
+            bus_map: BusMap::deserialize(&value["bus_map"]).map_err(D::Error::custom)?,
+        })
+    }
+}
-- 
2.43.0


From 416729e519146d1b0f6ce074675835cd408fd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:26 +0000
Subject: [PATCH 09/14] fix: overflow for jumps and branches around address
 2^31

The target was computed with a checked signed addition.
---
 riscv-elf/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index dc177e3..cf66d07 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -983,7 +983,7 @@ impl TwoOrOneMapper<MaybeInstruction, HighLevelInsn> for InstructionLifter<'_> {
         let mut imm = match insn.opc {
             // All jump instructions that have an address as immediate
             Op::JAL | Op::BEQ | Op::BNE | Op::BLT | Op::BGE | Op::BLTU | Op::BGEU => {
-                let addr = (insn.imm.unwrap() + loc.address as i32) as u32;
+                let addr = insn.imm.unwrap().wrapping_add(loc.address as i32) as u32;
                 if let ReadOrWrite::Write(refs) = &mut self.referenced_text_addrs {
                     refs.insert(addr);
                 }
-- 
2.43.0


From 49b4152b76e55862511e7765eb3af7224fe968e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:43 +0000
Subject: [PATCH 10/14] fix: destination register of `la` from AUIPC and ADDI

The address ends up in the register of the ADDI, which need not be the one
of the AUIPC.
---
 riscv-elf/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index cf66d07..f0aa4ac 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -761,7 +761,7 @@ impl InstructionLifter<'_> {
         Some((
             op,
             HighLevelArgs {
-                rd: Some(rd_ui as u32),
+                rd: Some(rd_addi as u32),
                 imm,
                 ..Default::default()
             },
-- 
2.43.0


From 246e1b012b51df8bfcee840a6ed4505efe1b3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:43 +0000
Subject: [PATCH 11/14] fix: do not join instructions if there is a jump to the
 second

A known system call and a load from a constant address were joined even if
the ECALL or load is the target of a jump, which then has no statement.
---
 riscv-elf/src/lib.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/riscv-elf/src/lib.rs b/riscv-elf/src/lib.rs
index f0aa4ac..12cf5db 100644
--- a/riscv-elf/src/lib.rs
+++ b/riscv-elf/src/lib.rs
@@ -720,6 +720,15 @@ struct InstructionLifter<'a> {
 }
 
 impl InstructionLifter<'_> {
+    /// Whether there is a reference to the given address. Only known after all
+    /// the references have been collected.
+    fn is_referenced(&self, addr: u32) -> bool {
+        match &self.referenced_text_addrs {
+            ReadOrWrite::Read(referenced_text_addrs) => referenced_text_addrs.contains(&addr),
+            ReadOrWrite::Write(_) => false,
+        }
+    }
+
     fn composed_immediate(
         &self,
         hi: i32,
@@ -743,12 +752,10 @@ impl InstructionLifter<'_> {
             // and it has worked so far.
             ("la", HighLevelImmediate::CodeLabel(immediate as u32))
         } else if rd_ui == rd_addi {
-            if let ReadOrWrite::Read(referenced_text_addrs) = &self.referenced_text_addrs {
-                if referenced_text_addrs.contains(&insn2_addr) {
-                    // We can't join the two instructions because there is a
-                    // jump to the second. Let each one be handled separately.
-                    return None;
-                }
+            if self.is_referenced(insn2_addr) {
+                // We can't join the two instructions because there is a
+                // jump to the second. Let each one be handled separately.
+                return None;
             }
             ("li", HighLevelImmediate::Value(immediate))
         } else {
@@ -825,7 +832,7 @@ impl TwoOrOneMapper<MaybeInstruction, HighLevelInsn> for InstructionLifter<'_> {
                     ..
                 },
                 Ins { opc: Op::ECALL, .. },
-            ) => {
+            ) if !self.is_referenced(insn2_addr) => {
                 // If this is not a know system call, we just let the executor deal with the problem.
                 let syscall = u8::try_from(*opcode)
                     .ok()
@@ -882,6 +889,12 @@ impl TwoOrOneMapper<MaybeInstruction, HighLevelInsn> for InstructionLifter<'_> {
                         let addr = hi.wrapping_add(*lo);
                         assert!(!self.address_map.is_in_text_section(addr as u32));
 
+                        if self.is_referenced(insn2_addr) {
+                            // There is a jump to the load, so each instruction
+                            // must be handled separately.
+                            return None;
+                        }
+
                         HighLevelInsn {
                             op: l_op.to_string(),
                             args: HighLevelArgs {
-- 
2.43.0


From 6ff5c7daad185fb730babb68c1fd55633bca8fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:43 +0000
Subject: [PATCH 12/14] fix: drop source locations outside of the text sections

Locations after the last text section, or in a data segment, were kept or
led to a panic.
---
 riscv-elf/src/debug_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riscv-elf/src/debug_info.rs b/riscv-elf/src/debug_info.rs
index 0e0acff..6ff2a8c 100644
--- a/riscv-elf/src/debug_info.rs
+++ b/riscv-elf/src/debug_info.rs
@@ -402,7 +402,8 @@ fn filter_locations_in_text(locations: &mut Vec<SourceLocationInfo>, address_map
     locations.sort_unstable_by_key(|loc| loc.address);
 
     let mut done_idx = 0;
-    for (&start_addr, &header) in address_map.0.iter() {
+    let text_sections = address_map.0.iter().filter(|(_, h)| h.is_executable());
+    for (&start_addr, &header) in text_sections {
         // Remove all entries that are in between done and the start address.
         let start_idx = find_first_idx(&locations[done_idx..], start_addr) + done_idx;
         locations.drain(done_idx..start_idx);
@@ -411,6 +412,9 @@ fn filter_locations_in_text(locations: &mut Vec<SourceLocationInfo>, address_map
         let end_addr = start_addr + header.p_memsz as u32;
         done_idx += find_first_idx(&locations[done_idx..], end_addr);
     }
+
+    // Remove all entries after the last text section.
+    locations.truncate(done_idx);
 }
 
 fn find_first_idx(slice: &[SourceLocationInfo], addr: u32) -> usize {
-- 
2.43.0


From 9e16da3ab26619473e5a34d1d657250fbabcfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:43 +0000
Subject: [PATCH 13/14] fix: source file numbers of DWARF 5

The files of a line program are indexed from 0 since version 5, so that
every location was attributed to the file before its own.
---
 riscv-elf/src/debug_info.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riscv-elf/src/debug_info.rs b/riscv-elf/src/debug_info.rs
index 6ff2a8c..858298e 100644
--- a/riscv-elf/src/debug_info.rs
+++ b/riscv-elf/src/debug_info.rs
@@ -128,8 +128,14 @@ fn read_source_locations(
             .transpose()?
             .unwrap_or(""),
     );
-    let file_idx_delta = file_list.len() as u64;
+    let mut file_idx_delta = file_list.len() as u64;
     if let Some(line_program) = unit.line_program.clone() {
+        // In our file list, files are indexed from 1, like in DWARF up to
+        // version 4. Since version 5 they are indexed from 0.
+        if line_program.header().version() >= 5 {
+            file_idx_delta += 1;
+        }
+
         // Get the source file listing
         for file_entry in line_program.header().file_names() {
             let directory = file_entry
-- 
2.43.0


From c576a84f2bb41e0948b1003421414c2fec0bd4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:43 +0000
Subject: [PATCH 14/14] fix: targets of AUIPC and JALR pairs

The pair is given by the source register of the JALR, the target is
relative to the AUIPC, and JALR clears the lowest bit.
---
 riscv-elf/src/rv64.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/riscv-elf/src/rv64.rs b/riscv-elf/src/rv64.rs
index 1800866..4c4e687 100644
--- a/riscv-elf/src/rv64.rs
+++ b/riscv-elf/src/rv64.rs
@@ -136,13 +136,13 @@ fn scan_for_jump_targets(
                 .decode(Isa::Rv64)
                 .expect("Failed to decode instruction")
         })
-        // Remember the `rs1` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
+        // Remember the `rd` and `imm` of the previous instruction if it was AUIPC, used to propagate it to the next JALR
         .scan(None, |previous_if_auipc, insn| {
-            let previous_auipc_rs1 = std::mem::replace(
+            let previous_auipc_rd = std::mem::replace(
                 previous_if_auipc,
-                matches!(insn.opc, Op::AUIPC).then_some((insn.rs1, insn.imm)),
+                matches!(insn.opc, Op::AUIPC).then_some((insn.rd, insn.imm)),
             );
-            Some((insn, previous_auipc_rs1))
+            Some((insn, previous_auipc_rd))
         })
         .enumerate()
         .for_each(|(instruction_index, (insn, previous_if_auipc))| {
@@ -205,13 +205,18 @@ fn scan_for_jump_targets(
                     }
                 }
                 Op::JALR => {
-                    if let Some((rs1, imm)) = previous_if_auipc {
-                        // JALR with a preceding AUIPC
-                        if insn.rd == rs1 {
+                    if let Some((auipc_rd, imm)) = previous_if_auipc {
+                        // JALR with a preceding AUIPC (writing to `x0` has no effect)
+                        if insn.rs1 == auipc_rd && insn.rs1 != Some(0) {
                             // This is an AUIPC+JALR pair, we can resolve it statically
                             if let (Some(auipc_imm), Some(jalr_imm)) = (imm, insn.imm) {
-                                let target =
-                                    (addr as i64 + auipc_imm as i64 + jalr_imm as i64) as u64;
+                                // The target is relative to the AUIPC, and JALR clears the lowest bit.
+                                let auipc_addr = addr - 4;
+                                let target = (auipc_addr as i64
+                                    + auipc_imm as i64
+                                    + jalr_imm as i64)
+                                    as u64
+                                    & !1;
                                 jumpdests.insert(target);
 
                                 // Track non-symbol jumpdests
-- 
2.43.0

