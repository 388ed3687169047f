From 10b15e8396ee1681834f807fee6c6d4bd69f9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 01/46] fix: integer division, remainder and abs wrap at the
 minimum integer instead of panicking

---
 src/std/math.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index c3704c0..aa284ee 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -516,7 +516,7 @@ pub fn add_to_module(to: &mut Module) {
             b(BinaryFn::new(Int::wrapping_sub)) as Function,
             b(BinaryFn::new(Int::wrapping_mul)) as Function,
             b(UnaryFn::new(Int::wrapping_neg)) as Function,
-            b(UnaryFn::new(Int::abs)) as Function,
+            b(UnaryFn::new(Int::wrapping_abs)) as Function,
             b(UnaryFn::new(Int::signum)) as Function,
             b(UnaryFn::new(identity::<Int>)) as Function,
         ],
@@ -567,7 +567,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(DivisionByZero)
                 } else {
-                    Ok(lhs / rhs)
+                    Ok(lhs.wrapping_div(rhs))
                 }
             },
             ["left", "right"],
@@ -582,7 +582,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(DivisionByZero)
                 } else {
-                    Ok(lhs.div_euclid(rhs))
+                    Ok(lhs.wrapping_div_euclid(rhs))
                 }
             },
             ["left", "right"],
@@ -597,7 +597,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(RemainderByZero)
                 } else {
-                    Ok(ops::Rem::rem(lhs, rhs))
+                    Ok(lhs.wrapping_rem(rhs))
                 }
             },
             ["left", "right"],
@@ -612,7 +612,7 @@ pub fn add_to_module(to: &mut Module) {
                 if rhs == 0 {
                     Err(RemainderByZero)
                 } else {
-                    Ok(lhs.rem_euclid(rhs))
+                    Ok(lhs.wrapping_rem_euclid(rhs))
                 }
             },
             ["left", "right"],
-- 
2.43.0


From 6887c9a442e5579524157d38b0720e399bd96caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 02/46] fix: a failing or leaving array element leaves an array
 that cleanup can drop

---
 src/emit_mir.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/emit_mir.rs b/src/emit_mir.rs
index a62e4a3..1e825fe 100644
--- a/src/emit_mir.rs
+++ b/src/emit_mir.rs
@@ -1131,6 +1131,20 @@ impl<'a> Emitter<'a> {
             )),
         ));
 
+        // Store the scalar header fields: a freshly built array is contiguous, so `capacity == N` and
+        // `start == 0`. The header is live before the first element is lowered, and `len` follows
+        // the elements, so that cleanup after a failing or leaving element drops exactly the elements
+        // that are complete.
+        self.store_int_field(
+            span,
+            &dest,
+            capacity_index,
+            fields[capacity_index].1,
+            len as isize,
+        );
+        self.store_int_field(span, &dest, start_index, fields[start_index].1, 0);
+        self.store_int_field(span, &dest, len_index, fields[len_index].1, 0);
+
         // Fill each slot in place: `buffer_slot(data, i)` yields the slot's place (an
         // `AddressorPlace` return), into which element `i` is lowered directly.
         if len > 0 {
@@ -1165,20 +1179,15 @@ impl<'a> Emitter<'a> {
                 ));
                 let slot = self.insert(Operation::load(span, slot_out)).unwrap();
                 self.lower_value_into(&self.hir_arena[*id], Some(slot));
+                self.store_int_field(
+                    span,
+                    &dest,
+                    len_index,
+                    fields[len_index].1,
+                    i as isize + 1,
+                );
             }
         }
-
-        // Store the scalar header fields: a freshly built array is contiguous and full, so
-        // `capacity == len == N` and `start == 0`.
-        self.store_int_field(
-            span,
-            &dest,
-            capacity_index,
-            fields[capacity_index].1,
-            len as isize,
-        );
-        self.store_int_field(span, &dest, len_index, fields[len_index].1, len as isize);
-        self.store_int_field(span, &dest, start_index, fields[start_index].1, 0);
     }
 
     /// Returns the `FunctionId` of the std-library function named `name`. Used to synthesize
-- 
2.43.0


From 795d32a7adee6bec6e02f7cc6c913be8a7e3d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 03/46] fix: a nested projection of a deferred type is copied
 when its value is needed

---
 src/types/type_inference/expr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 971d4c7..229703d 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -4819,7 +4819,8 @@ impl TypeInference {
         span: Location,
     ) -> NodeId {
         if let NodeKind::WithYielded(mut node) = env.ir_arena[value].kind.clone()
-            && node_is_place_reference(env.ir_arena, node.body)
+            && (node_is_place_reference(env.ir_arena, node.body)
+                || Self::node_is_scoped_place_value(env.ir_arena, node.body))
         {
             node.body = self.materialize_owned_value(env, node.body, span);
             let ty = env.ir_arena[value].ty;
@@ -4860,7 +4861,10 @@ impl TypeInference {
 
     fn node_is_scoped_place_value(arena: &NodeArena, node_id: NodeId) -> bool {
         match &arena[node_id].kind {
-            NodeKind::WithYielded(node) => node_is_place_reference(arena, node.body),
+            NodeKind::WithYielded(node) => {
+                node_is_place_reference(arena, node.body)
+                    || Self::node_is_scoped_place_value(arena, node.body)
+            }
             NodeKind::Block(block) => block
                 .tail_node()
                 .is_some_and(|node| Self::node_is_scoped_place_value(arena, node)),
-- 
2.43.0


From ef6ce5f0dc79d61c686c7d9081fa80bd7187a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 04/46] fix: formatted strings inside closures can use captured
 variables

---
 src/desugar/expr.rs | 11 +++++------
 src/desugar/mod.rs  |  1 -
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/desugar/expr.rs b/src/desugar/expr.rs
index 922a151..3837905 100644
--- a/src/desugar/expr.rs
+++ b/src/desugar/expr.rs
@@ -178,13 +178,12 @@ pub(crate) fn desugar(
         )?),
         Abstract(data) => {
             let AbstractData { args, body } = *data;
-            // we swap the locals with the lambda arguments, as we do not capture the outer scope
-            let mut other_vars = args.iter().map(|(name, _)| *name).collect::<Vec<_>>();
-            mem::swap(&mut other_vars, &mut ctx.locals);
+            // The body sees the arguments on top of the outer locals, which it may capture.
+            let env_size = ctx.locals.len();
+            ctx.locals.extend(args.iter().map(|(name, _)| *name));
             let body = desugar(body, ctx, parsed_arena, desugared_arena, modules_used)?;
-            let result = ExprKind::abstract_(args, body);
-            mem::swap(&mut other_vars, &mut ctx.locals);
-            result
+            ctx.locals.truncate(env_size);
+            ExprKind::abstract_(args, body)
         }
         Apply(data) => {
             let ApplyData {
diff --git a/src/desugar/mod.rs b/src/desugar/mod.rs
index 85b94ca..5abf519 100644
--- a/src/desugar/mod.rs
+++ b/src/desugar/mod.rs
@@ -7,7 +7,6 @@
 // Unless required by applicable law or agreed to in writing, software distributed under the License is distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied. See the License for the specific language governing permissions and limitations under the License.
 //
 use itertools::process_results;
-use std::mem;
 
 mod import_resolver;
 
-- 
2.43.0


From eddeb47fc167341e4b91a3ab781adfeb5d05e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 05/46] fix: a loop's break value copies a local declared
 outside the loop instead of moving it

---
 src/types/type_inference/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 229703d..3a63232 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -1954,7 +1954,7 @@ impl TypeInference {
             Loop(data) => {
                 let label = self.fresh_loop_id();
                 let result_ty = self.fresh_type_var();
-                let local_scope_start = env.cur_locals.len();
+                let local_scope_start = env.all_locals.len();
                 env.loop_frames.push(LoopFrame::new(
                     label,
                     data.label,
-- 
2.43.0


From 470755ad234ee57bbf76eb38079b9da8e595ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 06/46] fix: a variant that owns nothing can be bound or
 matched inside a loop

---
 src/mir/verify.rs                | 9 ++++++++-
 src/types/type_inference/expr.rs | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mir/verify.rs b/src/mir/verify.rs
index d7edfda..e4c3a89 100644
--- a/src/mir/verify.rs
+++ b/src/mir/verify.rs
@@ -1659,7 +1659,14 @@ impl<'a> Verifier<'a> {
                 let node = self.value_definition[value_id];
                 let operation = self.operation(node).unwrap();
                 match &operation.kind {
-                    OperationKind::Variant { metadata, .. } => !self.is_trivial_copy(metadata.ty),
+                    OperationKind::Variant { metadata, .. } => {
+                        let (ty, payload_ty) = (metadata.ty, metadata.payload_ty);
+                        // Emission skips the drop of a structural variant whose payload owns
+                        // nothing. A named type may have an explicit `Value` impl, whose `drop`
+                        // is an obligation whatever the payload.
+                        !self.is_trivial_copy(ty)
+                            && (ty.data().is_named() || !self.is_trivial_copy(payload_ty))
+                    }
                     OperationKind::CloneClosureEnv { .. } => true,
                     OperationKind::BuildClosure {
                         num_hidden_dicts,
diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 3a63232..58bb60d 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -5189,7 +5189,11 @@ impl TypeInference {
         // Avoids cloning the whole `NodeKind` just to satisfy the borrow checker.
         let children: SmallVec<[NodeId; 4]> = match &env.ir_arena[value].kind {
             Immediate(_) | GetFunction(_) | GetSubscript(_) | GetTraitMethod(_) => return false,
-            Variant(variant) => smallvec![variant.payload],
+            // The storage of a variant is tracked as a whole, so its payload is judged by its type.
+            Variant(variant) => {
+                let payload_ty = env.ir_arena[variant.payload].ty;
+                return self.type_needs_semantic_drop(env, payload_ty);
+            }
             Block(block) => block.tail_node().into_iter().collect(),
             Tuple(nodes) | Record(nodes) => nodes.iter().copied().collect(),
             BuildClosure(closure) => closure.captures.iter().copied().collect(),
-- 
2.43.0


From 581364a9ad0ee069ba64ff30080eeb269c99080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 07/46] fix: a matched temporary is dropped at its own type,
 running its explicit drop

---
 src/hir/match.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hir/match.rs b/src/hir/match.rs
index 2fba41b..09fe641 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -339,14 +339,16 @@ impl TypeInference {
                 match_condition_slot,
                 "@match_condition",
                 MutVal::constant(),
-                pattern_ty,
+                condition_ty,
                 env.all_locals,
             );
+            // The scrutinee is owned at its own type: dropping it at its representation would skip
+            // the explicit `Value` impl of a named type.
             self.set_local_owned_storage_from_value(
                 env,
                 l_match_condition,
                 condition_node_id,
-                pattern_ty,
+                condition_ty,
                 match_span,
             );
             let store_variant_node_id = env.ir_arena.alloc(N::new(
-- 
2.43.0


From be699591129621d0f1aef935985536e63fb3db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 08/46] fix: a match with only a default arm still checks and
 evaluates its condition

---
 src/hir/match.rs                 | 36 +++++++++++++++++++-------------
 src/types/type_inference/expr.rs |  2 +-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/hir/match.rs b/src/hir/match.rs
index 09fe641..b294369 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -138,24 +138,30 @@ impl TypeInference {
 
         // Do we have a degenerate match with no alternative?
         if alternatives.is_empty() {
-            if let Some(default) = default {
-                let (node_id, mut_ty) = self.infer_expr(env, *default)?;
-                let node = &env.ir_arena[node_id];
-                let kind = node.kind.clone();
-                let ty = node.ty;
-                let effects = node.effects.clone();
-                return Ok((kind, ty, mut_ty, effects));
-            } else {
-                let (condition_node_id, _) = self.infer_expr(env, cond_expr)?;
-                let condition_node = &env.ir_arena[condition_node_id];
-                let cond_eff = condition_node.effects.clone();
-                if is_definitely_uninhabited(condition_node.ty, env) {
-                    return Ok(self.diverging_prefix_result(env, [condition_node_id], cond_eff));
-                }
+            let (condition_node_id, _) = self.infer_expr(env, cond_expr)?;
+            let condition_node = &env.ir_arena[condition_node_id];
+            let cond_eff = condition_node.effects.clone();
+            if is_definitely_uninhabited(condition_node.ty, env) {
+                return Ok(self.diverging_prefix_result(env, [condition_node_id], cond_eff));
+            }
+            let Some(default) = default else {
                 return Err(internal_compilation_error!(EmptyMatchBody {
                     span: match_span
                 }));
-            }
+            };
+            // The condition is evaluated even though no pattern looks at its value.
+            let condition_node_id =
+                self.discard_unused_value(env, condition_node_id, sp(cond_expr));
+            let (node_id, _) = self.infer_expr(env, *default)?;
+            let node_id = self.materialize_owned_value(env, node_id, match_span);
+            let ty = env.ir_arena[node_id].ty;
+            let default_eff = env.ir_arena[node_id].effects.clone();
+            let effects = self.make_dependent_effect([&cond_eff, &default_eff]);
+            let kind = K::Block(b(hir::Block {
+                body: b(SVec2::from_vec(vec![condition_node_id, node_id])),
+                cleanup: vec![],
+            }));
+            return Ok((kind, ty, MutType::constant(), effects));
         }
 
         // Infer the condition expression and get the pattern type.
diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 58bb60d..44fba93 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -5247,7 +5247,7 @@ impl TypeInference {
         }
     }
 
-    fn discard_unused_value(
+    pub(crate) fn discard_unused_value(
         &mut self,
         env: &mut TypingEnv,
         value: NodeId,
-- 
2.43.0


From 940b529cd624017154edc53be7ad8acb7367c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 09/46] fix: a closure whose captures own nothing passes
 verification without a drop

---
 src/mir/verify.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mir/verify.rs b/src/mir/verify.rs
index e4c3a89..bf762b2 100644
--- a/src/mir/verify.rs
+++ b/src/mir/verify.rs
@@ -1673,8 +1673,20 @@ impl<'a> Verifier<'a> {
                         has_env_dict,
                         ..
                     } => {
-                        operation.operands.len()
-                            > *num_hidden_dicts as usize + usize::from(*has_env_dict)
+                        // Emission skips the drop of a closure whose captures own nothing.
+                        let captures_end = operation.operands.len() - usize::from(*has_env_dict);
+                        let captures = &operation.operands[*num_hidden_dicts as usize..captures_end];
+                        let capture_tys: Vec<_> = captures
+                            .iter()
+                            .map(|capture| {
+                                self.place_pointee_type(capture)
+                                    .or_else(|| self.materialized_type(capture))
+                            })
+                            .collect();
+                        capture_tys.into_iter().any(|ty| match ty {
+                            Some(MirType::Lowered(ty)) => !self.is_trivial_copy(ty),
+                            _ => true,
+                        })
                     }
                     OperationKind::Load
                     | OperationKind::CompareEqual
-- 
2.43.0


From 0b60cf80dd6c98699c38ca3c392eec4ca9a7dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 10/46] fix: a failing closure does not drop its captured
 values twice

---
 src/types/type_inference/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 44fba93..3bba48b 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -606,6 +606,8 @@ impl TypeInference {
                 capture_tys.push(local.ty);
                 let mut inner_local = local.clone();
                 inner_local.scope = span; // the local's scope is the whole lambda
+                // The closure's environment owns the captured value, not the function's frame.
+                inner_local.set_non_owning_storage();
                 let inner_id = LocalDecl::push_with_next_slot(&mut fn_all_locals, inner_local);
                 capture_args.push(inner_id);
             }
-- 
2.43.0


From 2ca6fea1ff55ba6be925a9dd0cf1056d63bfdbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 11/46] fix: effects known behind the variables of a lower
 bound reach the upper bound

---
 src/types/type_inference/effect_solver.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/types/type_inference/effect_solver.rs b/src/types/type_inference/effect_solver.rs
index 9ed8960..49b88ad 100644
--- a/src/types/type_inference/effect_solver.rs
+++ b/src/types/type_inference/effect_solver.rs
@@ -453,14 +453,16 @@ impl EffectSolver {
         if let Some(lower_var) = inclusion.lower.to_single_variable() {
             let lower_root = self.table.find(lower_var);
             let lower_value = self.table.probe_value(lower_root);
-            // Preserve the original lower-bound accumulator while it contains
-            // only variables. Normalizing it first would turn repeated
+            // Preserve the original lower-bound accumulator while it stands for
+            // variables only. Normalizing it first would turn repeated
             // dependencies `e <= a`, `e <= b` into a chain `a <= b` instead of
-            // the intended union `e <= a | b`.
-            if lower_value
-                .as_ref()
-                .is_none_or(|effects| effects.is_only_vars())
-            {
+            // the intended union `e <= a | b`. Primitive effects behind these
+            // variables must however reach the upper bound.
+            let only_vars = match &lower_value {
+                Some(effects) => self.normalize_effect(effects).is_only_vars(),
+                None => true,
+            };
+            if only_vars {
                 let upper = self.normalize_effect(&inclusion.upper);
                 if upper.is_empty() || EffType::single_variable(lower_root) == upper {
                     return Ok(true);
-- 
2.43.0


From 440f6793c0f06e6e3c2a3aa1922e3c021b5a9560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 12/46] fix: effects acquired later by the parts of a dependent
 effect reach its upper bound

---
 src/types/type_inference/effect_solver.rs | 53 ++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/types/type_inference/effect_solver.rs b/src/types/type_inference/effect_solver.rs
index 49b88ad..c1c8ff4 100644
--- a/src/types/type_inference/effect_solver.rs
+++ b/src/types/type_inference/effect_solver.rs
@@ -72,6 +72,8 @@ pub(crate) struct EffectSolverSnapshot {
     table: Snapshot<InPlace<EffectVarKey>>,
     pending_dependencies: Vec<PendingEffectDependency>,
     deferred_inclusions: Vec<EffectInclusion>,
+    dependent_effects: FxHashMap<EffectVarKey, EffType>,
+    dependent_inclusions: Vec<EffectInclusion>,
 }
 
 /// Solver state for inferred effect variables and effect relations.
@@ -87,6 +89,10 @@ pub(crate) struct EffectSolver {
     constraints: Vec<EffectConstraint>,
     pending_dependencies: Vec<PendingEffectDependency>,
     deferred_inclusions: Vec<EffectInclusion>,
+    /// The effects each variable made by `make_dependent_effect` stands for.
+    dependent_effects: FxHashMap<EffectVarKey, EffType>,
+    /// Inclusions of such variables in an upper bound.
+    dependent_inclusions: Vec<EffectInclusion>,
 }
 
 impl EffectSolver {
@@ -115,6 +121,8 @@ impl EffectSolver {
             table: self.table.snapshot(),
             pending_dependencies: self.pending_dependencies.clone(),
             deferred_inclusions: self.deferred_inclusions.clone(),
+            dependent_effects: self.dependent_effects.clone(),
+            dependent_inclusions: self.dependent_inclusions.clone(),
         }
     }
 
@@ -122,6 +130,8 @@ impl EffectSolver {
         self.table.rollback_to(snapshot.table);
         self.pending_dependencies = snapshot.pending_dependencies;
         self.deferred_inclusions = snapshot.deferred_inclusions;
+        self.dependent_effects = snapshot.dependent_effects;
+        self.dependent_inclusions = snapshot.dependent_inclusions;
     }
 
     pub(super) fn add_same_constraint(
@@ -167,7 +177,8 @@ impl EffectSolver {
             return effects;
         }
 
-        let effect_var = self.table.new_key(Some(effects));
+        let effect_var = self.table.new_key(Some(effects.clone()));
+        self.dependent_effects.insert(effect_var, effects);
         EffType::single_variable(effect_var)
     }
 
@@ -414,7 +425,38 @@ impl EffectSolver {
             self.materialize_residual_inclusion(inclusion)?;
         }
 
-        self.expand_all_pending_dependencies()
+        self.expand_all_pending_dependencies()?;
+        self.expand_dependent_inclusions()
+    }
+
+    /// Propagate the primitive effects that dependent effects have acquired to their upper bounds,
+    /// until nothing changes.
+    fn expand_dependent_inclusions(&mut self) -> Result<(), InternalCompilationError> {
+        let inclusions = self.dependent_inclusions.clone();
+        loop {
+            let mut changed = false;
+            for inclusion in &inclusions {
+                let lower = self.normalize_effect(&inclusion.lower).inner_non_vars();
+                let lower = EffType::multiple_primitive(&lower);
+                let Some(target) = inclusion.upper.to_single_variable() else {
+                    continue;
+                };
+                if lower.is_subset_of(&self.normalize_effect(&inclusion.upper)) {
+                    continue;
+                }
+                changed = true;
+                self.expand_pending_dependency(PendingEffectDependency {
+                    source: lower,
+                    source_span: inclusion.lower_span,
+                    target,
+                    target_span: inclusion.upper_span,
+                    origin: inclusion.origin.clone(),
+                })?;
+            }
+            if !changed {
+                return Ok(());
+            }
+        }
     }
 
     fn expand_all_pending_dependencies(&mut self) -> Result<(), InternalCompilationError> {
@@ -451,6 +493,13 @@ impl EffectSolver {
         defer_ambiguous: bool,
     ) -> Result<bool, InternalCompilationError> {
         if let Some(lower_var) = inclusion.lower.to_single_variable() {
+            // What a dependent effect stands for may still grow, so its parts are
+            // looked at again once all other dependencies are known.
+            if let Some(parts) = self.dependent_effects.get(&lower_var) {
+                let mut dependent_inclusion = inclusion.clone();
+                dependent_inclusion.lower = parts.clone();
+                self.dependent_inclusions.push(dependent_inclusion);
+            }
             let lower_root = self.table.find(lower_var);
             let lower_value = self.table.probe_value(lower_root);
             // Preserve the original lower-bound accumulator while it stands for
-- 
2.43.0


From ea58618b49d916ad1feeb04515eb2915ed2be697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 13/46] fix: a boolean read through an array index can be
 negated and branched on in optimized code

---
 src/mir/interpreter.rs   | 11 ++++++++++-
 src/mir/pass/negation.rs | 30 +++++++++++++++++++++++-------
 src/mir/role.rs          |  2 ++
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/mir/interpreter.rs b/src/mir/interpreter.rs
index e486d6a..7bb8a37 100644
--- a/src/mir/interpreter.rs
+++ b/src/mir/interpreter.rs
@@ -2503,7 +2503,16 @@ impl<'a> Interpreter<'a> {
                         .target_ref(&self.ctx)
                         .expect("operand is an invalid open projection"),
                 ),
-                Some(Binding::Value(value)) => use_value(value),
+                // A register read from a cell that holds a place is used as that place.
+                Some(Binding::Value(value)) => match value.as_primitive_ty::<PlaceResult>() {
+                    Some(result) => use_value(
+                        result
+                            .place()
+                            .target_ref(&self.ctx)
+                            .expect("operand is an invalid place"),
+                    ),
+                    None => use_value(value),
+                },
                 Some(Binding::StackMarker(_)) => {
                     panic!("expected a value but {operand} is bound to a stack marker")
                 }
diff --git a/src/mir/pass/negation.rs b/src/mir/pass/negation.rs
index 0a9de6c..cd7f7b7 100644
--- a/src/mir/pass/negation.rs
+++ b/src/mir/pass/negation.rs
@@ -306,14 +306,30 @@ impl<'a> Resolver<'a> {
     /// Whether a register holds a boolean rather than the place of one.
     ///
     /// The two forms the walk sees through are also the only two that materialize a boolean into a
-    /// register, so this is the same list read the other way round.
+    /// register, so this is the same list read the other way round. Reading a cell that holds a
+    /// place is the exception: it yields that place.
     fn is_materialized(&self, value: ValueId) -> bool {
-        self.definitions.get(&value).is_some_and(|site| {
-            matches!(
-                self.operation(*site).kind,
-                OperationKind::Load | OperationKind::CompareEqual
-            )
-        })
+        let Some(site) = self.definitions.get(&value) else {
+            return false;
+        };
+        let operation = self.operation(*site);
+        match operation.kind {
+            OperationKind::CompareEqual => true,
+            OperationKind::Load => !self.holds_place(&operation.operands[0]),
+            _ => false,
+        }
+    }
+
+    /// Whether an operand is a cell holding a place.
+    fn holds_place(&self, operand: &mir::Value) -> bool {
+        as_register(operand)
+            .and_then(|value| self.definitions.get(&value))
+            .is_some_and(|site| {
+                matches!(
+                    self.operation(*site).kind,
+                    OperationKind::AllocaPlace { .. }
+                )
+            })
     }
 
     /// One step back: from a boolean to what computed it.
diff --git a/src/mir/role.rs b/src/mir/role.rs
index 38384df..0717849 100644
--- a/src/mir/role.rs
+++ b/src/mir/role.rs
@@ -385,6 +385,8 @@ impl ValueRoles {
             }
             OperationResult::Pointee(pointer) => match self.resolve_result(*pointer, constants)? {
                 ValueRole::Place(ty) => ValueRole::Materialized(ty),
+                // A register holding a place pointer, read from a cell, is used as that place.
+                ValueRole::Materialized(MirType::Pointer(ty)) => ValueRole::Materialized(*ty),
                 ValueRole::OpenProjection { yielded, .. } => {
                     ValueRole::Materialized(MirType::Lowered(yielded))
                 }
-- 
2.43.0


From b9a7651ad2ba0ef1eac3954c27f314946f3bbb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 14/46] fix: effects of traits resolved after defaulting reach
 a module expression's type

---
 src/hir/emit_expr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hir/emit_expr.rs b/src/hir/emit_expr.rs
index 0d34aae..24af3f6 100644
--- a/src/hir/emit_expr.rs
+++ b/src/hir/emit_expr.rs
@@ -291,6 +291,9 @@ fn emit_expr_unsafe_inner(
         elaborate_generated_functions(module, others, &mut pending_functions, generated)?;
     }
 
+    // Traits resolved after defaulting may have contributed effects.
+    ty_inf.finalize_effect_dependencies()?;
+
     // Substitute everything using ty_inf (single pass, includes all defaults).
     ty_inf.substitute_in_node(expr_arena, node_id);
     for lambda_id in lambda_functions.iter() {
-- 
2.43.0


From 132273f857a2518dbd7e29eddcd276fa99e01205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 15/46] fix: methods of generic implementations keep the
 effects their evidence and closures bring

---
 src/hir/emit_functions.rs |  8 ++++++++
 src/hir/emit_hir.rs       |  2 ++
 src/types/trait_solver.rs | 24 ++++++++++++++++++++++--
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/hir/emit_functions.rs b/src/hir/emit_functions.rs
index ea9c43c..fa38e3b 100644
--- a/src/hir/emit_functions.rs
+++ b/src/hir/emit_functions.rs
@@ -1273,11 +1273,18 @@ where
             &local_fns,
             &mut ty_inf,
         );
+        // The output effects of the implementation's own constraints are supplied by the evidence it
+        // receives, so the methods keep them.
+        let mut evidence_effect_vars = FxHashSet::default();
+        for constraint in ty_inf.remaining_constraints() {
+            constraint.fill_with_inner_effect_vars(&mut evidence_effect_vars);
+        }
         default_output_effects_in_functions(
             output,
             &mut pending_functions,
             &associated_lambdas,
             &local_fns,
+            &evidence_effect_vars,
         );
 
         // Resolve input and output types and output effects.
@@ -1761,6 +1768,7 @@ where
             &mut pending_functions,
             &associated_lambdas,
             &local_fns,
+            &FxHashSet::default(),
         );
 
         // Safety check: make sure that there are no unused constraints.
diff --git a/src/hir/emit_hir.rs b/src/hir/emit_hir.rs
index 49afeb3..49d025d 100644
--- a/src/hir/emit_hir.rs
+++ b/src/hir/emit_hir.rs
@@ -370,6 +370,7 @@ pub(super) fn default_output_effects_in_functions(
     pending_functions: &mut PendingModuleFunctions,
     associated_lambdas: &FxHashMap<LocalFunctionId, Vec<LocalFunctionId>>,
     function_ids: &[LocalFunctionId],
+    bound_effect_vars: &FxHashSet<EffectVar>,
 ) {
     for &id in function_ids {
         let effect_subst: FxHashMap<_, _> = {
@@ -382,6 +383,7 @@ pub(super) fn default_output_effects_in_functions(
                 .into_iter()
                 .collect::<FxHashSet<_>>();
             let mut retained_effect_vars = descr.definition.ty_scheme.ty.input_effect_vars();
+            retained_effect_vars.extend(bound_effect_vars.iter().copied());
             for constraint in &descr.definition.ty_scheme.constraints {
                 let constraint_mentions_public_signature_ty = constraint
                     .inner_ty_vars()
diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index 8fdb8ef..80bd6b2 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -3165,7 +3165,8 @@ impl<'a> TraitSolver<'a> {
                 // The matched impl is being materialized for constant input types:
                 // any output effect variable left unbound by the head and constraint
                 // solving is unconstrained, so it resolves to the empty (pure) effect.
-                let output_effs: Vec<_> = output_effs
+                let applied_output_effs = output_effs;
+                let output_effs: Vec<_> = applied_output_effs
                     .iter()
                     .map(|eff| EffType::multiple_primitive(&eff.inner_non_vars()))
                     .collect();
@@ -3231,8 +3232,27 @@ impl<'a> TraitSolver<'a> {
                     // importing it and closing over the constraint dictionaries.
                     let trait_def =
                         trait_def_from_parts(self.current_type_items, self.others, trait_id);
+                    // The effect variables of the input types belong to the application: what they
+                    // stand for happens when a method runs, so the methods keep them.
+                    let mut head_eff_vars = FxHashSet::default();
+                    for ty in input_tys {
+                        ty.fill_with_inner_effect_vars(&mut head_eff_vars);
+                    }
+                    let method_effs: Vec<_> = applied_output_effs
+                        .iter()
+                        .zip(&output_effs)
+                        .map(|(applied, kept)| {
+                            let mut kept = kept.clone();
+                            for effect in applied.iter() {
+                                if matches!(effect, Effect::Variable(var) if head_eff_vars.contains(&var)) {
+                                    kept.insert(effect);
+                                }
+                            }
+                            kept
+                        })
+                        .collect();
                     let definitions =
-                        trait_def.instantiate_for_tys(input_tys, &output_tys, &output_effs);
+                        trait_def.instantiate_for_tys(input_tys, &output_tys, &method_effs);
                     let generic_definitions = trait_def.instantiate_for_tys(
                         imp_input_tys,
                         &imp_output_tys,
-- 
2.43.0


From c5cbce147634cd22426e32cac9d3cac885ee5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 16/46] fix: cleanup after an interrupted construction releases
 the parts of the unfinished value

---
 src/mir/interpreter.rs | 49 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/mir/interpreter.rs b/src/mir/interpreter.rs
index 7bb8a37..effae31 100644
--- a/src/mir/interpreter.rs
+++ b/src/mir/interpreter.rs
@@ -704,7 +704,12 @@ impl<'a> Interpreter<'a> {
             OperationKind::CompareEqual => {
                 self.exec_compare_equal(func, slots, &operation.operands, def.unwrap());
             }
-            OperationKind::Variant { tag, storage, .. } => {
+            OperationKind::Variant {
+                tag,
+                metadata,
+                storage,
+                ..
+            } => {
                 // Build a tagged variant shell with an uninitialized payload. The constructing site
                 // stores it into the variant's destination and then fills the payload in place
                 // through a projection of that destination, so the payload aggregate is never
@@ -721,11 +726,13 @@ impl<'a> Interpreter<'a> {
                             .expect("variant payload-storage evidence must be bool"),
                     )
                 });
-                Self::bind(
-                    slots,
-                    def.unwrap(),
-                    Binding::Value(Value::variant_shell(*tag, storage)),
-                );
+                let mut shell = Value::variant_shell(*tag, storage);
+                if metadata.payload_ty != Type::unit() {
+                    // Materialize the payload slot, so that cleanup can tell a shell whose payload
+                    // is still missing from a case that carries nothing.
+                    shell.variant_payload_mut();
+                }
+                Self::bind(slots, def.unwrap(), Binding::Value(shell));
             }
             OperationKind::BuildArray { .. } => {
                 self.exec_build_array(func, slots, &operation.operands)?;
@@ -1167,15 +1174,26 @@ impl<'a> Interpreter<'a> {
         // never-initialized) value, or an aggregate skeleton whose every leaf is `Uninit` (left
         // behind by a previous drop of the same storage). This is what makes inline drops run at
         // most once per value.
-        let skip = {
+        let (skip, partial) = {
             let v = target
                 .target_ref_allow_uninit(&self.ctx)
                 .expect("drop target must be addressable");
-            is_drop_husk(v)
+            (is_drop_husk(v), is_partially_built(v))
         };
         if skip {
             return Ok(());
         }
+        if partial {
+            // A failing or leaving component interrupted the construction. No value of the target's
+            // type exists that `Value::drop` could be given; like the HIR interpreter, only release
+            // the storage of the components that are complete.
+            let slot = target
+                .target_mut(&mut self.ctx)
+                .expect("drop target must be addressable");
+            let skeleton = husk_like(slot);
+            std::mem::replace(slot, skeleton).discard_storage();
+            return Ok(());
+        }
         let (module, identity) = self.callee_target(slots, &operands[1]);
         let f = self.hir_function(module, identity);
         let drop_result = if f.code.as_script().is_some() {
@@ -2704,6 +2722,21 @@ fn is_drop_husk(v: &Value) -> bool {
     }
 }
 
+/// Returns `true` iff some part of `v` is live and another one is a husk, that is, `v` is an aggregate
+/// or a variant whose construction was interrupted.
+fn is_partially_built(v: &Value) -> bool {
+    match v {
+        Value::Tuple(fields) => {
+            fields.iter().any(is_partially_built)
+                || fields.iter().any(is_drop_husk) && !fields.iter().all(is_drop_husk)
+        }
+        Value::Variant { .. } => v
+            .variant_payload()
+            .is_some_and(|payload| is_drop_husk(payload) || is_partially_built(payload)),
+        _ => false,
+    }
+}
+
 /// Returns a husk mirroring the aggregate *skeleton* of `v`: a `Tuple` becomes a `Tuple` of
 /// (recursively) husked leaves — collapsing to flat `Uninit` when empty, via `aggregate_husk` —
 /// and anything else becomes a flat `Uninit`. Used to leave drained storage reinitializable
-- 
2.43.0


From f8bcde3c8abbc95187d66cc05b323e9760b9cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 17/46] fix: optimized code keeps the sign of a zero constant

---
 src/hir/value.rs | 18 +++++++++++++++++-
 src/mir/value.rs | 24 ++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/hir/value.rs b/src/hir/value.rs
index 82e7f85..87f6e74 100644
--- a/src/hir/value.rs
+++ b/src/hir/value.rs
@@ -24,7 +24,7 @@ use crate::{
     format::write_with_separator,
     hir::function::NativeTrivialCopy,
     module::{FunctionId, ModuleEnv, SubscriptId, TraitDictionaryId},
-    std::string::StaticStr,
+    std::{math::Float, string::StaticStr},
     types::r#type::{Type, TypeKind},
 };
 
@@ -651,6 +651,22 @@ impl LiteralValue {
         }
     }
 
+    /// Whether both denote the same value and cannot be told apart by any operation on it, which
+    /// equality does not tell for the zeros of `float`.
+    pub fn is_identical_to(&self, other: &Self) -> bool {
+        let negative = |value: &Self| {
+            value
+                .as_primitive_ty::<Float>()
+                .is_some_and(|value| value.is_sign_negative())
+        };
+        match (self, other) {
+            (Self::Tuple(a), Self::Tuple(b)) => {
+                a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| a.is_identical_to(b))
+            }
+            _ => self == other && negative(self) == negative(other),
+        }
+    }
+
     /// Compare immutable pattern data with a runtime value without converting
     /// owned runtime data into a literal representation.
     pub fn try_matches_runtime_value(
diff --git a/src/mir/value.rs b/src/mir/value.rs
index 1ecc94a..a6ce38a 100644
--- a/src/mir/value.rs
+++ b/src/mir/value.rs
@@ -6,7 +6,10 @@
 //
 // Unless required by applicable law or agreed to in writing, software distributed under the License is distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied. See the License for the specific language governing permissions and limitations under the License.
 //
-use std::fmt;
+use std::{
+    fmt,
+    hash::{Hash, Hasher},
+};
 
 use crate::{
     containers::B,
@@ -85,12 +88,29 @@ crate::define_id_type!(
 );
 
 /// A typed, trivially-copyable HIR immediate representation.
-#[derive(Clone, PartialEq, Eq, Hash, Debug)]
+#[derive(Clone, Debug)]
 pub struct Constant {
     pub ty: Type,
     pub representation: LiteralValue,
 }
 
+/// Two constants are the same when their representations cannot be told apart, which is finer than
+/// equality of the values they denote: `0.0` equals `-0.0`.
+impl PartialEq for Constant {
+    fn eq(&self, other: &Self) -> bool {
+        self.ty == other.ty && self.representation.is_identical_to(&other.representation)
+    }
+}
+
+impl Eq for Constant {}
+
+impl Hash for Constant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.ty.hash(state);
+        self.representation.hash(state);
+    }
+}
+
 impl FormatWith<ModuleEnv<'_>> for Value {
     fn fmt_with(&self, f: &mut fmt::Formatter<'_>, env: &ModuleEnv<'_>) -> fmt::Result {
         match self {
-- 
2.43.0


From 34682c312b76789eeeb49703d90d49934180487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 18/46] fix: matching a generic implementation keeps the effect
 variables of its input types apart

---
 src/types/trait_solver.rs                 | 27 +++++++++++++++--------
 src/types/type_inference/effect_solver.rs |  3 ++-
 src/types/type_inference/unify.rs         |  7 ++++++
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index 80bd6b2..491278b 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -2376,7 +2376,9 @@ impl<'a> TraitSolver<'a> {
                     })
             })
             .collect::<Result<Vec<_>, _>>()?;
-        let close_effect_rows = concrete_definition.ty_scheme.ty.is_constant();
+        let concrete_scheme = &concrete_definition.ty_scheme;
+        let mut target_eff_vars = concrete_scheme.ty.inner_effect_vars();
+        target_eff_vars.extend(concrete_scheme.eff_quantifiers.iter().copied());
         let eff_args = generic_definition
             .ty_scheme
             .eff_quantifiers
@@ -2395,15 +2397,17 @@ impl<'a> TraitSolver<'a> {
                             span: fn_span,
                         })
                     })?;
-                // Open-row matching may retain an unconstrained tail. A fully concrete target
-                // signature proves that tail is pure; an effect-polymorphic target must retain it.
+                // Open-row matching may retain an unconstrained tail. A variable that the target
+                // signature does not mention is such a tail and is pure; one that an
+                // effect-polymorphic target mentions must be retained.
                 // This includes quantifiers occurring only in impl constraints: after constraint
-                // solving reaches a ground method, no caller-provided binding can remain.
-                Ok(if close_effect_rows {
-                    EffType::multiple_primitive(&effect.inner_non_vars())
-                } else {
-                    effect
-                })
+                // solving reaches the method, no caller-provided binding for them can remain.
+                Ok(EffType::from_iter(effect.iter().filter(
+                    |effect| match effect {
+                        Effect::Variable(var) => target_eff_vars.contains(var),
+                        _ => true,
+                    },
+                )))
             })
             .collect::<Result<Vec<_>, _>>()?;
         Ok(FnInstData::new(runtime_requirements, ty_args, eff_args))
@@ -3128,6 +3132,11 @@ impl<'a> TraitSolver<'a> {
                             .iter()
                             .chain(requested_output_tys.unwrap_or_default()),
                     ));
+                ty_inf.add_effect_vars_of(
+                    input_tys
+                        .iter()
+                        .chain(requested_output_tys.unwrap_or_default()),
+                );
                 let blanket_constraint_mode = if trait_id == value_trait_id {
                     BlanketConstraintMode::DeferConcreteObligations
                 } else {
diff --git a/src/types/type_inference/effect_solver.rs b/src/types/type_inference/effect_solver.rs
index c1c8ff4..8d57cde 100644
--- a/src/types/type_inference/effect_solver.rs
+++ b/src/types/type_inference/effect_solver.rs
@@ -100,7 +100,8 @@ impl EffectSolver {
         self.table.new_key(None)
     }
 
-    fn ensure_var(&mut self, var: EffectVar) {
+    /// Makes `var` a known variable, so that no fresh variable shares its identity.
+    pub(crate) fn ensure_var(&mut self, var: EffectVar) {
         while self.table.len() <= var.name() as usize {
             self.table.new_key(None);
         }
diff --git a/src/types/type_inference/unify.rs b/src/types/type_inference/unify.rs
index 3c93129..2584da2 100644
--- a/src/types/type_inference/unify.rs
+++ b/src/types/type_inference/unify.rs
@@ -112,6 +112,13 @@ impl UnifiedTypeInference {
         unified_ty_inf
     }
 
+    /// Makes the effect variables of `types` known, so that no fresh variable shares their identity.
+    pub(crate) fn add_effect_vars_of<'t>(&mut self, types: impl IntoIterator<Item = &'t Type>) {
+        for var in types.into_iter().flat_map(TypeLike::inner_effect_vars) {
+            self.effects.ensure_var(var);
+        }
+    }
+
     pub(crate) fn fresh_type_var(&mut self) -> TypeVar {
         self.ty_unification_table.new_key(None)
     }
-- 
2.43.0


From 6dddbe6fe14122e317bcff6cbd0e8d18a8a3ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 19/46] fix: equal floats hash alike, also the two zeros

---
 src/std/math.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/std/math.rs b/src/std/math.rs
index aa284ee..66f0d6a 100644
--- a/src/std/math.rs
+++ b/src/std/math.rs
@@ -299,7 +299,10 @@ fn hash_int(value: Int, state: &mut Hasher) {
 }
 
 fn hash_float(value: Float, state: &mut Hasher) {
-    state.write_u64(value.into_inner().to_bits());
+    // Both zeros are equal, so they must hash alike.
+    let value = value.into_inner();
+    let value = if value == 0.0 { 0.0 } else { value };
+    state.write_u64(value.to_bits());
 }
 
 fn equal_float(lhs: Float, rhs: Float) -> bool {
-- 
2.43.0


From 68c97c8732d067950f2deb108a352ffa1640cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 20/46] fix: an inclusive range that ends at the last integer
 terminates

---
 src/std/prelude/core_impls.fer | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/std/prelude/core_impls.fer b/src/std/prelude/core_impls.fer
index 9b31769..4fde2b0 100644
--- a/src/std/prelude/core_impls.fer
+++ b/src/std/prelude/core_impls.fer
@@ -74,15 +74,16 @@ impl Iterator {
 	fn next(it: &mut RangeInclusiveIterator) {
 		let next = it.next;
 		if it.range.end >= it.range.start {
-			if next <= it.range.end {
-				it.next += 1;
+			if next >= it.range.start and next <= it.range.end {
+				// There might be no integer after the end, so the exhausted position is before the start.
+				it.next = if next == it.range.end { it.range.start - 1 } else { next + 1 };
 				Some(next)
 			} else {
 				None
 			}
 		} else {
-			if next >= it.range.end {
-				it.next -= 1;
+			if next <= it.range.start and next >= it.range.end {
+				it.next = if next == it.range.end { it.range.start + 1 } else { next - 1 };
 				Some(next)
 			} else {
 				None
-- 
2.43.0


From 0d055b1d59673c1fb970f5267a94a047f0be053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 21/46] fix: writing through an addressor's result invalidates
 what is known of its argument

---
 src/mir/pass/dataflow.rs | 58 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/mir/pass/dataflow.rs b/src/mir/pass/dataflow.rs
index d90afdc..4873eb6 100644
--- a/src/mir/pass/dataflow.rs
+++ b/src/mir/pass/dataflow.rs
@@ -51,7 +51,7 @@ use crate::{
         FunctionId, ModuleEnv, ProjectionIndex, TraitDictionaryEntry, TraitDictionaryId, id::Id,
     },
     types::r#trait::TraitDictionaryEntryIndex,
-    types::r#type::{CallImplType, Type},
+    types::r#type::{CallImplType, CallResultConvention, Type},
 };
 
 /// A root of addressable storage the analysis can track.
@@ -827,6 +827,7 @@ pub(crate) fn escaping_roots(
         }
     }
 
+    let borrows_are_written = writes_through_borrow(func, &register_places);
     let mut escaped = FxHashSet::default();
     let escape_operand = |operand: &mir::Value, escaped: &mut FxHashSet<Root>| {
         if let Some(root) = register_places.root_of(operand) {
@@ -873,8 +874,11 @@ pub(crate) fn escaping_roots(
                 // does change is its result place, which the transfer function kills. Anything the
                 // callee may write through — a `MutableRef` argument — escapes.
                 Some(call) => {
+                    // An addressor's result points into its argument, whatever the convention.
+                    let lent = borrows_are_written
+                        && ty.result_convention == CallResultConvention::ADDRESSOR_PLACE;
                     for (operand, convention) in &call.arguments {
-                        if matches!(convention, ArgConvention::MutableRef)
+                        if (lent || matches!(convention, ArgConvention::MutableRef))
                             && !mutations_modelled(operation)
                         {
                             escape_operand(operand, escaped);
@@ -934,6 +938,56 @@ pub(crate) fn escaping_roots(
     (escaped, register_places)
 }
 
+/// Whether `func` writes through a place it did not allocate itself, that is one it borrowed from
+/// an addressor or a projection.
+fn writes_through_borrow(func: &Function, register_places: &PlaceBindings) -> bool {
+    let mut slots = FxHashSet::default();
+    for block_id in func.blocks() {
+        for operation in func.block(block_id).operations() {
+            if matches!(operation.kind, OperationKind::AllocaPlace { .. })
+                && let Some(result) = operation.result_id()
+            {
+                slots.insert(result);
+            }
+        }
+    }
+    let borrowed = |operand: &mir::Value| match operand {
+        mir::Value::Register(id) => {
+            register_places.root_of(operand).is_none() && !slots.contains(id)
+        }
+        _ => false,
+    };
+    let writes = |operation: &Operation| {
+        let operands = &operation.operands;
+        match &operation.kind {
+            OperationKind::Store | OperationKind::Memcpy | OperationKind::Clone { .. } => {
+                borrowed(&operands[1])
+            }
+            OperationKind::Move => borrowed(&operands[0]) || borrowed(&operands[1]),
+            OperationKind::Clear | OperationKind::Drop { .. } => borrowed(&operands[0]),
+            OperationKind::BuildArray { .. } => operands.last().is_some_and(borrowed),
+            OperationKind::Call { ty, .. } => match call_operands(operands, ty) {
+                Some(call) => {
+                    borrowed(call.result)
+                        || call.arguments.iter().any(|(operand, convention)| {
+                            matches!(convention, ArgConvention::MutableRef) && borrowed(operand)
+                        })
+                }
+                None => operands.iter().any(borrowed),
+            },
+            _ => false,
+        }
+    };
+    func.blocks().any(|block_id| {
+        let block = func.block(block_id);
+        block.operations().iter().any(writes)
+            || matches!(
+                &block.terminator().kind,
+                TerminatorKind::Invoke { operation, .. } if writes(operation)
+            )
+    })
+}
+
 /// How a `call` operation uses each of its operands.
 ///
 /// The layout is `[callee, extras.., args.., ret]`, matching the callee's parameter order
-- 
2.43.0


From 925186e114be19134e1aad6d0c06002d0e3d48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 22/46] fix: text pushed onto a string that composes with its
 end stays normalized and inspected escapes stay apart

---
 src/std/string.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/std/string.rs b/src/std/string.rs
index 5c17b07..c1f16e6 100644
--- a/src/std/string.rs
+++ b/src/std/string.rs
@@ -13,7 +13,7 @@ use std::{
     str::FromStr,
 };
 
-use unicode_normalization::UnicodeNormalization;
+use unicode_normalization::{IsNormalized, UnicodeNormalization, is_nfc_quick};
 use unicode_segmentation::UnicodeSegmentation;
 use ustr::{Ustr, ustr};
 
@@ -161,7 +161,8 @@ impl String {
 
     /// Appends already-NFC text, restoring the invariant when the join breaks it.
     ///
-    /// NFC is not closed under concatenation: text beginning with a combining mark composes with
+    /// NFC is not closed under concatenation: text beginning with a combining mark, or with another
+    /// character that may compose with a preceding one such as a Hangul vowel, composes with
     /// whatever precedes it, so only that case needs to re-normalize the whole result.
     fn push_normalized(&mut self, value: &str) {
         debug_assert!(
@@ -171,7 +172,10 @@ impl String {
         let needs_normalization = value
             .chars()
             .next()
-            .map(unicode_normalization::char::is_combining_mark)
+            .map(|first| {
+                unicode_normalization::char::is_combining_mark(first)
+                    || is_nfc_quick(std::iter::once(first)) != IsNormalized::Yes
+            })
             .unwrap_or(false);
 
         if needs_normalization {
@@ -643,7 +647,14 @@ fn compare_string(lhs: &String, rhs: &String) -> Value {
 fn inspect_string(value: &String) -> String {
     let mut output = std::string::String::new();
     output.push('"');
+    let mut after_escape = false;
     for ch in value.as_ref().chars() {
+        // A mark that could compose with the last letter of an escape must not follow it.
+        if after_escape && unicode_normalization::char::is_combining_mark(ch) {
+            output.push_str(&format!("\\u{{{:x}}}", ch as u32));
+            continue;
+        }
+        after_escape = matches!(ch, '"' | '\\') || ch.is_control();
         match ch {
             '"' => output.push_str("\\\""),
             '\\' => output.push_str("\\\\"),
-- 
2.43.0


From 64f1dce9cc5009b67b43f434d8dca9e640093d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 23/46] fix: an implementation whose evidence has open effects
 is selected over the derived one

---
 src/types/trait_solver.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index 491278b..dc7d44e 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -2836,7 +2836,11 @@ impl<'a> TraitSolver<'a> {
                         .output_effs
                         .iter()
                         .zip(output_effs.iter())
-                        .all(|(solved_eff, constraint_eff)| solved_eff == constraint_eff))
+                        .all(|(solved_eff, constraint_eff)| {
+                            // An effect variable left open by the blanket match accepts
+                            // whatever effect the selected impl has.
+                            constraint_eff.has_variables() || solved_eff == constraint_eff
+                        }))
             {
                 return Ok(false);
             }
@@ -2903,7 +2907,11 @@ impl<'a> TraitSolver<'a> {
                         .output_effs
                         .iter()
                         .zip(output_effs.iter())
-                        .all(|(solved_eff, constraint_eff)| solved_eff == constraint_eff))
+                        .all(|(solved_eff, constraint_eff)| {
+                            // An effect variable left open by the blanket match accepts
+                            // whatever effect the selected impl has.
+                            constraint_eff.has_variables() || solved_eff == constraint_eff
+                        }))
             {
                 return Ok(None);
             }
-- 
2.43.0


From f2f95f748ede500633c6926ab8750c001e90a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 24/46] fix: maps compare entries as the pairs their iteration
 gives

---
 src/std/prelude/hash_collections.fer | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std/prelude/hash_collections.fer b/src/std/prelude/hash_collections.fer
index c94b778..0125f80 100644
--- a/src/std/prelude/hash_collections.fer
+++ b/src/std/prelude/hash_collections.fer
@@ -356,12 +356,12 @@ where
     }
 }
 
-fn hash_map_contains_entry<K, V>(collection: HashMap<K, V>, entry: HashMapEntry<K, V>) -> bool
+fn hash_map_contains_entry<K, V>(collection: HashMap<K, V>, entry: (K, V)) -> bool
 where
     K: Value,
     V: Value
 {
-    map_contains_key_value(collection, entry.key, entry.value)
+    map_contains_key_value(collection, entry.0, entry.1)
 }
 
 impl<K, V> Iterator for <Self = HashMapIterator<K, V> |-> Item = (K, V)>
-- 
2.43.0


From cb6b6b42eaff409fe38b82773a8c0440eee27ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 25/46] fix: a failing member inspection drops the text
 rendered so far

---
 src/std/value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/std/value.rs b/src/std/value.rs
index 1fddd7f..d3a6275 100644
--- a/src/std/value.rs
+++ b/src/std/value.rs
@@ -1075,6 +1075,7 @@ fn derive_structural_text_body(
             )?)
         };
     }
+    let inspect_trait_id = ctx.solver.std_trait_id(INSPECT_TRAIT_NAME);
     let build_string_block = |arena: &mut NodeArena,
                               solver: &mut TraitSolver<'_>,
                               locals: &mut Vec<LocalDecl>,
@@ -1119,7 +1120,13 @@ fn derive_structural_text_body(
         }
         let rendered = n(arena, take_local_value(l_rendered_id), string_type());
         statements.push(rendered);
-        Ok(n(arena, block(statements), string_type()))
+        // Inspecting a member can fail: the text rendered so far must then be dropped.
+        let root = if trait_id == inspect_trait_id {
+            block_with_cleanup(statements, vec![l_rendered_id])
+        } else {
+            block(statements)
+        };
+        Ok(n(arena, root, string_type()))
     };
 
     let locals = vec![local("self", ty)];
-- 
2.43.0


From 86e1b1787630990ba3e81920c5033ddff468af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 26/46] fix: remove an import the variant binding repair left
 unused

---
 src/types/type_inference/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 3bba48b..a08a802 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -10,7 +10,7 @@ use std::borrow::Borrow;
 
 use derive_new::new;
 use ena::unify::InPlaceUnificationTable;
-use smallvec::{SmallVec, smallvec};
+use smallvec::SmallVec;
 use ustr::{Ustr, ustr};
 
 use super::substitution::InstSubst;
-- 
2.43.0


From 64116e1075fc47193287ba433e280b182d73ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 27/46] fix: a failure inside derived deserialization stops the
 MIR interpreter

---
 src/hir/value_dispatch.rs | 28 ++++++++++++++++++++++++++--
 src/std/serde.rs          | 27 +++++++++++++++++++--------
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/hir/value_dispatch.rs b/src/hir/value_dispatch.rs
index 6514f1f..b62ec70 100644
--- a/src/hir/value_dispatch.rs
+++ b/src/hir/value_dispatch.rs
@@ -222,9 +222,33 @@ pub(crate) fn static_apply_generated_with_locals(
     arguments: impl IntoIterator<Item = (NodeId, Type)>,
     ret_ty: Type,
     span: Location,
+) -> Result<NodeId, InternalCompilationError> {
+    static_apply_generated_with_effects(
+        arena,
+        locals,
+        trait_solver,
+        function,
+        arguments,
+        ret_ty,
+        EffType::empty(),
+        span,
+    )
+}
+
+/// Like [`static_apply_generated_with_locals`], for a callee that has effects.
+#[allow(clippy::too_many_arguments)]
+pub(crate) fn static_apply_generated_with_effects(
+    arena: &mut NodeArena,
+    locals: &mut Vec<LocalDecl>,
+    trait_solver: &mut TraitSolver<'_>,
+    function: FunctionId,
+    arguments: impl IntoIterator<Item = (NodeId, Type)>,
+    ret_ty: Type,
+    effects: EffType,
+    span: Location,
 ) -> Result<NodeId, InternalCompilationError> {
     let (mut arguments, args_tys): (Vec<_>, Vec<_>) = arguments.into_iter().unzip();
-    let fn_ty = FnType::new_by_val(args_tys, ret_ty, EffType::empty());
+    let fn_ty = FnType::new_by_val(args_tys, ret_ty, effects.clone());
     let prepared = prepare_generated_call_arguments_with_locals(
         arena,
         locals,
@@ -242,7 +266,7 @@ pub(crate) fn static_apply_generated_with_locals(
             span,
         ),
         ret_ty,
-        EffType::empty(),
+        effects,
         span,
     ));
 
diff --git a/src/std/serde.rs b/src/std/serde.rs
index f49154b..e4860c6 100644
--- a/src/std/serde.rs
+++ b/src/std/serde.rs
@@ -21,7 +21,7 @@ use crate::{
         function::CallableDefinition,
         value_dispatch::{
             materialize_static_string, prepare_generated_call_arguments_with_locals,
-            static_apply_generated_with_locals,
+            static_apply_generated_with_effects,
         },
     },
     module::{
@@ -88,17 +88,23 @@ fn build_serialize_projection(
         span,
         arena,
     )?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(project_node, member_ty)],
         data_value_type(),
+        fallible(),
         span,
     )
 }
 
+/// The effects of every (de)serialization method and of the functions they call.
+fn fallible() -> EffType {
+    EffType::single_primitive(PrimitiveEffect::Fallible)
+}
+
 fn record_payload_type() -> Type {
     cached_ty!(|| {
         let element_ty = tuple_type([string_type(), data_value_type()]);
@@ -386,13 +392,14 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                                  ty: Type| {
             let function =
                 solver.solve_impl_method(trait_id, &[ty], TraitMethodIndex::new(0), span, arena)?;
-            static_apply_generated_with_locals(
+            static_apply_generated_with_effects(
                 arena,
                 locals,
                 solver,
                 function,
                 [(data, data_value_type())],
                 ty,
+                fallible(),
                 Location::new_synthesized(),
             )
         };
@@ -493,7 +500,7 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                             FnArgType::new_by_val(int_type()),
                         ],
                         data_value_ty,
-                        EffType::empty(),
+                        fallible(),
                     );
                     let mut arguments = arguments;
                     let prepared = prepare_generated_call_arguments_with_locals(
@@ -598,13 +605,14 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                         span,
                         arena,
                     )?;
-                    static_apply_generated_with_locals(
+                    static_apply_generated_with_effects(
                         arena,
                         &mut locals,
                         solver,
                         function,
                         [(get_entry, data_value_type())],
                         ty,
+                        fallible(),
                         Location::new_synthesized(),
                     )
                 })
@@ -773,13 +781,14 @@ fn build_panic(
 
     let build_string = materialize_static_string(arena, locals, solver, message, span)?;
     let function = solver.get_function(span, &module::Path::single_str("std"), ustr("panic"))?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(build_string, string_type())],
         Type::never(),
+        fallible(),
         span,
     )
 }
@@ -854,13 +863,14 @@ fn build_data_value_to_x(
         &module::Path::single_str("std"),
         ustr(&format!("data_value_to_{what}")),
     )?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(data_value_node, data_value_type())],
         ret_ty,
+        fallible(),
         span,
     )
 }
@@ -885,13 +895,14 @@ fn build_expect_data_value_record_entry(
         &module::Path::single_str("std"),
         ustr("expect_data_value_record_entry"),
     )?;
-    static_apply_generated_with_locals(
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
         function,
         [(fields, payload_ty), (name_node, string_type())],
         data_value_type(),
+        fallible(),
         span,
     )
 }
-- 
2.43.0


From fb076637d8adefb6a977be18afd6ea81811ae207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 28/46] fix: deserialization ignores surplus tuple elements and
 unit variant payloads

---
 src/std/prelude/serde_impl.fer | 11 +++++-
 src/std/serde.rs               | 65 ++++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/src/std/prelude/serde_impl.fer b/src/std/prelude/serde_impl.fer
index 6a00d36..7c765b5 100644
--- a/src/std/prelude/serde_impl.fer
+++ b/src/std/prelude/serde_impl.fer
@@ -67,6 +67,15 @@ pub fn data_value_to_tuple(v: DataValue) {
 	}
 }
 
+/// Downcasts a data value to a tuple payload of the given length, panicking if it is not such a tuple.
+pub fn data_value_to_sized_tuple(v: DataValue, length: int) -> [DataValue] {
+	let values = data_value_to_tuple(v);
+	if array_len(values) != length {
+		panic("Expected Tuple or Array data value of another length")
+	};
+	values
+}
+
 /// Downcasts a data value to a record payload, panicking if it is not a record.
 pub fn data_value_to_record(v: DataValue) {
 	match (v) {
@@ -266,7 +275,7 @@ where
 			},
 			DataValue::Array(entries) => {
 				for entry in entries {
-					let pair = data_value_to_tuple(entry);
+					let pair = data_value_to_sized_tuple(entry, 2);
 					map_insert(result, deserialize(pair[0]), deserialize(pair[1]));
 				}
 			},
diff --git a/src/std/serde.rs b/src/std/serde.rs
index e4860c6..a6c7f50 100644
--- a/src/std/serde.rs
+++ b/src/std/serde.rs
@@ -438,7 +438,7 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
             Example source code for deserialization of a tuple:
             impl Deserialize {
                 fn deserialize(data: DataValue) -> (_, _) {
-                    let arr = std::data_value_to_tuple(data);
+                    let arr = std::data_value_to_sized_tuple(data, 2);
                     (
                         deserialize(arr[0]),
                         deserialize(arr[1]),
@@ -447,7 +447,13 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
             }
             */
             // extract the tuple payload from the data value
-            let get_array = build_data_value_to_tuple(arena, &mut locals, solver, load_data_value)?;
+            let get_array = build_data_value_to_sized_tuple(
+                arena,
+                &mut locals,
+                solver,
+                load_data_value,
+                tys.len(),
+            )?;
             let data_value_ty = data_value_type();
             let array_ty = array_type(data_value_ty);
             let value_trait_id = solver.std_trait_id(VALUE_TRAIT_NAME);
@@ -669,23 +675,18 @@ impl Deriver for AlgebraicTypeDeserializeDeriver {
                 .map(|(tag, payload_ty)| {
                     let tag_value =
                         LiteralValue::new_native(crate::std::string::StaticStr::new(&tag));
-                    let build_variant = if payload_ty != Type::unit() {
-                        // variant with payload
-                        let load_variant_for_payload =
-                            n(arena, load_local(l_variant_id), variant_payload_type());
-                        let get_data = n(
-                            arena,
-                            project(load_variant_for_payload, ProjectionIndex::from_index(1)),
-                            data_value_type(),
-                        );
-                        let deserialize =
-                            build_deserialize(arena, &mut locals, solver, get_data, payload_ty)?;
-                        n(arena, variant(tag, deserialize), ty)
-                    } else {
-                        // variant without payload
-                        let payload = n(arena, native(()), Type::unit());
-                        n(arena, variant(tag, payload), ty)
-                    };
+                    // A variant without payload deserializes its unit payload too, so that
+                    // extraneous data is refused.
+                    let load_variant_for_payload =
+                        n(arena, load_local(l_variant_id), variant_payload_type());
+                    let get_data = n(
+                        arena,
+                        project(load_variant_for_payload, ProjectionIndex::from_index(1)),
+                        data_value_type(),
+                    );
+                    let deserialize =
+                        build_deserialize(arena, &mut locals, solver, get_data, payload_ty)?;
+                    let build_variant = n(arena, variant(tag, deserialize), ty);
                     Ok((tag_value, build_variant))
                 })
                 .collect::<Result<Vec<_>, _>>()?;
@@ -793,19 +794,37 @@ fn build_panic(
     )
 }
 
-fn build_data_value_to_tuple(
+fn build_data_value_to_sized_tuple(
     arena: &mut NodeArena,
     locals: &mut Vec<LocalDecl>,
     solver: &mut TraitSolver,
     data_value_node: NodeId,
+    length: usize,
 ) -> Result<NodeId, InternalCompilationError> {
-    build_data_value_to_x(
+    let span = Location::new_synthesized();
+
+    let length_node = alloc_synth_node(
+        arena,
+        hir::hir_syn::immediate(LiteralValue::new_native(length as isize)),
+        int_type(),
+    );
+    let function = solver.get_function(
+        span,
+        &module::Path::single_str("std"),
+        ustr("data_value_to_sized_tuple"),
+    )?;
+    static_apply_generated_with_effects(
         arena,
         locals,
         solver,
-        "tuple",
+        function,
+        [
+            (data_value_node, data_value_type()),
+            (length_node, int_type()),
+        ],
         array_type(data_value_type()),
-        data_value_node,
+        fallible(),
+        span,
     )
 }
 
-- 
2.43.0


From cd2657f3ea6cb017e9628805c7cfc5f7615e340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 29/46] fix: a variant holding a lone record does not read back
 from data text

---
 src/std/data_text.rs          | 4 +++-
 src/std/prelude/data_text.fer | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/std/data_text.rs b/src/std/data_text.rs
index 50ecece..bec3e02 100644
--- a/src/std/data_text.rs
+++ b/src/std/data_text.rs
@@ -292,10 +292,12 @@ impl<'a> Parser<'a> {
                         ));
                     }
                     let mut args = Vec::new();
+                    let mut has_comma = false;
                     loop {
                         args.push(self.parse_value()?);
                         self.skip_ws_and_comments()?;
                         if self.consume_char(',') {
+                            has_comma = true;
                             self.skip_ws_and_comments()?;
                             if self.consume_char(')') {
                                 break;
@@ -305,7 +307,7 @@ impl<'a> Parser<'a> {
                         self.expect_char(')')?;
                         break;
                     }
-                    let payload = if args.len() == 1 && is_record_data(&args[0]) {
+                    let payload = if args.len() == 1 && !has_comma && is_record_data(&args[0]) {
                         args.pop().expect("single argument exists")
                     } else {
                         data_array_variant("Tuple", args)
diff --git a/src/std/prelude/data_text.fer b/src/std/prelude/data_text.fer
index 6953697..58021fa 100644
--- a/src/std/prelude/data_text.fer
+++ b/src/std/prelude/data_text.fer
@@ -139,6 +139,13 @@ pub fn to_data_text(v: DataValue) -> string {
 								string_push_str(result, ", ");
 							};
 							string_push_str(result, to_data_text(values[i]));
+						};
+						// A lone record would otherwise read back as the fields of the variant.
+						if array_len(values) == 1 {
+							match (values[0]) {
+								DataValue::Record(_fields) => string_push_str(result, ","),
+								_ => (),
+							}
 						}
 					},
 					_ => string_push_str(result, to_data_text(payload)),
-- 
2.43.0


From dbc614bbd63e042a62467333c3406f3bdc5dce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 30/46] fix: large floats do not read back from data text

---
 src/std/data_text.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/std/data_text.rs b/src/std/data_text.rs
index bec3e02..509120e 100644
--- a/src/std/data_text.rs
+++ b/src/std/data_text.rs
@@ -444,10 +444,16 @@ impl<'a> Parser<'a> {
             }
             Ok(data_variant("Float", float_value(value)))
         } else {
-            let value = text
-                .parse::<isize>()
-                .map_err(|_| self.error("Invalid int literal"))?;
-            Ok(data_variant("Int", int_value(value)))
+            // As in JSON, a number that does not fit an integer is a float.
+            if let Ok(value) = text.parse::<isize>() {
+                Ok(data_variant("Int", int_value(value)))
+            } else if let Ok(value) = text.parse::<f64>()
+                && value.is_finite()
+            {
+                Ok(data_variant("Float", float_value(value)))
+            } else {
+                Err(self.error("Invalid int literal"))
+            }
         }
     }
 }
-- 
2.43.0


From 49f69e5f89fa97df12438df435e81fb12e74cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:39 +0000
Subject: [PATCH 31/46] fix: deeply nested JSON or data text exhausts the stack

---
 src/std/data_text.rs | 15 +++++++++++++++
 src/std/json.rs      | 17 +++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/std/data_text.rs b/src/std/data_text.rs
index 509120e..b02a309 100644
--- a/src/std/data_text.rs
+++ b/src/std/data_text.rs
@@ -90,14 +90,19 @@ fn escape_data_text_string(input: &Str) -> Str {
 struct Parser<'a> {
     input: &'a str,
     pos: usize,
+    depth: usize,
     variant_case_storage: VariantPayloadStorage,
 }
 
+/// How deep values may nest in data text, so that hostile text cannot exhaust the stack.
+const MAX_NESTING: usize = 512;
+
 impl<'a> Parser<'a> {
     fn new(input: &'a str, variant_case_storage: VariantPayloadStorage) -> Self {
         Self {
             input,
             pos: 0,
+            depth: 0,
             variant_case_storage,
         }
     }
@@ -171,6 +176,16 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_value(&mut self) -> Result<Value, SourceFailureKind> {
+        if self.depth == MAX_NESTING {
+            return Err(self.error("Data value nested too deeply"));
+        }
+        self.depth += 1;
+        let value = self.parse_nested_value();
+        self.depth -= 1;
+        value
+    }
+
+    fn parse_nested_value(&mut self) -> Result<Value, SourceFailureKind> {
         self.skip_ws_and_comments()?;
         match self.peek_char() {
             Some('"') => self
diff --git a/src/std/json.rs b/src/std/json.rs
index e4e51a6..81f3a7d 100644
--- a/src/std/json.rs
+++ b/src/std/json.rs
@@ -67,9 +67,18 @@ enum ParseResult {
     EndObject,
 }
 
+/// How deep JSON values may nest, so that hostile text cannot exhaust the stack.
+const MAX_NESTING: usize = 512;
+
 fn parse_json_stream<R: Read>(
     reader: &mut ReaderJsonParser<R>,
+    depth: usize,
 ) -> Result<ParseResult, SourceFailureKind> {
+    if depth > MAX_NESTING {
+        return Err(SourceFailureKind::InvalidArgument(
+            "Failed to parse JSON: nested too deeply".into(),
+        ));
+    }
     let variant = |tag, value| Value::tuple_variant(ustr(tag), [value]);
     let event = next_event(reader)?;
     use json_event_parser::JsonEvent::*;
@@ -94,7 +103,7 @@ fn parse_json_stream<R: Read>(
         StartArray => {
             let mut items = Vec::new();
             loop {
-                let item = parse_json_stream(reader)?;
+                let item = parse_json_stream(reader, depth + 1)?;
                 match item {
                     ParseResult::Value(v) => items.push(v),
                     ParseResult::Key(_) => panic!("Unexpected object key in array"),
@@ -108,14 +117,14 @@ fn parse_json_stream<R: Read>(
         StartObject => {
             let mut fields = Vec::new();
             loop {
-                let key_or_end = parse_json_stream(reader)?;
+                let key_or_end = parse_json_stream(reader, depth + 1)?;
                 let key = match key_or_end {
                     ParseResult::Value(_) => panic!("Unexpected value in object"),
                     ParseResult::Key(k) => k,
                     ParseResult::EndArray => panic!("Unexpected end of array in object"),
                     ParseResult::EndObject => break,
                 };
-                let value = parse_json_stream(reader)?
+                let value = parse_json_stream(reader, depth + 1)?
                     .into_value()
                     .expect("Expected value in object");
                 let tuple = Value::tuple([string_value(key.as_ref()), value]);
@@ -133,7 +142,7 @@ fn parse_json_stream<R: Read>(
 fn parse_json(input: &Str) -> Result<Value, SourceFailureKind> {
     let reader = Cursor::new(input.as_ref().as_bytes());
     let mut reader = ReaderJsonParser::new(reader);
-    let value = parse_json_stream(&mut reader)?;
+    let value = parse_json_stream(&mut reader, 0)?;
     let eof_event = next_event(&mut reader)?;
     if let json_event_parser::JsonEvent::Eof = eof_event {
         Ok(value.into_value().unwrap())
-- 
2.43.0


From f477c42daeee690faf5ba338f0991672be30ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 32/46] fix: a failing callback of a lazily mapped or filtered
 iterator stops the MIR interpreter

---
 src/types/trait_solver.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index dc7d44e..d22ec86 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -2379,9 +2379,12 @@ impl<'a> TraitSolver<'a> {
         let concrete_scheme = &concrete_definition.ty_scheme;
         let mut target_eff_vars = concrete_scheme.ty.inner_effect_vars();
         target_eff_vars.extend(concrete_scheme.eff_quantifiers.iter().copied());
+        // The reconstructed definition still quantifies the effects that occur only in the method's
+        // own effects, such as those of an impl constraint; the registered method does not.
         let eff_args = generic_definition
             .ty_scheme
-            .eff_quantifiers
+            .ty
+            .input_effect_vars()
             .iter()
             .sorted()
             .map(|quantifier| {
-- 
2.43.0


From 68dbb7cd44aa4d41c33f3578b010849f084462e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:07 +0000
Subject: [PATCH 33/46] fix: an interrupted variant payload or generic result
 is dropped as a complete value

---
 src/mir/interpreter.rs | 66 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/mir/interpreter.rs b/src/mir/interpreter.rs
index effae31..5aa995c 100644
--- a/src/mir/interpreter.rs
+++ b/src/mir/interpreter.rs
@@ -615,6 +615,7 @@ impl<'a> Interpreter<'a> {
                     let error = pending
                         .take()
                         .expect("propagate_error reached without an in-flight source failure");
+                    self.complete_interrupted_result(func, &slots);
                     self.discard_inactive_bindings(slots);
                     return Err(error);
                 }
@@ -713,9 +714,8 @@ impl<'a> Interpreter<'a> {
                 // Build a tagged variant shell with an uninitialized payload. The constructing site
                 // stores it into the variant's destination and then fills the payload in place
                 // through a projection of that destination, so the payload aggregate is never
-                // materialized into a temporary. A flat `Uninit` payload grows into the right
-                // aggregate skeleton on the first field store (see `grow_value_to_path`); a unit
-                // payload is written explicitly by the emitter.
+                // materialized into a temporary. A unit payload is written explicitly by the
+                // emitter.
                 let storage = storage.unwrap_or_else(|| {
                     let evidence = self.place_operand(slots, &operation.operands[0]);
                     VariantPayloadStorage::from_indirect(
@@ -728,9 +728,14 @@ impl<'a> Interpreter<'a> {
                 });
                 let mut shell = Value::variant_shell(*tag, storage);
                 if metadata.payload_ty != Type::unit() {
-                    // Materialize the payload slot, so that cleanup can tell a shell whose payload
-                    // is still missing from a case that carries nothing.
-                    shell.variant_payload_mut();
+                    // Materialize the payload slot in its full shape, so that cleanup can tell a
+                    // shell whose payload is still missing, in whole or in part, from a case that
+                    // carries nothing and from a complete payload.
+                    let payload = self.shaped_uninitialized_value(metadata.payload_ty);
+                    match shell.variant_payload_mut() {
+                        Some(slot) => std::mem::replace(slot, payload).discard_storage(),
+                        None => payload.discard_storage(),
+                    }
                 }
                 Self::bind(slots, def.unwrap(), Binding::Value(shell));
             }
@@ -1580,11 +1585,10 @@ impl<'a> Interpreter<'a> {
         }
     }
 
-    /// Reads the value at `place` for the call-boundary check, returning `None` when the place
+    /// Reads the value at `place` for the checks at a call boundary, returning `None` when the place
     /// projects through (or ends at) uninitialized storage — that slot is simply not initialized,
     /// which the contract treats as a husk. Unlike [`Place::target_ref_allow_uninit`], this never
     /// panics on an uninitialized (or otherwise non-navigable) intermediate.
-    #[cfg(debug_assertions)]
     fn boundary_pointee(&self, place: &Place) -> Option<&Value> {
         let mut path: VecDeque<isize> = place.path.iter().copied().collect();
         let mut index = place.root;
@@ -2134,6 +2138,36 @@ impl<'a> Interpreter<'a> {
         }
     }
 
+    /// Gives a partially written result the full shape of the function's return type.
+    ///
+    /// A generic caller provides flat storage, which grows only up to the components written before
+    /// the failure. Its cleanup must be able to tell such a result from a complete one.
+    fn complete_interrupted_result(
+        &mut self,
+        func: &mir::Function,
+        slots: &FxHashMap<mir::Value, Binding>,
+    ) {
+        for (index, parameter) in func.parameters().iter().enumerate() {
+            if parameter.kind != mir::ParameterKind::Return {
+                continue;
+            }
+            let id = mir::Value::Parameter(mir::ParameterId::from_index(index));
+            let Some(Binding::Place(place)) = slots.get(&id) else {
+                continue;
+            };
+            if self
+                .boundary_pointee(place)
+                .is_some_and(|value| matches!(value, Value::Tuple(_)) && !is_drop_husk(value))
+            {
+                let skeleton = self.shaped_uninitialized_value(parameter.ty);
+                if let Ok(value) = place.target_mut(&mut self.ctx) {
+                    grow_value_to_shape(value, &skeleton);
+                }
+                skeleton.discard_storage();
+            }
+        }
+    }
+
     /// Ensures every aggregate step along `place`'s path exists (growing flat-`Uninit` cells into
     /// `Tuple`s with enough `Uninit` leaves), so a subsequent field store can address the leaf.
     ///
@@ -2619,7 +2653,9 @@ fn read_copy(v: &Value) -> Option<Value> {
         let storage = v.variant_payload_storage().unwrap();
         return Some(match v.variant_payload() {
             None => Value::variant_shell(tag, storage),
-            Some(Value::Uninit) => Value::variant_with_storage(tag, storage, Value::uninit()),
+            Some(payload) if is_drop_husk(payload) => {
+                Value::variant_with_storage(tag, storage, husk_like(payload))
+            }
             Some(payload) => Value::variant_with_storage(tag, storage, read_copy(payload)?),
         });
     }
@@ -2688,6 +2724,18 @@ fn grow_value_to_path(value: &mut Value, path: &[isize]) {
     }
 }
 
+/// Adds to `value` the components of `skeleton` that were never written.
+fn grow_value_to_shape(value: &mut Value, skeleton: &Value) {
+    if let (Value::Tuple(fields), Value::Tuple(skeletons)) = (value, skeleton) {
+        for (index, skeleton) in skeletons.iter().enumerate() {
+            match fields.get_mut(index) {
+                Some(field) => grow_value_to_shape(field, skeleton),
+                None => fields.push(husk_like(skeleton)),
+            }
+        }
+    }
+}
+
 /// Wraps the husk skeletons of an aggregate's `fields` into a husk value.
 ///
 /// This is **the** chokepoint for the empty-aggregate invariant (see `doc/mir-uninit-tracking.md`):
-- 
2.43.0


From f34ffaa5408fac5cfc7e5d9f6a122ae310643b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:44 +0000
Subject: [PATCH 34/46] fix: an element address is reused after the index that
 selects it was written

---
 src/mir/pass/cse.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/mir/pass/cse.rs b/src/mir/pass/cse.rs
index 51ddd47..6f25b22 100644
--- a/src/mir/pass/cse.rs
+++ b/src/mir/pass/cse.rs
@@ -22,7 +22,8 @@
 //! returned place. The expression key excludes only the out-slot. Calls which receive that storage
 //! root mutably invalidate its available addresses; structural writes and stack restoration do too,
 //! while writing a value through an addressor-produced leaf does not reallocate its containing
-//! object. An `invoke` generates the expression only on its normal edge. Joins intersect available
+//! object. Any write to an argument which selects the place, such as an index, also invalidates the
+//! address. An `invoke` generates the expression only on its normal edge. Joins intersect available
 //! expressions, so a reused pointer always comes from a call which succeeded on every path.
 //!
 //! **Value availability.** A value call is eligible only when it is statically known, its effects
@@ -370,6 +371,8 @@ enum AvailableCall {
     Addressor {
         output: mir::Value,
         root: Root,
+        /// Roots of the arguments the place is selected by, whose contents the address depends on.
+        selectors: Box<[Root]>,
     },
     Value {
         output: mir::Value,
@@ -895,9 +898,18 @@ fn call_expression(
                 return None;
             };
             let (base, _) = call.arguments.get(index as usize)?;
+            let selectors = call
+                .arguments
+                .iter()
+                .enumerate()
+                .filter(|(position, _)| *position != index as usize)
+                .map(|(_, (argument, _))| origins.origin_of(argument).map(|origin| origin.root))
+                .collect::<Option<Vec<_>>>()?
+                .into_boxed_slice();
             AvailableCall::Addressor {
                 output: call.result.clone(),
                 root: origins.origin_of(base)?.root,
+                selectors,
             }
         }
         CallResultConvention::Value => {
@@ -952,14 +964,18 @@ fn call_expression(
 
 fn forget_write(state: &mut AvailableCalls, origins: &PlaceOrigins, destination: &mir::Value) {
     let Some(origin) = origins.origin_of(destination) else {
-        // An unknown destination may alias a value input. Repeatable addressors remain independent
-        // of leaf writes, and structural operations with unknown provenance clear the whole state
-        // separately.
-        state.retain(|_, available| matches!(available, AvailableCall::Addressor { .. }));
+        // An unknown destination may alias a value input or an addressor's selector. The address a
+        // repeatable addressor computes is otherwise independent of leaf writes, and structural
+        // operations with unknown provenance clear the whole state separately.
+        state.retain(|_, available| {
+            matches!(available, AvailableCall::Addressor { selectors, .. } if selectors.is_empty())
+        });
         return;
     };
     state.retain(|_, available| match available {
-        AvailableCall::Addressor { root, .. } => !origin.structural || *root != origin.root,
+        AvailableCall::Addressor {
+            root, selectors, ..
+        } => (!origin.structural || *root != origin.root) && !selectors.contains(&origin.root),
         AvailableCall::Value {
             dependencies,
             output_root,
@@ -972,8 +988,9 @@ fn forget_root(state: &mut AvailableCalls, root: Root) {
     state.retain(|_, available| match available {
         AvailableCall::Addressor {
             root: available_root,
+            selectors,
             ..
-        } => *available_root != root,
+        } => *available_root != root && !selectors.contains(&root),
         AvailableCall::Value {
             dependencies,
             output_root,
-- 
2.43.0


From 7eb5ceef31bb8c5b8c7a575ff93200644ec50d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:55 +0000
Subject: [PATCH 35/46] fix: a value projected through several fields with a
 deferred type is never dropped

---
 src/types/type_inference/expr.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index a08a802..2b08e75 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -3531,16 +3531,23 @@ impl TypeInference {
                 // step produced an owned value (for example `array[i].field`).
                 // Keep that value in an explicit owned temporary for the
                 // dynamic extent of the remaining chain.
-                let projection_receiver_needs_temp =
-                    matches!(&*place_ty.data(), TypeKind::Variable(_))
-                        && !node_is_place_reference(env.ir_arena, place_node);
+                let projection_receiver_is_deferred =
+                    matches!(&*place_ty.data(), TypeKind::Variable(_));
                 let temp_start_index = env.cur_locals.len();
                 let mut temp_stores = Vec::new();
-                let place_node = if projection_receiver_needs_temp {
+                let place_node = if !projection_receiver_is_deferred {
+                    place_node
+                } else if !node_is_place_reference(env.ir_arena, place_node) {
                     let (store, load) =
                         self.store_owned_temp(env, place_node, place_ty, expr_span, ustr("$place"));
                     temp_stores.push(store);
                     load
+                } else if place_resolution_may_create_temp(env.ir_arena, place_node) {
+                    // The receiver projects out of an owned value (for example
+                    // `make().field.other`): that value is what has to be kept.
+                    let prepared = self.prepare_place_for_consumer(env, place_node, expr_span);
+                    temp_stores = prepared.prefix;
+                    prepared.place
                 } else {
                     place_node
                 };
-- 
2.43.0


From 011fca198a601506b7fc78ef99efa557070cd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 36/46] fix: variant storage evidence of a generic call is
 never reclaimed by the interpreter

---
 src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 89d9eed..2cdb24f 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -1822,10 +1822,11 @@ fn eval_hidden_evidence_arg_node(
         ));
     }
     let value = eval_or_return!(eval_node_with_ctx(arena, node, ctx, locals));
-    if let Some(indirect) = value.as_primitive_ty::<bool>() {
+    if let Some(indirect) = value.as_primitive_ty::<bool>().copied() {
+        value.discard_storage();
         return Ok(ControlFlow::Continue(
             HiddenEvidenceArgValue::VariantPayloadStorage(
-                crate::hir::value::VariantPayloadStorage::from_indirect(*indirect),
+                crate::hir::value::VariantPayloadStorage::from_indirect(indirect),
             ),
         ));
     }
-- 
2.43.0


From 0bfbb75a6af2f0555ad876d1c5200e24a343847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 37/46] fix: an argument or a place kept for an enclosing scope
 is discarded before that scope drops it

---
 src/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval.rs b/src/eval.rs
index 2cdb24f..b7a470a 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -3547,6 +3547,9 @@ fn eval_block_with_cleanup(
     cleanup_drops: &[LocalDeclId],
 ) -> EvalControlFlowResult {
     let env_size = ctx.environment.len();
+    // The locals dropped by this block can be initialized by a nested block or call, which
+    // discards its own scratch storage when it ends: keep their slots out of its reach.
+    ctx.reserve_current_frame_slots(locals);
     let mut last_value: Option<Value> = None;
     for node in nodes.iter() {
         match eval_node_with_ctx(arena, *node, ctx, locals) {
-- 
2.43.0


From 12a241148ab2be5d9ab0cfc85b4a0cee373f1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 38/46] fix: a field of a computed value with a deferred type
 is dropped twice as an argument

---
 src/types/type_inference/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/type_inference/expr.rs b/src/types/type_inference/expr.rs
index 2b08e75..12f668c 100644
--- a/src/types/type_inference/expr.rs
+++ b/src/types/type_inference/expr.rs
@@ -3601,6 +3601,8 @@ impl TypeInference {
                     return Ok(result);
                 }
                 let (node, _) = result;
+                // The chain can end in a place inside the temporary, which does not outlive it.
+                let node = self.materialize_owned_value(env, node, expr_span);
                 let ty = env.ir_arena[node].ty;
                 let effects = env.ir_arena[node].effects.clone();
                 let node = self.wrap_owned_value_with_temp_drops(
-- 
2.43.0


From a68c58f006d5787c72323fb8a681f9dffa07ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 39/46] fix: a static text is appended after the stack region
 holding it is released

---
 src/mir/pass/string_accumulate.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mir/pass/string_accumulate.rs b/src/mir/pass/string_accumulate.rs
index 8e7d7dd..a4cb136 100644
--- a/src/mir/pass/string_accumulate.rs
+++ b/src/mir/pass/string_accumulate.rs
@@ -311,6 +311,14 @@ fn plan_static_append(
     {
         return None;
     }
+    // The append reads the text in place of the string: the text must still be allocated there.
+    let between = materialization.index.as_index() + 1..push.index.as_index();
+    if func.block(materialization.block).operations()[between]
+        .iter()
+        .any(|operation| matches!(operation.kind, OperationKind::StackRestore))
+    {
+        return None;
+    }
     Some(StaticAppend {
         materialization,
         push,
-- 
2.43.0


From be836f8081bd2204fc7b3108570b65a356ba450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 40/46] fix: effects bound after a trait application is
 resolved reach the outputs made of them

---
 src/types/trait_solver.rs | 49 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/types/trait_solver.rs b/src/types/trait_solver.rs
index d22ec86..676fd38 100644
--- a/src/types/trait_solver.rs
+++ b/src/types/trait_solver.rs
@@ -95,6 +95,9 @@ pub struct TraitSolver<'a> {
     /// This is deliberately per-solver. A [`TraitSolverProbe`] can hide private implementations
     /// from its source solver, so it must not inherit answers from this cache.
     unmaterialized_output_cache: FxHashMap<TraitId, Vec<TraitOutputCacheEntry>>,
+    /// The blanket implementation materialized last, with the output effects of its application:
+    /// unlike those of the implementation, they keep the requested effects they are made of.
+    last_application: Option<(TraitImplId, Vec<EffType>)>,
 }
 
 /// The trait selection context that can affect a probe's semantic answer.
@@ -134,6 +137,7 @@ impl<'a> TraitSolver<'a> {
             private_impl_scope: Vec::new(),
             privileged_impl_module: None,
             unmaterialized_output_cache: FxHashMap::default(),
+            last_application: None,
         }
     }
 
@@ -839,6 +843,35 @@ enum BlanketImplMatch {
     },
 }
 
+/// The output effects of an application of a blanket implementation whose head gives `head_effs`
+/// and whose materialization gives `materialized_effs`. Where the head makes an output effect out
+/// of another one, what was requested for the latter may still be bound by the caller, so it is
+/// part of the former.
+fn effects_of_application(
+    head_effs: &[EffType],
+    materialized_effs: &[EffType],
+    requested_effs: &[EffType],
+) -> Vec<EffType> {
+    head_effs
+        .iter()
+        .zip(materialized_effs)
+        .enumerate()
+        .map(|(index, (head, materialized))| {
+            let mut effects = materialized.clone();
+            for (other_index, (other, requested)) in head_effs.iter().zip(requested_effs).enumerate()
+            {
+                if other_index != index
+                    && let Some(var) = other.to_single_variable()
+                    && head.contains(Effect::Variable(var))
+                {
+                    effects = effects.union(requested);
+                }
+            }
+            effects
+        })
+        .collect()
+}
+
 fn trait_def_from_parts<'a>(
     current: CurrentTypeItems<'a>,
     others: &'a Modules,
@@ -3273,6 +3306,11 @@ impl<'a> TraitSolver<'a> {
                         .collect();
                     let definitions =
                         trait_def.instantiate_for_tys(input_tys, &output_tys, &method_effs);
+                    let application_effs = effects_of_application(
+                        &imp_output_effs,
+                        &output_effs,
+                        requested_output_effs.unwrap_or_default(),
+                    );
                     let generic_definitions = trait_def.instantiate_for_tys(
                         imp_input_tys,
                         &imp_output_tys,
@@ -3413,11 +3451,13 @@ impl<'a> TraitSolver<'a> {
                         let key = ConcreteTraitImplKey::new(trait_id, input_tys.to_vec());
                         self.impls.add_concrete_struct(key, imp)
                     };
+                    let impl_id = self.impl_id(self.current_type_items.module.id, local_impl_id);
+                    self.last_application = Some((impl_id, application_effs));
 
                     if imp_module_id.is_some() {
                         self.private_impl_scope.pop();
                     }
-                    return Ok(self.impl_id(self.current_type_items.module.id, local_impl_id));
+                    return Ok(impl_id);
                 }
 
                 // Value blanket impls may be recursive, so reserve the concrete impl before
@@ -3760,8 +3800,13 @@ impl<'a> TraitSolver<'a> {
             )
             .map(|impl_id| {
                 let imp = self.get_impl_data_by_id(impl_id);
-                (imp.output_tys.clone(), imp.output_effs.clone())
+                let output_effs = match &self.last_application {
+                    Some((id, effs)) if *id == impl_id => effs,
+                    _ => &imp.output_effs,
+                };
+                (imp.output_tys.clone(), output_effs.clone())
             });
+        self.last_application = None;
         self.rollback_derived_impl_state(snapshot);
         if unconstrained_output_query && let Ok((output_tys, output_effs)) = &result {
             self.cache_unmaterialized_outputs(trait_id, input_tys, output_tys, output_effs);
-- 
2.43.0


From 84148253b1578e37d955d0cd1a5e282a98054c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:51 +0000
Subject: [PATCH 41/46] fix: a call given an effectful function is evaluated at
 compile time

---
 src/mir/const_eval.rs | 11 +++++++++++
 src/mir/pass/fold.rs  | 10 +++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mir/const_eval.rs b/src/mir/const_eval.rs
index f817643..e718bd3 100644
--- a/src/mir/const_eval.rs
+++ b/src/mir/const_eval.rs
@@ -286,6 +286,17 @@ impl<'a> ConstEvaluator<'a> {
             .map_err(classify)
     }
 
+    /// Whether a function passed to a call may run at compile time. The call's own type may not say
+    /// so: dictionary methods are shared between applications that differ in effects only.
+    pub(crate) fn function_allows_const_eval(&self, function: FunctionId) -> bool {
+        self.session
+            .expect_fresh_module(function.module)
+            .get_function_by_id(function.function)
+            .is_some_and(|function| {
+                effects_allow_const_eval(&function.definition.ty_scheme.ty.effects)
+            })
+    }
+
     /// Whether the compiler can run this callee at all: a script function needs a lowered body, a
     /// native needs none.
     fn callee_has_body(&self, callee: FunctionId) -> bool {
diff --git a/src/mir/pass/fold.rs b/src/mir/pass/fold.rs
index a114432..7a5efed 100644
--- a/src/mir/pass/fold.rs
+++ b/src/mir/pass/fold.rs
@@ -1329,10 +1329,14 @@ fn try_fold_call(
                         .collect(),
                 )))
             }
-            Some(Fact::Known(Const::Function(function))) if parameter.ty.is_function() => arguments
-                .push(ConstArgument::Value(crate::hir::value::Value::function(
+            Some(Fact::Known(Const::Function(function))) if parameter.ty.is_function() => {
+                if !context.evaluator.function_allows_const_eval(function) {
+                    return discard(arguments, NotFoldable::Effectful);
+                }
+                arguments.push(ConstArgument::Value(crate::hir::value::Value::function(
                     function,
-                ))),
+                )))
+            }
             Some(Fact::Known(_)) => return discard(arguments, NotFoldable::ArgumentNotLiteral),
             _ => {
                 // The reason is irrelevant to the rewrite. Detailed provenance is computed only
-- 
2.43.0


From 3c687af99b9929a80957e065073c938fc8df1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:08 +0000
Subject: [PATCH 42/46] fix: a limit met inside a block trips the check for
 leftover locals

---
 src/eval.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index b7a470a..42624df 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -3476,11 +3476,13 @@ fn eval_block(
                 if let Some(value) = last_value.take() {
                     value.discard_storage();
                 }
-                ctx.assert_no_owned_local_leaks_before_truncate(
-                    locals,
-                    env_size,
-                    arena[*node].span,
-                );
+                if !err.is_poisoning() {
+                    ctx.assert_no_owned_local_leaks_before_truncate(
+                        locals,
+                        env_size,
+                        arena[*node].span,
+                    );
+                }
                 ctx.truncate_environment_storage(env_size);
                 return Err(err);
             }
-- 
2.43.0


From eb283be465ec117e5ebae296a24dfb8237d09d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:04 +0000
Subject: [PATCH 43/46] fix: record types with a different number of fields are
 unified

---
 src/types/type_inference/unify.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/types/type_inference/unify.rs b/src/types/type_inference/unify.rs
index 2584da2..79821b9 100644
--- a/src/types/type_inference/unify.rs
+++ b/src/types/type_inference/unify.rs
@@ -760,6 +760,15 @@ impl UnifiedTypeInference {
                 Ok(())
             }
             (Record(cur), Record(exp)) => {
+                if cur.len() != exp.len() {
+                    return Err(internal_compilation_error!(TypeMismatch {
+                        current_ty,
+                        current_span,
+                        expected_ty,
+                        expected_span,
+                        sub_or_same,
+                    }));
+                }
                 for (cur_field, exp_field) in cur.into_iter().zip(exp) {
                     if cur_field.0 != exp_field.0 {
                         return Err(internal_compilation_error!(TypeMismatch {
-- 
2.43.0


From 57d071df183f720b00a01c944bd7871ee8ac69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:04 +0000
Subject: [PATCH 44/46] fix: a record pattern that ignores every field matches
 only a unit payload

---
 src/hir/match.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hir/match.rs b/src/hir/match.rs
index b294369..6a08066 100644
--- a/src/hir/match.rs
+++ b/src/hir/match.rs
@@ -290,7 +290,7 @@ impl TypeInference {
                             .collect::<Result<Vec<_>, _>>()?;
                         // Process the inner types
                         let (inner_tys, variant_inner_ty) = match named_vars.len() {
-                            0 => (vec![], Type::unit()),
+                            0 if !has_wildcard => (vec![], Type::unit()),
                             n => {
                                 let inner_tys = self.fresh_type_var_tys(n);
                                 let variant_inner_ty = if kind.is_tuple() {
-- 
2.43.0


From 4fc99231ee33d125470ebb90aaae60d4d4315c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:11 +0000
Subject: [PATCH 45/46] fix: a destructuring let reads its source through a
 name the pattern shadows

---
 src/desugar/patterns.rs | 51 +++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/desugar/patterns.rs b/src/desugar/patterns.rs
index e0c53d0..3d42e8c 100644
--- a/src/desugar/patterns.rs
+++ b/src/desugar/patterns.rs
@@ -69,27 +69,56 @@ fn record_pattern_source_uses(fields: &[LetRecordPatternField]) -> usize {
         .count()
 }
 
-fn is_replayable_destructuring_source(expr: DExprId, desugared_arena: &DExprArena) -> bool {
-    use ExprKind::*;
-    match &desugared_arena[expr].kind {
-        Identifier(_) | Literal(_, _) => true,
-        Project(data) => is_replayable_destructuring_source(data.expr, desugared_arena),
-        FieldAccess(data) => is_replayable_destructuring_source(data.expr, desugared_arena),
-        PatternConstraint(data) => is_replayable_destructuring_source(data.expr, desugared_arena),
-        TypeAscription(data) => is_replayable_destructuring_source(data.expr, desugared_arena),
-        _ => false,
+/// Whether a binding of the pattern shadows the given name.
+fn pattern_binds(pattern: &LetPattern, name: Ustr) -> bool {
+    use LetPatternKind::*;
+    match &pattern.kind {
+        Binding { name: bound, .. } => bound.0 == name,
+        Ignore => false,
+        Tuple { elements, .. } => elements.iter().any(|element| pattern_binds(element, name)),
+        Record { fields, .. } => fields
+            .iter()
+            .any(|field| pattern_binds(&field.pattern, name)),
     }
 }
 
+/// Whether the source can be evaluated once per binding of the pattern. A local that the pattern
+/// shadows cannot: bindings that follow the shadowing one would read the new local.
+fn is_replayable_destructuring_source(
+    expr: DExprId,
+    pattern: &LetPattern,
+    desugared_arena: &DExprArena,
+) -> bool {
+    use ExprKind::*;
+    let inner = match &desugared_arena[expr].kind {
+        Identifier(path) => {
+            return match &path.segments[..] {
+                [(name, _)] => !pattern_binds(pattern, *name),
+                _ => true,
+            };
+        }
+        Literal(_, _) => return true,
+        Project(data) => data.expr,
+        FieldAccess(data) => data.expr,
+        PatternConstraint(data) => data.expr,
+        TypeAscription(data) => data.expr,
+        _ => return false,
+    };
+    is_replayable_destructuring_source(inner, pattern, desugared_arena)
+}
+
 fn maybe_materialize_destructuring_source(
     source_expr: DExprId,
+    pattern: &LetPattern,
     source_ty_ascription_span: Option<Location>,
     stmt_span: Location,
     source_uses: usize,
     ctx: &mut DesugarCtx,
     desugared_arena: &mut DExprArena,
 ) -> (DExprId, Vec<DExprId>) {
-    if source_uses <= 1 || is_replayable_destructuring_source(source_expr, desugared_arena) {
+    if source_uses <= 1
+        || is_replayable_destructuring_source(source_expr, pattern, desugared_arena)
+    {
         return (source_expr, Vec::new());
     }
 
@@ -390,6 +419,7 @@ fn expand_let_pattern(
             }
             let (tuple_source, mut statements) = maybe_materialize_destructuring_source(
                 source_expr,
+                pattern,
                 ty_ascription_span,
                 stmt_span,
                 source_uses,
@@ -449,6 +479,7 @@ fn expand_let_pattern(
             }
             let (record_source, mut statements) = maybe_materialize_destructuring_source(
                 source_expr,
+                pattern,
                 ty_ascription_span,
                 stmt_span,
                 source_uses,
-- 
2.43.0


From 44a84f915fa87c33d91d5094283e4778b20e3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:31 +0000
Subject: [PATCH 46/46] fix: an effect variable included in a closed upper
 bound is checked against it

---
 src/types/type_inference/effect_solver.rs | 31 ++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/types/type_inference/effect_solver.rs b/src/types/type_inference/effect_solver.rs
index 8d57cde..6f3e7b6 100644
--- a/src/types/type_inference/effect_solver.rs
+++ b/src/types/type_inference/effect_solver.rs
@@ -74,6 +74,7 @@ pub(crate) struct EffectSolverSnapshot {
     deferred_inclusions: Vec<EffectInclusion>,
     dependent_effects: FxHashMap<EffectVarKey, EffType>,
     dependent_inclusions: Vec<EffectInclusion>,
+    closed_inclusions: Vec<EffectInclusion>,
 }
 
 /// Solver state for inferred effect variables and effect relations.
@@ -93,6 +94,8 @@ pub(crate) struct EffectSolver {
     dependent_effects: FxHashMap<EffectVarKey, EffType>,
     /// Inclusions of such variables in an upper bound.
     dependent_inclusions: Vec<EffectInclusion>,
+    /// Inclusions of variables in an upper bound that cannot grow.
+    closed_inclusions: Vec<EffectInclusion>,
 }
 
 impl EffectSolver {
@@ -124,6 +127,7 @@ impl EffectSolver {
             deferred_inclusions: self.deferred_inclusions.clone(),
             dependent_effects: self.dependent_effects.clone(),
             dependent_inclusions: self.dependent_inclusions.clone(),
+            closed_inclusions: self.closed_inclusions.clone(),
         }
     }
 
@@ -133,6 +137,7 @@ impl EffectSolver {
         self.deferred_inclusions = snapshot.deferred_inclusions;
         self.dependent_effects = snapshot.dependent_effects;
         self.dependent_inclusions = snapshot.dependent_inclusions;
+        self.closed_inclusions = snapshot.closed_inclusions;
     }
 
     pub(super) fn add_same_constraint(
@@ -427,7 +432,27 @@ impl EffectSolver {
         }
 
         self.expand_all_pending_dependencies()?;
-        self.expand_dependent_inclusions()
+        self.expand_dependent_inclusions()?;
+        self.check_closed_inclusions()
+    }
+
+    /// Check that the variables included in a closed upper bound have not acquired other effects.
+    fn check_closed_inclusions(&mut self) -> Result<(), InternalCompilationError> {
+        for inclusion in self.closed_inclusions.clone() {
+            let lower = self.normalize_effect(&inclusion.lower).inner_non_vars();
+            let lower = EffType::multiple_primitive(&lower);
+            let upper = self.normalize_effect(&inclusion.upper);
+            if !lower.is_subset_of(&upper) {
+                return Err(invalid_effect_dependency(
+                    lower,
+                    inclusion.lower_span,
+                    upper,
+                    inclusion.upper_span,
+                    inclusion.origin,
+                ));
+            }
+        }
+        Ok(())
     }
 
     /// Propagate the primitive effects that dependent effects have acquired to their upper bounds,
@@ -514,6 +539,9 @@ impl EffectSolver {
             };
             if only_vars {
                 let upper = self.normalize_effect(&inclusion.upper);
+                if !upper.has_variables() {
+                    self.closed_inclusions.push(inclusion.clone());
+                }
                 if upper.is_empty() || EffType::single_variable(lower_root) == upper {
                     return Ok(true);
                 }
@@ -543,6 +571,7 @@ impl EffectSolver {
                 for var in lower_vars {
                     self.table.union_value(var, Some(upper.clone()));
                 }
+                self.closed_inclusions.push(inclusion);
                 Ok(true)
             }
             (true, false) => {
-- 
2.43.0

