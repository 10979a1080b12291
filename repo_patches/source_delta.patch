From d45c20a2934e296d584427d8f9b412df93dc8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:07 +0000
Subject: [PATCH 01/24] fix: conflicts and provenance include places containing
 a pointee

conflicts() stopped collecting parents at the first dereference instead of the
last one (contrary to its documentation), so a read of (*p).0 missed a write to
*p when p is an argument. The provenance of a place likewise missed writes to
places containing the pointer.
---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 crates/flowistry/src/mir/placeinfo.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..7613f88 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,6 +116,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     conflicts.chain(provenance).copied().collect()
   }
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..0dc1d09 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -117,6 +117,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         .projection
         .iter()
         .enumerate()
+        .rev()
         .map(|(i, elem)| {
           let place = PlaceRef {
             local: place.local,
-- 
2.43.0


From 38296511b0632e1658bcd5ecbeae507aef4e7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:48 +0000
Subject: [PATCH 02/24] fix: index the fields of a copied struct by their
 position in the struct

Enumerating only the visible fields shifted the indices after a private field,
so copying such a struct lost the dependencies of the later fields.
---
 crates/flowistry/src/infoflow/mutation.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..91bbdf7 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -6,7 +6,7 @@ use rustc_middle::{
   mir::{visit::Visitor, *},
   ty::{AdtKind, TyKind},
 };
-use rustc_utils::{AdtDefExt, OperandExt, mir::place::PlaceCollector};
+use rustc_utils::{OperandExt, mir::place::PlaceCollector};
 
 use crate::mir::{
   placeinfo::PlaceInfo,
@@ -137,11 +137,15 @@ where
           && adt_def.is_struct()
         {
           let fields = adt_def
-            .all_visible_fields(self.place_info.def_id, self.place_info.tcx)
-            .enumerate()
-            .map(|(i, field_def)| {
-              PlaceElem::Field(FieldIdx::from_usize(i), field_def.ty(tcx, substs))
-            });
+            .non_enum_variant()
+            .fields
+            .iter_enumerated()
+            .filter(|(_, field_def)| {
+              field_def
+                .vis
+                .is_accessible_from(self.place_info.def_id, tcx)
+            })
+            .map(|(i, field_def)| PlaceElem::Field(i, field_def.ty(tcx, substs)));
           let mut mutations = fields
             .map(|field| {
               let mutated_field = mutated.project_deeper(&[field], tcx);
-- 
2.43.0


From b5c86b39fa2f167ff4dd1b5d5fc075db8ec15436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:09 +0000
Subject: [PATCH 03/24] fix: do not destructure union aggregates by field
 position

A union aggregate has one operand, for its active field, but it was recorded
as an assignment to field 0, so the active field lost its dependencies.
---
 crates/flowistry/src/infoflow/mutation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 91bbdf7..db1a25a 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -79,7 +79,8 @@ where
       // _1.field1 = op1, _1.field2 = op2, and so on.
       Rvalue::Aggregate(agg_kind, ops) => {
         let info = match &**agg_kind {
-          AggregateKind::Adt(def_id, idx, substs, _, _) => {
+          // A union has a single operand for its active field, so it is not destructured.
+          AggregateKind::Adt(def_id, idx, substs, _, None) => {
             let adt_def = tcx.adt_def(*def_id);
             let variant = adt_def.variant(*idx);
             let mutated = match adt_def.adt_kind() {
-- 
2.43.0


From 089f442d837036859877d3930cbbe92dd8f7faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:32 +0000
Subject: [PATCH 04/24] fix: never treat a write to an array element as
 overwriting the other elements

All elements normalize to the same place, so a second indexed write erased the
dependencies of the first.
---
 crates/flowistry/src/infoflow/analysis.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 7613f88..d6b4c31 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -201,8 +201,18 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
-      // Clear sub-places of mutated place (if sound to do so)
+      // Clear sub-places of mutated place (if sound to do so). Every element of an array or
+      // slice normalizes to the same place, so writing one of them overwrites nothing for sure.
+      let is_element = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          ProjectionElem::Index(_)
+            | ProjectionElem::ConstantIndex { .. }
+            | ProjectionElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
+        && !is_element
         && self.place_info.aliases(mt.mutated).len() == 1
       {
         for sub in self.place_info.children(mt.mutated).iter() {
-- 
2.43.0


From 3523666d32b635b546281979cc6d2ef0cc2a5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:01 +0000
Subject: [PATCH 05/24] fix: an access to an array element depends on the index

The index local of x[i] was neither an input of a read nor of a write.
---
 crates/flowistry/src/infoflow/analysis.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index d6b4c31..8daaa9a 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -118,7 +118,15 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .iter()
             .flat_map(|alias| self.place_info.conflicts(*alias))
         });
-    conflicts.chain(provenance).copied().collect()
+    // The index in `x[i]` selects which element is accessed. (Places made up by `PlaceExt`
+    // rather than taken from the body use the return place to mean any index.)
+    let indices = place.projection.iter().filter_map(|elem| match elem {
+      ProjectionElem::Index(local) if local != RETURN_PLACE => {
+        Some(Place::from_local(local, self.tcx))
+      }
+      _ => None,
+    });
+    conflicts.chain(provenance).copied().chain(indices).collect()
   }
 
   /// Returns all the dependencies of `place` within `state`.
-- 
2.43.0


From cdfcd16686c0c52de6cff32b478d5e886a8e2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 06/24] fix: clear overwritten places before recording any
 mutation of an instruction

Translated callee effects come in hash order and can contain both _0 and _0.0;
if _0 came last, it erased the dependencies just recorded for _0.0.
---
 crates/flowistry/src/infoflow/analysis.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 8daaa9a..b072f97 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -206,9 +206,9 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
       }
     }
 
-    let ignore_mut =
-      is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
-    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
+    // Do this for every mutation before recording any of them, since the place of one mutation
+    // can contain the place of another.
+    for mt in &mutations {
       // Clear sub-places of mutated place (if sound to do so). Every element of an array or
       // slice normalizes to the same place, so writing one of them overwrites nothing for sure.
       let is_element = mt.mutated.projection.iter().any(|elem| {
@@ -227,7 +227,11 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
           state.clear_row(&self.place_info.normalize(*sub));
         }
       }
+    }
 
+    let ignore_mut =
+      is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
+    for (mt, deps) in mutations.iter().zip(&mut all_deps) {
       // Add deps of mutated to include provenance of mutated pointers
       add_deps(state, mt.mutated, deps);
 
-- 
2.43.0


From e0bf928eda90e9254350b1192a9685da6e006a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 07/24] fix: the result of calling a function pointer depends
 on the pointer

The function operand of a call was ignored.
---
 crates/flowistry/src/infoflow/mutation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index db1a25a..332fef1 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -189,7 +189,7 @@ where
 
     match &terminator.kind {
       TerminatorKind::Call {
-        /*func,*/ // TODO: deal with func
+        func,
         args,
         destination,
         ..
@@ -204,7 +204,12 @@ where
           .map(|(_, place)| place)
           .filter(|place| !async_hack.ignore_place(*place))
           .collect::<Vec<_>>();
-        let arg_inputs = arg_places.clone();
+        // The effects of calling a function pointer also depend on which function it is.
+        let arg_inputs = arg_places
+          .iter()
+          .copied()
+          .chain(func.as_place())
+          .collect::<Vec<_>>();
 
         let ret_is_unit = destination
           .ty(self.place_info.body.local_decls(), tcx)
-- 
2.43.0


From 47539b8fcd5d72fdf0e6baf7995cdef361c890f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 08/24] fix: an overwritten argument is still an input of the
 callee's effects

---
 crates/flowistry/src/infoflow/recursive.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..c57454b 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -215,7 +215,17 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       let parent_deps = return_state
         .rows()
         .filter(|(_, deps)| child_deps.is_superset(deps))
-        .filter_map(|(row, _)| translate_child_to_parent(*row, false))
+        .map(|(row, _)| *row)
+        // An argument that was overwritten has lost its synthetic location in `return_state`.
+        .chain(
+          flow
+            .analysis
+            .place_info
+            .all_args()
+            .filter(|(_, location)| child_deps.contains(*location))
+            .map(|(arg, _)| arg),
+        )
+        .filter_map(|row| translate_child_to_parent(row, false))
         .collect::<Vec<_>>();
 
       debug!(
-- 
2.43.0


From f1051ecd9744acf56d5542606d4c3c33201f7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:31 +0000
Subject: [PATCH 09/24] fix: index direct influences by normalized places

---
 crates/flowistry_ide/src/focus/direct_influence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ide/src/focus/direct_influence.rs b/crates/flowistry_ide/src/focus/direct_influence.rs
index 562592d..cce9f06 100644
--- a/crates/flowistry_ide/src/focus/direct_influence.rs
+++ b/crates/flowistry_ide/src/focus/direct_influence.rs
@@ -18,7 +18,7 @@ impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
     ModularMutationVisitor::new(place_info, |location, mutations| {
       let mut add = |place: Place<'tcx>, mutability: Mutability| {
         for alias in place_info.reachable_values(place, mutability) {
-          influence.insert(*alias, location);
+          influence.insert(place_info.normalize(*alias), location);
         }
       };
 
@@ -48,7 +48,7 @@ impl<'a, 'tcx> DirectInfluence<'a, 'tcx> {
       .flat_map(|target_alias| {
         self
           .influence
-          .row_set(target_alias)
+          .row_set(&self.place_info.normalize(*target_alias))
           .iter()
           .copied()
           .collect::<Vec<_>>()
-- 
2.43.0


From d2e3fdd0100fedc8a89959f33eda663277894a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 10/24] fix: a place behind a reference is reachable from
 itself

---
 crates/flowistry/src/mir/placeinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 0dc1d09..2700ed4 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -149,7 +149,6 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
       let loans = self.collect_loans(ty, mutability);
       loans
         .into_iter()
-        .chain([place])
         .filter(|place| {
           if let Some((place, _)) = place.refs_in_projection(self.body, self.tcx).last() {
             let ty = place.ty(self.body.local_decls(), self.tcx).ty;
@@ -159,6 +158,8 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
           }
           place.is_direct(self.body, self.tcx)
         })
+        // A place always reaches itself, even if it is not direct.
+        .chain([place])
         .collect()
     })
   }
-- 
2.43.0


From c28d60d9511187996700d0c4675d2cc34f28a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 11/24] fix: field types of a translated callee place are in
 terms of the caller

---
 crates/flowistry/src/infoflow/recursive.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index c57454b..c05697a 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -183,17 +183,15 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
         }
 
         // ty = ty.projection_ty_core(tcx, elem, structurally_normalize, handle_field, handle_opaque_cast_and_subtype)
-        ty = ty.projection_ty(tcx, elem);
-        // ty = ty.projection_ty_core(
-        //   tcx,
-        //   &elem,
-        //   |_, field, _| ty.field_ty(tcx, field),
-        //   |_, ty| ty,
-        // );
+        // The type of a field in `elem` is in terms of the callee's generics and lifetimes.
         let elem = match elem {
-          ProjectionElem::Field(field, _) => ProjectionElem::Field(field, ty.ty),
+          ProjectionElem::Field(field, _) => ProjectionElem::Field(
+            field,
+            PlaceTy::field_ty(tcx, ty.ty, ty.variant_index, field),
+          ),
           elem => elem,
         };
+        ty = ty.projection_ty(tcx, elem);
         projection.push(elem);
       }
 
-- 
2.43.0


From 295b50f07037cb975c833b264076797808ed4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 12/24] fix: a trait's method may be overridden, so its body is
 not analyzed for a call

---
 crates/flowistry/src/infoflow/recursive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index c05697a..56695e2 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -53,6 +53,12 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
+    // The body of a trait's method may be overridden by the implementation that is called
+    if tcx.trait_of_assoc(*def_id).is_some() {
+      debug!("  Func is a trait method");
+      return false;
+    }
+
     // If a function returns never (fn () -> !) then there are no exit points,
     // so we can't analyze effects on exit
     let fn_sig = tcx.fn_sig(*def_id);
-- 
2.43.0


From 3340287fa0d51236cee3e8864ed426a56794c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 13/24] fix: a callee's body does not show the pointers inside
 generic types and trait objects

---
 crates/flowistry/src/infoflow/recursive.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 56695e2..0a620b2 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -6,7 +6,7 @@ use rustc_middle::{
   ty::{ClosureKind, GenericArgKind, TyKind},
 };
 use rustc_mir_dataflow::JoinSemiLattice;
-use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
+use rustc_utils::{PlaceExt, TyExt, mir::borrowck_facts::get_body_with_borrowck_facts};
 
 use super::{BODY_STACK, analysis::FlowAnalysis};
 use crate::{
@@ -45,8 +45,8 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       }
     };
 
-    let def_id = match func.const_.ty().kind() {
-      TyKind::FnDef(def_id, _) => def_id,
+    let (def_id, generic_args) = match func.const_.ty().kind() {
+      TyKind::FnDef(def_id, generic_args) => (def_id, generic_args),
       _ => {
         debug!("  Func is not a FnDef");
         return false;
@@ -114,6 +114,21 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       return false;
     }
 
+    // The callee's body does not show what is behind the pointers of a type that it is generic over
+    let any_opaque_pointers = generic_args
+      .types()
+      .any(|ty| ty.inner_regions().next().is_some())
+      || parent_arg_places.iter().any(|(_, place)| {
+        let ty = place.ty(self.body.local_decls(), tcx).ty;
+        ty.walk().any(|arg| {
+          matches!(arg.kind(), GenericArgKind::Type(ty) if matches!(ty.kind(), TyKind::Dynamic(..)))
+        })
+      });
+    if any_opaque_pointers {
+      debug!("  Func has inputs with opaque pointers");
+      return false;
+    }
+
     let recursive = BODY_STACK.with(|body_stack| {
       let body_stack = body_stack.borrow();
       body_stack.contains(&body_id)
-- 
2.43.0


From f2eab0d972f87ed4ff379c23dd3350925bd5a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 14/24] fix: information-flow checker no longer crashes on
 functions that never return

---
 crates/flowistry_ifc/src/analysis.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..c6a295d 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -96,14 +96,17 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
+  // A body that never returns has no final state, hence nothing to report.
+  let Some(final_state) = body
     .all_returns()
     .map(|location| results.state_at(location).clone())
     .reduce(|mut a, b| {
       a.join(&b);
       a
     })
-    .unwrap();
+  else {
+    return Ok(IssueFound::No);
+  };
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-- 
2.43.0


From d053ba7530486923a9d3ea45af9f19c01757c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:06 +0000
Subject: [PATCH 15/24] fix: drop results of requests made before an edit or
 before leaving focus mode

---
 ide/src/focus.ts | 83 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 25 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 161ecd5..b6700fb 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -125,6 +125,10 @@ export class Cell<T> {
   }
 }
 
+// Whether the results of a request may still be used, i.e. false if the document
+// was edited or focus mode was left since the request was made.
+type IsCurrent = () => boolean;
+
 class FocusDocumentState {
   bodies: RangeTree<Cell<FlowistryResult<FocusBodyState> | null>>;
 
@@ -153,9 +157,10 @@ class FocusDocumentState {
   };
 
   on_change_selection = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     }
@@ -170,7 +175,8 @@ class FocusDocumentState {
   };
 
   get_body_state = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<FocusBodyState> | null> => {
     // Find all bodies that contain the user's selection.
     let result = this.bodies.search(
@@ -191,16 +197,17 @@ class FocusDocumentState {
         editor.selection
       );
       body.set(body_state_res);
-      return body_state_res;
+      return is_current() ? body_state_res : null;
     } else {
       return body.get();
     }
   };
 
   set_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -212,9 +219,10 @@ class FocusDocumentState {
   };
 
   unset_mark = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -226,9 +234,10 @@ class FocusDocumentState {
   };
 
   select = async (
-    editor: vscode.TextEditor
+    editor: vscode.TextEditor,
+    is_current: IsCurrent
   ): Promise<FlowistryResult<null>> => {
-    let body_state_res = await this.get_body_state(editor);
+    let body_state_res = await this.get_body_state(editor, is_current);
     if (body_state_res === null) {
       return ok(null);
     } else if (!is_ok(body_state_res)) {
@@ -274,7 +283,7 @@ export class FocusMode {
         }
 
         if (event.document === doc && doc.isDirty) {
-          this.state.clear();
+          this.state = new Map();
 
           if (this.mode !== "idle") {
             this.set_mode("unsaved");
@@ -313,8 +322,14 @@ export class FocusMode {
     }
   };
 
+  private is_current = (): IsCurrent => {
+    let state = this.state;
+    return () => this.state === state && this.mode !== "idle";
+  };
+
   private get_doc_state = async (
     editor: vscode.TextEditor,
+    is_current: IsCurrent,
     userActivated: boolean = false
   ): Promise<FocusDocumentState | null> => {
     if (this.mode !== "active" && this.mode !== "notfound") {
@@ -327,14 +342,19 @@ export class FocusMode {
     let doc_state_opt = this.state.get(filename);
     if (!doc_state_opt) {
       let doc_state_res = await FocusDocumentState.load(editor);
+      if (!is_current()) {
+        this.set_mode(this.mode);
+        return null;
+      }
+
       if (is_ok(doc_state_res)) {
         this.state.set(filename, doc_state_res.value);
       } else {
         if (doc_state_res.type == "FileNotFound") {
           this.state.set(filename, "notfound");
         } else {
-          if (userActivated) await show_error(doc_state_res);
           this.set_mode("error");
+          if (userActivated) await show_error(doc_state_res);
           return null;
         }
       }
@@ -354,11 +374,11 @@ export class FocusMode {
     userActivated: boolean = false
   ) => {
     if (!is_ok(result)) {
-      if (userActivated) await show_error(result);
       this.set_mode("error");
+      if (userActivated) await show_error(result);
     } else {
-      await hide_error();
       this.set_mode("active");
+      await hide_error();
     }
   };
 
@@ -372,12 +392,18 @@ export class FocusMode {
       return;
     }
 
-    let doc_state = await this.get_doc_state(editor, userActivated);
+    let is_current = this.is_current();
+    let doc_state = await this.get_doc_state(editor, is_current, userActivated);
     if (doc_state === null) {
       return;
     }
 
-    let result = await doc_state.on_change_selection(editor);
+    let result = await doc_state.on_change_selection(editor, is_current);
+    if (!is_current()) {
+      this.set_mode(this.mode);
+      return;
+    }
+
     await this.handle_analysis_result(result, userActivated);
   };
 
@@ -402,7 +428,8 @@ export class FocusMode {
     (
       f: (
         _editor: vscode.TextEditor,
-        _state: FocusDocumentState
+        _state: FocusDocumentState,
+        _is_current: IsCurrent
       ) => Promise<FlowistryResult<null>>
     ) =>
     async () => {
@@ -420,24 +447,30 @@ export class FocusMode {
         this.register_callbacks();
       }
 
-      let doc_state = await this.get_doc_state(editor, true);
+      let is_current = this.is_current();
+      let doc_state = await this.get_doc_state(editor, is_current, true);
       if (doc_state === null) {
         return;
       }
 
-      let result = await f(editor, doc_state);
+      let result = await f(editor, doc_state, is_current);
+      if (!is_current()) {
+        this.set_mode(this.mode);
+        return;
+      }
+
       await this.handle_analysis_result(result, true);
       await this.update_slice(true);
     };
 
-  focus_mark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.set_mark(editor)
+  focus_mark = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.set_mark(editor, is_current)
   );
-  focus_unmark = this.focus_subcommand((editor, doc_state) =>
-    doc_state.unset_mark(editor)
+  focus_unmark = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.unset_mark(editor, is_current)
   );
-  focus_select = this.focus_subcommand((editor, doc_state) =>
-    doc_state.select(editor)
+  focus_select = this.focus_subcommand((editor, doc_state, is_current) =>
+    doc_state.select(editor, is_current)
   );
 
   focus = async () => {
-- 
2.43.0


From bf3e81ad8572fef8046645b4a0108bb1bbcdf8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 16/24] fix: order ranges by size numerically

---
 ide/src/range.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/range.ts b/ide/src/range.ts
index f9e4fdf..0938cff 100644
--- a/ide/src/range.ts
+++ b/ide/src/range.ts
@@ -112,7 +112,10 @@ export class RangeTree<T> {
 
     ["contained", "containing", "overlapping"].forEach((k) => {
       let final_ = final as any;
-      final_[k] = _.orderBy(final_[k], ({ range }) => [range.end.line - range.start.line, range.end.column - range.start.column]);
+      final_[k] = _.orderBy(final_[k], [
+        ({ range }) => range.end.line - range.start.line,
+        ({ range }) => range.end.column - range.start.column,
+      ]);
     });
 
     console.log("Querying", query, "for result", final);
-- 
2.43.0


From 39d2611f89b7937dd94522b7ffeedbed03815698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 17/24] fix: wait for the manifest lookups when searching the
 workspace root

---
 ide/src/setup.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/setup.ts b/ide/src/setup.ts
index 1bd24e3..1dad0dc 100644
--- a/ide/src/setup.ts
+++ b/ide/src/setup.ts
@@ -156,9 +156,9 @@ let findWorkspaceRoot = async (): Promise<string | null> => {
   let folderSubdirTil = (idx: number) =>
     path.join(folderPath, ...components.slice(0, idx));
   let prefixHasToml = await Promise.all(
-    _.range(components.length).map((idx) => ({
+    _.range(components.length).map(async (idx) => ({
       idx,
-      has: hasCargoToml(folderSubdirTil(idx)),
+      has: await hasCargoToml(folderSubdirTil(idx)),
     }))
   );
   let entry = prefixHasToml.find(({ has }) => has);
-- 
2.43.0


From bb2e5b732ecc0896794e7868eff4639430bc16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 18/24] fix: report exceptions while rendering a slice

FocusBodyState.render was not awaited, so an exception raised in it became an
unhandled rejection: the command reported success and the error handler around
the registered commands never saw it.
---
 ide/src/focus.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index b6700fb..82b22f9 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -170,7 +170,7 @@ class FocusDocumentState {
     }
 
     let body_state = body_state_res.value;
-    body_state.render(editor);
+    await body_state.render(editor);
     return ok(null);
   };
 
@@ -244,7 +244,7 @@ class FocusDocumentState {
       return body_state_res;
     }
 
-    body_state_res.value.render(editor, true);
+    await body_state_res.value.render(editor, true);
     return ok(null);
   };
 }
-- 
2.43.0


From 3c0b4810254d4352049df37a2c39da78b71e842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 19/24] fix: show the error pane again after the user closed it

ErrorPane remembered the editor it once opened. When the user closed that
editor, later build errors (and the last-error command) updated a document that
was no longer visible.
---
 ide/src/errors.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ide/src/errors.ts b/ide/src/errors.ts
index f589c52..dac99eb 100644
--- a/ide/src/errors.ts
+++ b/ide/src/errors.ts
@@ -75,7 +75,10 @@ export class ErrorPane {
   show = async (error: string) => {
     this.tdcp.contents = error;
     this.tdcp.eventEmitter.fire(this.tdcp.uri);
-    if (!this.editor) {
+    if (
+      !this.editor ||
+      !vscode.window.visibleTextEditors.includes(this.editor)
+    ) {
       this.editor = await vscode.window.showTextDocument(this.doc, {
         viewColumn: vscode.ViewColumn.Beside,
         preserveFocus: true,
-- 
2.43.0


From 913766f6bb25e2778607270d42eab3cc1f57b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:03 +0000
Subject: [PATCH 20/24] fix: do not crash on a terminator that is its own
 successor

---
 crates/flowistry/src/mir/engine.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..34a7c3d 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -83,6 +83,16 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
     let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
       unreachable!()
     };
+
+    // A terminator can be its own successor, e.g. in `loop { continue }`.
+    let is_own_successor = location.statement_index == 0
+      && body.stmt_at(location).is_right()
+      && body
+        .basic_blocks
+        .successors(location.block)
+        .any(|block| block == location.block);
+    let entry_state = is_own_successor.then(|| state[loc_index].clone());
+
     let next_locs = match body.stmt_at(location) {
       Either::Left(statement) => {
         analysis.apply_primary_statement_effect(
@@ -111,8 +121,15 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
 
     for next_loc in next_locs {
       let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
-      let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
-      let changed = next_state.join(cur_state);
+      let changed = match &entry_state {
+        Some(entry_state) if next_loc_index == loc_index => {
+          entry_state.clone().join(&state[loc_index])
+        }
+        _ => {
+          let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
+          next_state.join(cur_state)
+        }
+      };
       if changed {
         dirty_queue.insert(next_loc_index);
       }
-- 
2.43.0


From be64bb06d19051abc65a01db4590484631feaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:28 +0000
Subject: [PATCH 21/24] fix: do not look into opaque or unnormalized types when
 translating callee places

---
 crates/flowistry/src/infoflow/recursive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index 0a620b2..7c036d1 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -194,6 +194,11 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       let mut ty = parent_toplevel_arg.ty(self.body.local_decls(), tcx);
       log::debug!("Adding child {child:?} to parent {parent_toplevel_arg:?}");
       for elem in child.projection.iter() {
+        // Don't continue if we reach a type the caller can't look into, e.g. `impl Trait`
+        if matches!(ty.ty.kind(), TyKind::Alias(..)) {
+          break;
+        }
+
         // Don't continue if we reach a private field
         if let ProjectionElem::Field(field, _) = elem
           && let Some(adt_def) = ty.ty.ty_adt_def()
-- 
2.43.0


From 3e946f3a0274a3f4e4f053a6545e34f6dfa1ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:30 +0000
Subject: [PATCH 22/24] fix: number the fields of interior places like the
 compiler does

PlaceExt::interior_places and interior_pointers count only the fields of a struct
that are visible from the analyzed item. A write to a visible field declared after
an invisible one was therefore not seen by later uses of the whole struct, and
translating such a place to a caller could crash.
---
 crates/flowistry/src/mir/aliases.rs   |  6 +--
 crates/flowistry/src/mir/placeinfo.rs | 12 +++--
 crates/flowistry/src/mir/utils.rs     | 76 +++++++++++++++++++++++++--
 crates/flowistry_ifc/src/analysis.rs  |  7 ++-
 4 files changed, 87 insertions(+), 14 deletions(-)

diff --git a/crates/flowistry/src/mir/aliases.rs b/crates/flowistry/src/mir/aliases.rs
index 84104e7..f82c7ef 100644
--- a/crates/flowistry/src/mir/aliases.rs
+++ b/crates/flowistry/src/mir/aliases.rs
@@ -22,7 +22,7 @@ use rustc_utils::{PlaceExt, mir::place::UNKNOWN_REGION, timer::elapsed};
 
 use crate::{
   extensions::{PointerMode, is_extension_active},
-  mir::utils::{AsyncHack, PlaceSet},
+  mir::utils::{AsyncHack, PlaceSet, interior_pointers},
 };
 
 type BorrowckLocationIndex =
@@ -122,7 +122,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
       .local_decls()
       .indices()
       .flat_map(|local| {
-        Place::from_local(local, tcx).interior_pointers(tcx, body, def_id)
+        interior_pointers(Place::from_local(local, tcx), tcx, body, def_id)
       })
       .collect::<Vec<_>>();
     let max_region = all_pointers
@@ -210,7 +210,7 @@ impl<'a, 'tcx> Aliases<'a, 'tcx> {
     // For all args p : &'a ω T where 'a is abstract: contains('a, *p, ω).
     for arg in body.args_iter() {
       for (region, places) in
-        Place::from_local(arg, tcx).interior_pointers(tcx, body, def_id)
+        interior_pointers(Place::from_local(arg, tcx), tcx, body, def_id)
       {
         let region_contains = contains.entry(region).or_default();
         for (place, mutability) in places {
diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 2700ed4..8b32714 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -23,7 +23,10 @@ use rustc_utils::{
   },
 };
 
-use super::{aliases::Aliases, utils::PlaceSet};
+use super::{
+  aliases::Aliases,
+  utils::{PlaceSet, interior_places, interior_pointers},
+};
 use crate::extensions::{MutabilityMode, is_extension_active};
 
 /// Utilities for analyzing places: children, aliases, etc.
@@ -100,7 +103,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
   ///
   /// For example, if `x = (0, 1)` then `children(x) = {x, x.0, x.1}`.
   pub fn children(&self, place: Place<'tcx>) -> PlaceSet<'tcx> {
-    PlaceSet::from_iter(place.interior_places(self.tcx, self.body, self.def_id))
+    interior_places(place, self.tcx, self.body, self.def_id)
   }
 
   /// Returns all places that *directly* conflict with `place`, i.e. that a mutation to `place`
@@ -184,8 +187,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
     self.body.args_iter().flat_map(|local| {
       let location = local.to_index(&self.location_domain);
       let place = Place::from_local(local, self.tcx);
-      let ptrs = place
-        .interior_pointers(self.tcx, self.body, self.def_id)
+      let ptrs = interior_pointers(place, self.tcx, self.body, self.def_id)
         .into_values()
         .flat_map(|ptrs| {
           ptrs
@@ -195,7 +197,7 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
         });
       ptrs
         .chain([place])
-        .flat_map(|place| place.interior_places(self.tcx, self.body, self.def_id))
+        .flat_map(|place| interior_places(place, self.tcx, self.body, self.def_id))
         .map(move |place| (place, location))
     })
   }
diff --git a/crates/flowistry/src/mir/utils.rs b/crates/flowistry/src/mir/utils.rs
index 02b7043..f0bdc9d 100644
--- a/crates/flowistry/src/mir/utils.rs
+++ b/crates/flowistry/src/mir/utils.rs
@@ -1,10 +1,10 @@
 //! A potpourri of utilities for working with the MIR, primarily exposed as extension traits.
 
-use rustc_data_structures::fx::FxHashSet as HashSet;
+use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::def_id::DefId;
 use rustc_middle::{
   mir::*,
-  ty::{GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt},
+  ty::{GenericArgKind, RegionKind, RegionVid, Ty, TyCtxt, TyKind},
 };
 use rustc_span::source_map::Spanned;
 use rustc_utils::{BodyExt, OperandExt, PlaceExt};
@@ -18,6 +18,75 @@ use crate::extensions::{MutabilityMode, is_extension_active};
 /// [`Place`]s that was not "every possible place in the body".
 pub type PlaceSet<'tcx> = HashSet<Place<'tcx>>;
 
+/// Numbers the fields in a place found inside of `root` by [`PlaceExt::interior_places`] or
+/// [`PlaceExt::interior_pointers`] like the compiler does.
+///
+/// Both count only the fields of a struct that are visible from `def_id`, so if `struct S { a: i32, pub b: i32 }`
+/// is in another module, then they use `s.0` for `s.b`.
+fn renumber_fields<'tcx>(
+  root: Place<'tcx>,
+  place: Place<'tcx>,
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+) -> Place<'tcx> {
+  let mut projection = root.projection.to_vec();
+  let mut ty = root.ty(body.local_decls(), tcx);
+  for elem in place.projection.iter().skip(root.projection.len()) {
+    let elem = match (elem, ty.ty.kind()) {
+      (ProjectionElem::Field(index, field_ty), TyKind::Adt(adt_def, _))
+        if adt_def.is_struct() =>
+      {
+        let index = adt_def
+          .non_enum_variant()
+          .fields
+          .iter_enumerated()
+          .filter(|(_, field)| field.vis.is_accessible_from(def_id, tcx))
+          .map(|(index, _)| index)
+          .nth(index.as_usize())
+          .unwrap_or(index);
+        ProjectionElem::Field(index, field_ty)
+      }
+      _ => elem,
+    };
+    ty = ty.projection_ty(tcx, elem);
+    projection.push(elem);
+  }
+  Place::make(root.local, &projection, tcx)
+}
+
+/// See [`PlaceExt::interior_places`].
+pub fn interior_places<'tcx>(
+  place: Place<'tcx>,
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+) -> PlaceSet<'tcx> {
+  place
+    .interior_places(tcx, body, def_id)
+    .into_iter()
+    .map(|child| renumber_fields(place, child, tcx, body, def_id))
+    .collect()
+}
+
+/// See [`PlaceExt::interior_pointers`].
+pub fn interior_pointers<'tcx>(
+  place: Place<'tcx>,
+  tcx: TyCtxt<'tcx>,
+  body: &Body<'tcx>,
+  def_id: DefId,
+) -> HashMap<RegionVid, Vec<(Place<'tcx>, Mutability)>> {
+  let renumber = |ptr| renumber_fields(place, ptr, tcx, body, def_id);
+  place
+    .interior_pointers(tcx, body, def_id)
+    .into_iter()
+    .map(|(region, ptrs)| {
+      let ptrs = ptrs.into_iter().map(|(ptr, mutability)| (renumber(ptr), mutability));
+      (region, ptrs.collect())
+    })
+    .collect()
+}
+
 /// Given the arguments to a function, returns all projections of the arguments that are mutable pointers.
 pub fn arg_mut_ptrs<'tcx>(
   args: &[(usize, Place<'tcx>)],
@@ -30,8 +99,7 @@ pub fn arg_mut_ptrs<'tcx>(
   args
     .iter()
     .flat_map(|(i, place)| {
-      place
-        .interior_pointers(tcx, body, def_id)
+      interior_pointers(*place, tcx, body, def_id)
         .into_iter()
         .flat_map(|(_, places)| {
           places
diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c6a295d..b2fd09e 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -3,7 +3,10 @@
 use std::io::Write;
 
 use anyhow::Result;
-use flowistry::{infoflow::FlowResults, mir::utils::PlaceSet};
+use flowistry::{
+  infoflow::FlowResults,
+  mir::utils::{PlaceSet, interior_places},
+};
 use rustc_data_structures::fx::FxHashMap as HashMap;
 use rustc_hir::{BodyId, def::Res, def_id::DefId};
 use rustc_infer::traits::EvaluationResult;
@@ -79,7 +82,7 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
     .indices()
     .flat_map(|local| {
       let place = Place::from_local(local, tcx);
-      place.interior_places(tcx, body, def_id)
+      interior_places(place, tcx, body, def_id)
     })
     .collect::<PlaceSet>();
 
-- 
2.43.0


From c7a802d4e987c483696db034f60687209c9952d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:34 +0000
Subject: [PATCH 23/24] fix: ask the driver about the body whose result is
 stored

The selection may start in a nested body, such as a closure, that does not
contain all of it. The driver then analyzed the nested body, and its result
was kept for the enclosing one.
---
 ide/src/focus.ts | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 82b22f9..14b71bd 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -40,13 +40,13 @@ class FocusBodyState {
 
   static load = async (
     doc: vscode.TextDocument,
-    selection: vscode.Selection
+    position: vscode.Position
   ): Promise<FlowistryResult<FocusBodyState>> => {
     let cmd = [
       "focus",
       doc.fileName,
-      selection.anchor.line.toString(),
-      selection.anchor.character.toString(),
+      position.line.toString(),
+      position.character.toString(),
     ];
     let focus_res = await globals.call_flowistry<Focus>(cmd);
     console.log(focus_res);
@@ -190,12 +190,18 @@ class FocusDocumentState {
     }
 
     // If the user has selected a body, get its FocusBodyState.
-    let body = result.containing[0].value;
+    let { range, value: body } = result.containing[0];
     if (body.get() === null) {
-      let body_state_res = await FocusBodyState.load(
-        editor.document,
-        editor.selection
-      );
+      // The driver analyzes the innermost body at the given position. The anchor may
+      // be in a nested body (e.g. a closure) that does not contain the selection.
+      let { anchor } = editor.selection;
+      let body_at_anchor = this.bodies.search(
+        this.bodies.selection_to_interval(new vscode.Selection(anchor, anchor))
+      ).containing[0].value;
+      let position =
+        body_at_anchor === body ? anchor : to_vsc_range(range).start;
+
+      let body_state_res = await FocusBodyState.load(editor.document, position);
       body.set(body_state_res);
       return is_current() ? body_state_res : null;
     } else {
-- 
2.43.0


From 2887cc89bea75d2fd89ffb2e00b96fd2e90110d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:34 +0000
Subject: [PATCH 24/24] fix: clear the highlights of all visible editors when
 leaving focus mode

---
 ide/src/focus.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ide/src/focus.ts b/ide/src/focus.ts
index 14b71bd..a4071c8 100644
--- a/ide/src/focus.ts
+++ b/ide/src/focus.ts
@@ -321,11 +321,9 @@ export class FocusMode {
     globals.status_bar.set_state(mode);
   };
 
+  // Focus mode may have highlighted any of the editors shown side by side.
   private clear_ranges = () => {
-    let editor = vscode.window.activeTextEditor;
-    if (editor) {
-      clear_ranges(editor);
-    }
+    vscode.window.visibleTextEditors.forEach((editor) => clear_ranges(editor));
   };
 
   private is_current = (): IsCurrent => {
-- 
2.43.0

