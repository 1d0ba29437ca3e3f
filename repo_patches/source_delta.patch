From bc70dc1f4c6c6bfee273eb787e8b969b02b9e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:43 +0000
Subject: [PATCH 1/9] fix: conflicts of a place behind a reference include its
 enclosing places

conflicts() documented following parents up to a reference point, but it walked
the projection from the local and stopped at the first dereference, so a write
to *x was not seen by a later read of (*x).0.
---
 crates/flowistry/src/mir/placeinfo.rs | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index c3bb4a4..776280e 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -113,21 +113,21 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
   pub fn conflicts(&self, place: Place<'tcx>) -> &PlaceSet<'tcx> {
     self.conflicts_cache.get(&place, |place| {
       let children = self.children(place);
-      let parents = place
-        .projection
-        .iter()
-        .enumerate()
-        .map(|(i, elem)| {
-          let place = PlaceRef {
-            local: place.local,
-            projection: &place.projection[.. i],
-          };
-          (place, elem)
-        })
-        .take_while(|(place, elem)| {
-          place.ty(self.body.local_decls(), self.tcx).ty.is_box()
-            || !matches!(elem, PlaceElem::Deref)
-        })
+      let is_ref = |place: PlaceRef<'tcx>, elem| {
+        matches!(elem, PlaceElem::Deref)
+          && !place.ty(self.body.local_decls(), self.tcx).ty.is_box()
+      };
+      // Parents between the place and the last reference point, then the parents
+      // before the first reference point.
+      let inner = place
+        .iter_projections()
+        .rev()
+        .take_while(|(place, elem)| !is_ref(*place, *elem));
+      let outer = place
+        .iter_projections()
+        .take_while(|(place, elem)| !is_ref(*place, *elem));
+      let parents = inner
+        .chain(outer)
         .map(|(place_ref, _)| Place::from_ref(place_ref, self.tcx));
       children.into_iter().chain(parents).collect()
     })
-- 
2.43.0


From 086228aaa19e43a3bd4bee348e123a1ece5a8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:05 +0000
Subject: [PATCH 2/9] fix: following a pointer inherits writes to the structure
 that contains it

Reading *((*x).0) consulted only the row of the pointer (*x).0 itself, so a
write to the whole of *x was lost.
---
 crates/flowistry/src/infoflow/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index c02db27..7613f88 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -116,6 +116,7 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .place_info
             .aliases(Place::from_ref(place_ref, self.tcx))
             .iter()
+            .flat_map(|alias| self.place_info.conflicts(*alias))
         });
     conflicts.chain(provenance).copied().collect()
   }
-- 
2.43.0


From 7b08a22c3ca78fb7a493d4b3738f4691fb00096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:10 +0000
Subject: [PATCH 3/9] fix: building a union writes the whole union

The single operand of a union aggregate was recorded as a write of field 0
whichever field is active, so reading the active field back lost it.
---
 crates/flowistry/src/infoflow/mutation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/mutation.rs b/crates/flowistry/src/infoflow/mutation.rs
index 05fcdd5..fa005bb 100644
--- a/crates/flowistry/src/infoflow/mutation.rs
+++ b/crates/flowistry/src/infoflow/mutation.rs
@@ -79,7 +79,9 @@ where
       // _1.field1 = op1, _1.field2 = op2, and so on.
       Rvalue::Aggregate(agg_kind, ops) => {
         let info = match &**agg_kind {
-          AggregateKind::Adt(def_id, idx, substs, _, _) => {
+          // Only unions have an active field. Its index is not the operand's, and all
+          // fields share their memory, so a union is written as a whole.
+          AggregateKind::Adt(def_id, idx, substs, _, None) => {
             let adt_def = tcx.adt_def(*def_id);
             let variant = adt_def.variant(*idx);
             let mutated = match adt_def.adt_kind() {
-- 
2.43.0


From bed9ce2c59db085d9c58380b487468e31afc192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:13 +0000
Subject: [PATCH 4/9] fix: aliases of a place do not depend on which spelling
 was asked first

The alias cache was keyed by the normalized place but filled from the
unnormalized one, so after asking for v[i] the aliases of v[j] were reported as
{v[i]}: the answer depended on earlier queries and could omit the place itself.
---
 crates/flowistry/src/mir/placeinfo.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/mir/placeinfo.rs b/crates/flowistry/src/mir/placeinfo.rs
index 776280e..3d01d95 100644
--- a/crates/flowistry/src/mir/placeinfo.rs
+++ b/crates/flowistry/src/mir/placeinfo.rs
@@ -89,11 +89,11 @@ impl<'a, 'tcx> PlaceInfo<'a, 'tcx> {
   /// For example, if `x = &y`, then `*x` aliases `y`.
   /// Note that an alias is NOT guaranteed to be of the same type as `place`!
   pub fn aliases(&self, place: Place<'tcx>) -> &PlaceSet<'tcx> {
-    // note: important that aliases are computed on the unnormalized place
-    // which contains region information
+    // note: important that aliases are computed on (and cached for) the unnormalized
+    // place which contains region information
     self
       .aliases_cache
-      .get(&self.normalize(place), move |_| self.aliases.aliases(place))
+      .get(&place, |place| self.aliases.aliases(place))
   }
 
   /// Returns all reachable fields of `place` without going through references.
-- 
2.43.0


From 76688bed27e6c22c94d146f82d906020ac647c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:06 +0000
Subject: [PATCH 5/9] fix: whole-program mode keeps all parts of a callee's
 return value

A callee can leave dependencies both for its whole return place and for fields
of it (or for several private fields that map to one caller place). Each was
applied as a strong update, in hash-map order, so a later one discarded what an
earlier one had just recorded and the result varied between runs.
---
 crates/flowistry/src/infoflow/recursive.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/flowistry/src/infoflow/recursive.rs b/crates/flowistry/src/infoflow/recursive.rs
index d03faca..de73507 100644
--- a/crates/flowistry/src/infoflow/recursive.rs
+++ b/crates/flowistry/src/infoflow/recursive.rs
@@ -225,13 +225,21 @@ impl<'tcx> FlowAnalysis<'_, 'tcx> {
       Some(Mutation {
         mutated: parent,
         inputs: parent_deps.clone(),
-        status: if was_return {
-          MutationStatus::Definitely
-        } else {
-          MutationStatus::Possibly
-        },
+        status: MutationStatus::Possibly,
       })
-    }).collect::<Vec<_>>();
+    });
+
+    // The destination is overwritten as a whole. This comes before the translated
+    // mutations, which only add to it: the return value may be tracked both as a whole and
+    // by its parts, so a strong update for one of them could discard the others.
+    let overwrite = Mutation {
+      mutated: *destination,
+      inputs: Vec::new(),
+      status: MutationStatus::Definitely,
+    };
+    let mutations = std::iter::once(overwrite)
+      .chain(mutations)
+      .collect::<Vec<_>>();
 
     self.transfer_function(state, mutations, location);
 
-- 
2.43.0


From de882671477144e2c26a69ac54a5b0f408a49e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:10 +0000
Subject: [PATCH 6/9] fix: the IFC checker does not panic on functions that
 never return

---
 crates/flowistry_ifc/src/analysis.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry_ifc/src/analysis.rs b/crates/flowistry_ifc/src/analysis.rs
index c2afa95..09abbe3 100644
--- a/crates/flowistry_ifc/src/analysis.rs
+++ b/crates/flowistry_ifc/src/analysis.rs
@@ -96,14 +96,19 @@ pub fn analyze(body_id: &BodyId, results: &FlowResults) -> Result<IssueFound> {
   let secure_places = find_implements(ifc_items["Secure"]);
   let insecure_places = find_implements(ifc_items["Insecure"]);
 
-  let final_state = body
+  let final_state = match body
     .all_returns()
     .map(|location| results.state_at(location).clone())
     .reduce(|mut a, b| {
       a.join(&b);
       a
-    })
-    .unwrap();
+    }) {
+    Some(state) => state,
+    // A body that never returns has no final state to inspect.
+    None => {
+      return Ok(IssueFound::No);
+    }
+  };
 
   let mut errors = Vec::new();
   for secure in secure_places.iter() {
-- 
2.43.0


From 0b458946556d859da23ed66d685d4c4adebec95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:12 +0000
Subject: [PATCH 7/9] fix: the fixpoint engine applies each effect to the
 predecessors' states only

Applying an instruction again on top of its own previous result let its outputs feed
back into its inputs, so results depended on how often a location was visited.
---
 crates/flowistry/src/mir/engine.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/flowistry/src/mir/engine.rs b/crates/flowistry/src/mir/engine.rs
index 93f613a..0091a9c 100644
--- a/crates/flowistry/src/mir/engine.rs
+++ b/crates/flowistry/src/mir/engine.rs
@@ -63,8 +63,12 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
   let num_locs = body.all_locations().count();
   let mut state = IndexVec::from_elem_n(bottom_value, num_locs);
 
+  // `entry` holds the join of the predecessors' states. It is kept apart from `state` so
+  // that visiting a location again never applies its effect to the effect's own result.
+  let mut entry = state.clone();
+
   analysis
-    .initialize_start_block(body, &mut state[Location::START.to_index(&location_domain)]);
+    .initialize_start_block(body, &mut entry[Location::START.to_index(&location_domain)]);
 
   let mut dirty_queue: WorkQueue<LocationOrArgIndex> = WorkQueue::with_none(num_locs);
   if A::Direction::IS_FORWARD {
@@ -83,6 +87,7 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
     let LocationOrArg::Location(location) = *location_domain.value(loc_index) else {
       unreachable!()
     };
+    state[loc_index] = entry[loc_index].clone();
     let next_locs = match body.stmt_at(location) {
       Either::Left(statement) => {
         analysis.apply_primary_statement_effect(
@@ -111,8 +116,7 @@ pub fn iterate_to_fixpoint<'tcx, A: Analysis<'tcx>>(
 
     for next_loc in next_locs {
       let next_loc_index = location_domain.index(&LocationOrArg::Location(next_loc));
-      let (cur_state, next_state) = state.pick2_mut(loc_index, next_loc_index);
-      let changed = next_state.join(cur_state);
+      let changed = entry[next_loc_index].join(&state[loc_index]);
       if changed {
         dirty_queue.insert(next_loc_index);
       }
-- 
2.43.0


From db3882c10409c876af99617bf2af2787fd8e1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:08 +0000
Subject: [PATCH 8/9] fix: reading or writing an array element depends on the
 index

---
 crates/flowistry/src/infoflow/analysis.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index 7613f88..eb9cb74 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -118,7 +118,20 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
             .iter()
             .flat_map(|alias| self.place_info.conflicts(*alias))
         });
-    conflicts.chain(provenance).copied().collect()
+    // The index of an array access decides which element is accessed. Normalized places
+    // use the return place for an arbitrary index.
+    let indices =
+      place
+        .projection
+        .iter()
+        .filter_map(|elem| match elem {
+          ProjectionElem::Index(index) if index != RETURN_PLACE => {
+            Some(Place::from_local(index, self.tcx))
+          }
+          _ => None,
+        })
+        .flat_map(|index| self.place_info.conflicts(index));
+    conflicts.chain(provenance).chain(indices).copied().collect()
   }
 
   /// Returns all the dependencies of `place` within `state`.
-- 
2.43.0


From ec7c69db8e23e1e9a0700d2e0fcb1674fbb8cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 9/9] fix: writing an array element keeps the dependencies of
 the other elements

---
 crates/flowistry/src/infoflow/analysis.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/flowistry/src/infoflow/analysis.rs b/crates/flowistry/src/infoflow/analysis.rs
index eb9cb74..b2786ba 100644
--- a/crates/flowistry/src/infoflow/analysis.rs
+++ b/crates/flowistry/src/infoflow/analysis.rs
@@ -214,8 +214,18 @@ impl<'a, 'tcx> FlowAnalysis<'a, 'tcx> {
     let ignore_mut =
       is_extension_active(|mode| mode.mutability_mode == MutabilityMode::IgnoreMut);
     for (mt, deps) in mutations.iter().zip(&mut all_deps) {
-      // Clear sub-places of mutated place (if sound to do so)
+      // Clear sub-places of mutated place (if sound to do so). Array elements share one
+      // normalized place, so a write to one of them does not overwrite the others.
+      let is_element = mt.mutated.projection.iter().any(|elem| {
+        matches!(
+          elem,
+          ProjectionElem::Index(..)
+            | ProjectionElem::ConstantIndex { .. }
+            | ProjectionElem::Subslice { .. }
+        )
+      });
       if matches!(mt.status, MutationStatus::Definitely)
+        && !is_element
         && self.place_info.aliases(mt.mutated).len() == 1
       {
         for sub in self.place_info.children(mt.mutated).iter() {
-- 
2.43.0

