From 121d0500d8c666d48f291c0f7e5a2910386426b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 01/11] fix: truncate scores to four bits when packing
 relevance and score

GridEntry documents that scores are truncated to four bits, but a score above
15 spilled into the relevance bits and changed the stored relevance.
---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..8b43441 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From 339dbed2d73ba29851868f0204ffcf54958ef334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 02/11] fix: assign phrases to prefix bins without looping or
 misfiling

finish() never returned if a phrase ID was u32::MAX, and phrases below the first
bin boundary were filed into the first bin, so that range lookups over that bin
returned grids of phrases outside the range.
---
 rust-src/src/gridstore/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 8b43441..5ff2cca 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,10 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            // move on to the last boundary that is not past this phrase, if there is one
+            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
             }
 
             current_bin
-- 
2.43.0


From 7ef0939694e455cc89bf4109e7ee4609d228f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 03/11] fix: leave the builder's data alone if a renumbering
 fails

A renumber() that returned an error had already thrown away some or all of the
accumulated data, and a later finish() silently wrote the rest.
---
 rust-src/src/gridstore/builder.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 5ff2cca..5c6fdb0 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -153,17 +153,17 @@ impl GridStoreBuilder {
     /// In situations under which data has been inserted using temporary phrase IDs, renumber
     /// the data in the index to use final phrase IDs, given a temporary-to-final-ID mapping
     pub fn renumber(&mut self, tmp_phrase_ids_to_ids: &[u32]) -> Result<(), Error> {
-        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
-        std::mem::swap(&mut old_data, &mut self.data);
-
-        for (key, value) in old_data.into_iter() {
+        // work out all of the new keys before touching the data, so that it's left as it was if
+        // the mapping turns out to be unusable
+        let mut new_keys: BTreeMap<GridKey, GridKey> = BTreeMap::new();
+        for key in self.data.keys() {
             let new_phrase_id = tmp_phrase_ids_to_ids
                 .get(key.phrase_id as usize)
                 .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;
-            let new_key = GridKey { phrase_id: *new_phrase_id, ..key };
-            match self.data.entry(new_key) {
+            let new_key = GridKey { phrase_id: *new_phrase_id, lang_set: key.lang_set };
+            match new_keys.entry(new_key) {
                 Entry::Vacant(v) => {
-                    v.insert(value);
+                    v.insert(key.clone());
                 }
                 Entry::Occupied(_) => {
                     return Err(Error::from(BuildError::DuplicateRenumberEntry {
@@ -172,6 +172,14 @@ impl GridStoreBuilder {
                 }
             };
         }
+
+        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
+        std::mem::swap(&mut old_data, &mut self.data);
+        for (new_key, key) in new_keys {
+            if let Some(value) = old_data.remove(&key) {
+                self.data.insert(new_key, value);
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From 2da50c1d529c1e9ec7459ccec560f75177fc3130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 04/11] fix: don't drop a feature with ID 0 in single coalesces

The 'previous ID' started out as 0, so a leading grid of feature 0 with a
scoredist of 0 was taken for a repetition and skipped.
---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..209c806 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -86,7 +86,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -98,7 +98,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -140,7 +140,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -149,7 +149,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -871,7 +871,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -883,7 +883,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -925,7 +925,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -934,7 +934,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From f1679f0851b4bcdcb27deb23132f463af49fa5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 05/11] fix: find exact matches for phrase ID u32::MAX

Exact matches were looked up as the range id..id + 1, which overflows for the
largest ID, so nothing was found.
---
 rust-src/src/gridstore/store.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..1207906 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,21 +321,20 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
+        let range_key = match_key.clone();
         let mut db_key: Vec<u8> = Vec::new();
         range_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
-- 
2.43.0


From b722a086d840396b6b97e0e7d08bd9563a806180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 06/11] fix: coalesce of an empty stack returns no contexts
 instead of panicking

---
 rust-src/src/gridstore/coalesce.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 209c806..345593b 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -25,7 +25,9 @@ pub fn coalesce<T: Borrow<GridStore> + Clone + Debug>(
     stack: Vec<PhrasematchSubquery<T>>,
     match_opts: &MatchOpts,
 ) -> Result<Vec<CoalesceContext>, Error> {
-    let contexts = if stack.len() <= 1 {
+    let contexts = if stack.is_empty() {
+        Vec::new()
+    } else if stack.len() == 1 {
         coalesce_single(&stack[0], match_opts)?
     } else {
         coalesce_multi(stack, match_opts)?
-- 
2.43.0


From 7dec4b8643c2afe2b108adca4681607f6932da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 07/11] fix: keep nearby-only boxes from wrapping around at the
 edge of zoom 16

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..02f50f8 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -169,8 +169,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding),
+            prox[1].saturating_add(padding),
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From aa39b214093bdee2f12abc4a893d6603ed2461ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 08/11] fix: don't stack a phrase match on any index it can't
 overlap with, not just the last one

---
 rust-src/src/gridstore/stackable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust-src/src/gridstore/stackable.rs b/rust-src/src/gridstore/stackable.rs
index ae87be8..06c31ce 100644
--- a/rust-src/src/gridstore/stackable.rs
+++ b/rust-src/src/gridstore/stackable.rs
@@ -226,6 +226,7 @@ fn binned_stackable<'b, 'a: 'b, T: Borrow<GridStore> + Clone + Debug>(
         for phrasematch in phrasematch_group.phrasematches.iter() {
             if (node.mask & phrasematch.mask) == 0
                 && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
+                && node.bmask.contains(phrasematch.idx as usize) == false
             {
                 let target_relev = relev_so_far + phrasematch.weight;
                 let max_possible_relev = target_relev + *phrasematch_group.max_relev_after_this;
-- 
2.43.0


From 5c013f9a56b69f2bb57c7dd715ce255ea0a2a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 09/11] fix: keep all of a phrase match's keys when collapsing
 it into another

---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 345593b..eee6281 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -965,7 +965,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0


From d0c2af2f0c020ca0b271076d358da6ba9f742d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 10/11] fix: stopping early must not drop what the steps
 already taken lead to

Once 800 contexts are there and the best queued step cannot beat the worst of
them, tree_coalesce stopped after the current chunk. The children of the steps
in that chunk, which can be better than what was found, were never looked at,
so answers left out contexts better than others they returned.
---
 rust-src/src/gridstore/coalesce.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index eee6281..65b38a2 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -479,8 +479,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
         }
     }
 
-    let mut complete = false;
-    while steps.len() > 0 && !complete {
+    while steps.len() > 0 {
         // as long as there's still work to do, we'll execute it a chunk at a time, peeling off
         // the next few best nodes, and executing on them in parallel
         let mut step_chunk = Vec::with_capacity(COALESCE_CHUNK_SIZE);
@@ -498,7 +497,9 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                     if step.node.max_relev
                         <= contexts.peek_min().expect("contexts can't be empty").relev
                     {
-                        complete = true;
+                        // steps come best first, so nothing that is still queued can beat it
+                        // either; what the steps already in this chunk lead to still can
+                        steps.clear();
                         break;
                     }
                 }
-- 
2.43.0


From aa7be32c04ff308968a80ec85c2effb2311c148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 11/11] fix: count a fetch that steps share once against the
 high-zoom quotas

The quotas for fetches from high-zoom indexes were charged once per step that
wanted a fetch, so up to eight times for one fetch shared in a chunk, unlike
the other quotas, and later phrases were dropped although fewer fetches had
been made than the quota allows.
---
 rust-src/src/gridstore/coalesce.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 65b38a2..737de7f 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -572,7 +572,11 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                         }
 
                         // quotas for high-zoom indexes other than single-word ones
-                        if subquery.store.borrow().might_be_slow() && !key_group.nearby_only {
+                        // (a fetch that several steps of this chunk share counts once)
+                        if subquery.store.borrow().might_be_slow()
+                            && !key_group.nearby_only
+                            && !unique_keys.contains(&(key_group.id, is_single))
+                        {
                             if is_range {
                                 if all_high_zoom_range_count < ALL_HIGH_ZOOM_RANGE_QUOTA {
                                     all_high_zoom_range_count += 1;
-- 
2.43.0

