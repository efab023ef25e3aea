From c650194b13061b3d90c7fc70eb2e4a5428f34063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 01/14] fix: group only phrases at or above the first bin
 boundary into bins

Phrases below the first boundary were merged into the first bin, so a query
over it returned them; and the phrase id u32::MAX, which no boundary exceeds,
made finish() loop forever.
---
 rust-src/src/gridstore/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 545ecda..56dffe3 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -191,11 +191,10 @@ impl GridStoreBuilder {
 
         let mut bin_seq = self.bin_boundaries.iter().cloned().peekable();
         let mut current_bin = None;
-        let mut next_boundary = 0u32;
         let grouped = somewhat_eager_groupby(self.data.into_iter(), |(key, _value)| {
-            while key.phrase_id >= next_boundary {
+            // phrases below the first boundary belong to no bin
+            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                 current_bin = bin_seq.next();
-                next_boundary = *(bin_seq.peek().unwrap_or(&std::u32::MAX));
             }
 
             current_bin
-- 
2.43.0


From db684cbaf70d90ff1491ee27f68ddd6da0ffa5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 02/14] fix: find the exact phrase u32::MAX

The end of the fetch range overflowed.
---
 rust-src/src/gridstore/store.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 648a933..1207906 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -321,21 +321,20 @@ impl GridStore {
         match_opts: &MatchOpts,
         max_values: usize,
     ) -> Result<impl Iterator<Item = MatchEntry>, Error> {
-        let (fetch_start, fetch_end, fetch_type_marker) = match match_key.match_phrase {
-            MatchPhrase::Exact(id) => (id, id + 1, TypeMarker::SinglePhrase),
+        let fetch_type_marker = match match_key.match_phrase {
+            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
             MatchPhrase::Range { start, end } => {
                 if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
-                    (start, end, TypeMarker::PrefixBin)
+                    TypeMarker::PrefixBin
                 } else {
-                    (start, end, TypeMarker::SinglePhrase)
+                    TypeMarker::SinglePhrase
                 }
             }
         };
 
         let match_opts = match_opts.clone();
 
-        let mut range_key = match_key.clone();
-        range_key.match_phrase = MatchPhrase::Range { start: fetch_start, end: fetch_end };
+        let range_key = match_key.clone();
         let mut db_key: Vec<u8> = Vec::new();
         range_key.write_start_to(fetch_type_marker, &mut db_key)?;
 
-- 
2.43.0


From 345083202cd1e08133a7e9753ff64e51939bc713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 03/14] fix: truncate scores to the four bits kept of them

A larger score changed the stored relevance of its entry.
---
 rust-src/src/gridstore/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/builder.rs b/rust-src/src/gridstore/builder.rs
index 56dffe3..e4528a8 100644
--- a/rust-src/src/gridstore/builder.rs
+++ b/rust-src/src/gridstore/builder.rs
@@ -22,7 +22,7 @@ pub struct GridStoreBuilder {
 /// Extends a BuildEntry with the given values.
 fn extend_entries(builder_entry: &mut BuilderEntry, values: Vec<GridEntry>) -> () {
     for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
-        (relev_float_to_int(value.relev) << 4) | value.score
+        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
     }) {
         let rs_entry =
             builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
@@ -133,7 +133,7 @@ impl GridStoreBuilder {
         let to_append =
             self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::with_capacity(1));
 
-        let relev_score = (relev_float_to_int(relev) << 4) | score;
+        let relev_score = (relev_float_to_int(relev) << 4) | (score & 15);
         let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];
         let relevance_score_entry =
             to_append.entry(relev_score).or_insert_with(|| HashMap::with_capacity(coords.len()));
-- 
2.43.0


From 595cfb94b5f1c7f4fa4544ade543f728ad2f53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 04/14] fix: keep the nearby-only box from wrapping around at
 the far edge of zoom 16

---
 rust-src/src/gridstore/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 5d3691d..02f50f8 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -169,8 +169,8 @@ impl MatchOpts {
         let mut new_box: [u16; 4] = [
             if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
             if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto
-            prox[0] + padding,
-            prox[1] + padding,
+            prox[0].saturating_add(padding),
+            prox[1].saturating_add(padding),
         ];
 
         if let Some(old_box) = constrained.bbox {
-- 
2.43.0


From b7b3ba44559acbdb7b4ea1d520e54f8f56c13dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 05/14] fix: adjust points and boxes between zooms 0 and 16

Shifting a 16-bit number by 16 overflows.
---
 rust-src/src/gridstore/common.rs  | 15 ++++++++++-----
 rust-src/src/gridstore/spatial.rs | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/rust-src/src/gridstore/common.rs b/rust-src/src/gridstore/common.rs
index 02f50f8..cf9ef27 100644
--- a/rust-src/src/gridstore/common.rs
+++ b/rust-src/src/gridstore/common.rs
@@ -132,18 +132,23 @@ impl MatchOpts {
                         // If this is a zoom out, divide by 2 for every level of zooming out.
                         let zoom_levels = self.zoom - target_z;
                         // Shifting to the right by a number is the same as dividing by 2 that number of times.
-                        Some([x >> zoom_levels, y >> zoom_levels])
+                        // This happens in 32 bits because there might be 16 levels.
+                        Some([
+                            ((*x as u32) >> zoom_levels) as u16,
+                            ((*y as u32) >> zoom_levels) as u16,
+                        ])
                     } else {
                         // If this is a zoom in, choose the closest to the middle of the possible tiles at the higher zoom level.
                         // The scale of the coordinates for zooming in is 2^(difference in zs).
-                        let scale_multiplier = 1 << (target_z - self.zoom);
+                        // This happens in 32 bits because the scale might be 2^16.
+                        let scale_multiplier = 1u32 << (target_z - self.zoom);
                         // Pick a coordinate halfway between the possible higher zoom tiles,
                         // subtracting one to pick the one on the top left of the four middle tiles for consistency.
                         let mid_coord_adjuster = scale_multiplier / 2 - 1;
-                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
-                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_x = *x as u32 * scale_multiplier + mid_coord_adjuster;
+                        let adjusted_y = *y as u32 * scale_multiplier + mid_coord_adjuster;
 
-                        Some([adjusted_x, adjusted_y])
+                        Some([adjusted_x as u16, adjusted_y as u16])
                     }
                 }
                 None => None,
diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 38034b5..2867aca 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -604,26 +604,26 @@ pub fn adjust_bbox_zoom(bbox: [u16; 4], source_z: u16, target_z: u16) -> [u16; 4
         let zoom_levels = source_z - target_z;
         // If this is a zoom out, divide each coordinate by 2^(number of zoom levels).
         // This is the same as shifting bits to the right by the number of zoom levels.
+        // Do this at u32 because there might be 16 levels.
         [
-            bbox[0] >> zoom_levels,
-            bbox[1] >> zoom_levels,
-            bbox[2] >> zoom_levels,
-            bbox[3] >> zoom_levels,
+            ((bbox[0] as u32) >> zoom_levels) as u16,
+            ((bbox[1] as u32) >> zoom_levels) as u16,
+            ((bbox[2] as u32) >> zoom_levels) as u16,
+            ((bbox[3] as u32) >> zoom_levels) as u16,
         ]
     } else {
         // If this is a zoom in
-        let scale_multiplier = 1 << (target_z - source_z);
+        let scale_multiplier = 1u32 << (target_z - source_z);
 
         // Scale the top left (min x and y) tile coordinates by 2^(zoom diff).
         // Scale the bottom right (max x and y) tile coordinates by 2^(zoom diff),
         // and add the new number of tiles (-1) to get the outer edge of possible tiles.
-        // We subtract 1 from the scale_multiplier before adding to prevent an integer overflow
-        // given that we're using a 16bit integer
+        // We do this at u32 to prevent an integer overflow, given that the scale might be 2^16.
         [
-            bbox[0] * scale_multiplier,
-            bbox[1] * scale_multiplier,
-            bbox[2] * scale_multiplier + (scale_multiplier - 1),
-            bbox[3] * scale_multiplier + (scale_multiplier - 1),
+            (bbox[0] as u32 * scale_multiplier) as u16,
+            (bbox[1] as u32 * scale_multiplier) as u16,
+            (bbox[2] as u32 * scale_multiplier + (scale_multiplier - 1)) as u16,
+            (bbox[3] as u32 * scale_multiplier + (scale_multiplier - 1)) as u16,
         ]
     }
 }
-- 
2.43.0


From f9d4ff43f13f1fa3c5e8a3fe3524abb71dafafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 06/14] fix: coalesce indexes at zoom 16 with ones at zoom 0

The scale factor between them does not fit 16 bits.
---
 rust-src/src/gridstore/coalesce.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 956f3de..a9e0b56 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -230,11 +230,11 @@ fn coalesce_multi<T: Borrow<GridStore> + Clone>(
             // See which other zooms are compatible.
             // These should all be lower zooms, so "zoom out" by dividing by 2^(difference in zooms)
             for other_zoom in compatible_zooms.iter() {
-                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
+                let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - *other_zoom);
                 let other_zxy = (
                     *other_zoom,
-                    entries[0].grid_entry.x / scale_factor,
-                    entries[0].grid_entry.y / scale_factor,
+                    (entries[0].grid_entry.x as u32 / scale_factor) as u16,
+                    (entries[0].grid_entry.y as u32 / scale_factor) as u16,
                 );
 
                 if let Some(already_coalesced) = coalesced.get(&other_zxy) {
@@ -702,7 +702,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                     let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
 
-                    let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
+                    let scale_factor: u32 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);
 
                     let mut state_contexts: Vec<CoalesceContext> = Vec::new();
 
@@ -722,8 +722,8 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             // we're stacking on top of something that was already there
                             for grid in grids.iter() {
                                 let prev_zoom_xy = (
-                                    grid.grid_entry.x / scale_factor,
-                                    grid.grid_entry.y / scale_factor,
+                                    (grid.grid_entry.x as u32 / scale_factor) as u16,
+                                    (grid.grid_entry.y as u32 / scale_factor) as u16,
                                 );
 
                                 let entry = grid_to_coalesce_entry(
-- 
2.43.0


From d4f2fc0f149adae5e95beed3f432bc9215e1dbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 07/14] fix: find nothing, without panicking, when nearby-only
 meets a distant bbox

Restricting options whose bbox does not meet the nearby box leaves an empty
box, which tripped an assertion in debug builds.
---
 rust-src/src/gridstore/spatial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust-src/src/gridstore/spatial.rs b/rust-src/src/gridstore/spatial.rs
index 2867aca..c0947fe 100644
--- a/rust-src/src/gridstore/spatial.rs
+++ b/rust-src/src/gridstore/spatial.rs
@@ -12,6 +12,10 @@ use crate::gridstore::gridstore_format;
 /// Returns (Some(min,max)) if the Coord Vector morton order range overlaps with the bounding box,
 /// [`None`] if the Coord Vector morton order range does not overlaps with the bounding box
 pub fn bbox_range<'a>(coords: UniformVec<'a, Coord>, bbox: [u16; 4]) -> Option<(u32, u32)> {
+    if bbox[0] > bbox[2] || bbox[1] > bbox[3] {
+        // the intersection of two boxes that do not meet
+        return None;
+    }
     let min = interleave_morton(bbox[0], bbox[1]);
     let max = interleave_morton(bbox[2], bbox[3]);
     debug_assert!(min <= max, "Invalid bounding box");
-- 
2.43.0


From 2f352f13cd0916ab33521b4d05d78e9e43585f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 08/14] fix: keep a feature with id 0 and score 0

When it came first it was taken for a repetition of a feature before it.
---
 rust-src/src/gridstore/coalesce.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index a9e0b56..4f04bda 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -86,7 +86,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         bigger_max,
     )?;
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -98,7 +98,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -140,7 +140,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -149,7 +149,7 @@ fn coalesce_single<T: Borrow<GridStore> + Clone>(
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
@@ -871,7 +871,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
     let bigger_max = 2 * MAX_CONTEXTS;
 
     let mut max_relevance: f64 = 0.;
-    let mut previous_id: u32 = 0;
+    let mut previous_id: Option<u32> = None;
     let mut previous_relevance: f64 = 0.;
     let mut previous_scoredist: f64 = 0.;
     let mut min_scoredist = std::f64::MAX;
@@ -883,7 +883,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         let coalesce_entry = grid_to_coalesce_entry(&grid, &subquery, match_opts, phrasematch_id);
 
         // If it's the same feature as the last one, but a lower scoredist don't add it
-        if previous_id == coalesce_entry.grid_entry.id
+        if previous_id == Some(coalesce_entry.grid_entry.id)
             && coalesce_entry.scoredist <= previous_scoredist
         {
             continue;
@@ -925,7 +925,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
             }
         }
 
-        if previous_id != current_id {
+        if previous_id != Some(current_id) {
             feature_count += 1;
         }
         if match_opts.proximity.is_none() && feature_count > bigger_max {
@@ -934,7 +934,7 @@ fn tree_coalesce_single<T: Borrow<GridStore> + Clone, U: Iterator<Item = MatchEn
         if current_scoredist < min_scoredist {
             min_scoredist = current_scoredist;
         }
-        previous_id = current_id;
+        previous_id = Some(current_id);
         previous_relevance = current_relev;
         previous_scoredist = current_scoredist;
     }
-- 
2.43.0


From 927f0fe620ac8833d35bc25d1c11cee60f116627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 09/14] fix: coalescing an empty stack finds nothing instead of
 panicking

---
 rust-src/src/gridstore/coalesce.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 4f04bda..93c8a95 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -25,7 +25,10 @@ pub fn coalesce<T: Borrow<GridStore> + Clone + Debug>(
     stack: Vec<PhrasematchSubquery<T>>,
     match_opts: &MatchOpts,
 ) -> Result<Vec<CoalesceContext>, Error> {
-    let contexts = if stack.len() <= 1 {
+    if stack.is_empty() {
+        return Ok(Vec::new());
+    }
+    let contexts = if stack.len() == 1 {
         coalesce_single(&stack[0], match_opts)?
     } else {
         coalesce_multi(stack, match_opts)?
-- 
2.43.0


From be05c4435044f4687eebf5b79c955c7c2cfd457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 10/14] fix: keep every match key when grouping phrase matches

---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 93c8a95..882efee 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -966,7 +966,7 @@ pub fn collapse_phrasematches<T: Borrow<GridStore> + Clone + Debug>(
                 entry.insert(phrasematch);
             }
             IndexMapEntry::Occupied(mut grouped_phrasematch) => {
-                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
+                grouped_phrasematch.get_mut().match_keys.extend(phrasematch.match_keys);
             }
         }
     }
-- 
2.43.0


From 05da52e110eb8f4cbf8c66948f6eb0eac4c7136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 11/14] fix: coalesce the children of steps already taken
 before stopping

---
 rust-src/src/gridstore/coalesce.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 882efee..51d1f97 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -480,8 +480,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
         }
     }
 
-    let mut complete = false;
-    while steps.len() > 0 && !complete {
+    while steps.len() > 0 {
         // as long as there's still work to do, we'll execute it a chunk at a time, peeling off
         // the next few best nodes, and executing on them in parallel
         let mut step_chunk = Vec::with_capacity(COALESCE_CHUNK_SIZE);
@@ -499,7 +498,9 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                     if step.node.max_relev
                         <= contexts.peek_min().expect("contexts can't be empty").relev
                     {
-                        complete = true;
+                        // neither this step nor any of those left in the queue can, but what we've
+                        // already got in this chunk might still lead to steps that can
+                        steps = MinMaxHeap::new();
                         break;
                     }
                 }
-- 
2.43.0


From 153900fc6733eefd50e86035bb57ff141cf4e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 12/14] fix: charge lookup quotas only for what is looked up

A match skipped because of one quota had already been charged to the others, and one already queued in the
same chunk was charged to the high-zoom quotas again, so that fewer matches were looked up than allowed.
---
 rust-src/src/gridstore/coalesce.rs | 116 +++++++++++++++--------------
 1 file changed, 60 insertions(+), 56 deletions(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index 51d1f97..f05246c 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -528,68 +528,72 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
                             MatchPhrase::Range { start, end } => end - start > 1,
                         };
 
-                        if is_range == true && subquery.mask.count_ones() == 1 {
-                            if subquery.store.borrow().might_be_slow()
-                                && step.node.is_leaf()
-                                && step.possible_relev
-                                    <= 0.75
-                                        * contexts
-                                            .peek_max()
-                                            .map_or(0.0, |coalesce_context| coalesce_context.relev)
-                            {
-                                // this is a potentially-slow leaf subquery in a high-zoom index
-                                // that isn't likely to make our best results better, so skip it
-                                continue;
-                            } else if !unique_keys.contains(&(key_group.id, is_single)) {
-                                if key_group.phrase_length == 1 {
-                                    // even though this isn't a leaf node or a high-zoom index, it's a single-letter query,
-                                    // which could be *really* slow and is pretty low-information, so set a quota to constrain
-                                    // the total number of these we can end up fetching
-                                    if one_letter_range_count < ONE_LETTER_RANGE_QUOTA {
-                                        one_letter_range_count += 1;
-                                    } else {
-                                        continue;
-                                    }
-                                }
+                        let is_one_word_range = is_range == true && subquery.mask.count_ones() == 1;
+                        let might_be_slow = subquery.store.borrow().might_be_slow();
+
+                        if is_one_word_range
+                            && might_be_slow
+                            && step.node.is_leaf()
+                            && step.possible_relev
+                                <= 0.75
+                                    * contexts
+                                        .peek_max()
+                                        .map_or(0.0, |coalesce_context| coalesce_context.relev)
+                        {
+                            // this is a potentially-slow leaf subquery in a high-zoom index
+                            // that isn't likely to make our best results better, so skip it
+                            continue;
+                        }
 
+                        if !unique_keys.contains(&(key_group.id, is_single)) {
+                            let mut quotas = [
+                                // even if this isn't a leaf node or a high-zoom index, if it's a single-letter query,
+                                // it could be *really* slow and is pretty low-information, so set a quota to constrain
+                                // the total number of these we can end up fetching
+                                (
+                                    is_one_word_range && key_group.phrase_length == 1,
+                                    &mut one_letter_range_count,
+                                    ONE_LETTER_RANGE_QUOTA,
+                                ),
                                 // limit the number of single-word scans of high-zoom indexes (but exempt numerical autocomplete)
-                                if subquery.store.borrow().might_be_slow() && !key_group.nearby_only
-                                {
-                                    if one_word_high_zoom_range_count
-                                        < ONE_WORD_HIGH_ZOOM_RANGE_QUOTA
-                                    {
-                                        one_word_high_zoom_range_count += 1;
-                                    } else {
-                                        continue;
-                                    }
-                                }
-
-                                if one_word_range_count < ONE_WORD_RANGE_QUOTA {
-                                    one_word_range_count += 1;
-                                } else {
-                                    continue;
-                                }
+                                (
+                                    is_one_word_range && might_be_slow && !key_group.nearby_only,
+                                    &mut one_word_high_zoom_range_count,
+                                    ONE_WORD_HIGH_ZOOM_RANGE_QUOTA,
+                                ),
+                                (
+                                    is_one_word_range,
+                                    &mut one_word_range_count,
+                                    ONE_WORD_RANGE_QUOTA,
+                                ),
+                                // quotas for high-zoom indexes other than single-word ones
+                                (
+                                    is_range && might_be_slow && !key_group.nearby_only,
+                                    &mut all_high_zoom_range_count,
+                                    ALL_HIGH_ZOOM_RANGE_QUOTA,
+                                ),
+                                (
+                                    might_be_slow && !key_group.nearby_only,
+                                    &mut all_high_zoom_count,
+                                    ALL_HIGH_ZOOM_QUOTA,
+                                ),
+                            ];
+
+                            // only what we're really going to fetch counts, so see whether all of
+                            // the quotas that apply allow it before using any of them
+                            if quotas
+                                .iter()
+                                .any(|(applies, count, quota)| *applies && **count >= *quota)
+                            {
+                                continue;
                             }
-                        }
-
-                        // quotas for high-zoom indexes other than single-word ones
-                        if subquery.store.borrow().might_be_slow() && !key_group.nearby_only {
-                            if is_range {
-                                if all_high_zoom_range_count < ALL_HIGH_ZOOM_RANGE_QUOTA {
-                                    all_high_zoom_range_count += 1;
-                                } else {
-                                    continue;
+                            for (applies, count, _) in quotas.iter_mut() {
+                                if *applies {
+                                    **count += 1;
                                 }
                             }
 
-                            if all_high_zoom_count < ALL_HIGH_ZOOM_QUOTA {
-                                all_high_zoom_count += 1;
-                            } else {
-                                continue;
-                            }
-                        }
-
-                        if unique_keys.insert((key_group.id, is_single)) {
+                            unique_keys.insert((key_group.id, is_single));
                             enqueued_work_in_this_iter = true;
                             keys.push(KeyFetchStep {
                                 key_id: key_group.id,
-- 
2.43.0


From 63869d43c19b9a003e2bf08e143137fdf8d89d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 13/14] fix: a phrase range that ends before it starts holds no
 phrases

Its length was computed by an unchecked subtraction, which panics when overflow checks are on.
---
 rust-src/src/gridstore/coalesce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/coalesce.rs b/rust-src/src/gridstore/coalesce.rs
index f05246c..2520789 100644
--- a/rust-src/src/gridstore/coalesce.rs
+++ b/rust-src/src/gridstore/coalesce.rs
@@ -525,7 +525,7 @@ pub fn tree_coalesce<T: Borrow<GridStore> + Clone + Debug + Send + Sync>(
 
                         let is_range = match key_group.key.match_phrase {
                             MatchPhrase::Exact(_) => false,
-                            MatchPhrase::Range { start, end } => end - start > 1,
+                            MatchPhrase::Range { start, end } => end.saturating_sub(start) > 1,
                         };
 
                         let is_one_word_range = is_range == true && subquery.mask.count_ones() == 1;
-- 
2.43.0


From 375b68ba0108c3d13a51d30ecc21d16f1c8bb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 14/14] fix: ask for no results without panicking

---
 rust-src/src/gridstore/store.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust-src/src/gridstore/store.rs b/rust-src/src/gridstore/store.rs
index 1207906..5cffd60 100644
--- a/rust-src/src/gridstore/store.rs
+++ b/rust-src/src/gridstore/store.rs
@@ -352,7 +352,11 @@ impl GridStore {
             if let Some(next_entry) = entry_iter.next() {
                 let queue_element = QueueElement { next_entry, entry_iter };
                 if pri_queue.len() >= max_values {
-                    let worst_entry = pri_queue.peek_min().unwrap();
+                    let worst_entry = match pri_queue.peek_min() {
+                        Some(worst_entry) => worst_entry,
+                        // no values are wanted
+                        None => break,
+                    };
                     if worst_entry >= &queue_element {
                         continue;
                     } else {
-- 
2.43.0

