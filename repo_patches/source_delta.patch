From f33c1b9832d2803fd4d689f676b6c93b287aec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:59 +0000
Subject: [PATCH 01/15] fix: report PnBlock parse errors at their real position

tok_indices already adds the offset of the current block, so adding it a
second time gave positions past the end of the input for every block after
the first; and the range of a bad place notation ended one byte too late,
covering the delimiter (and possibly splitting a multi-byte character).
---
 src/place_not.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..9d6916e 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,8 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        // Note that the indices in `tok_indices` already include `byte_offset`
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
@@ -537,7 +537,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From 92c2eec1818a056529f010dc29ab83ebf396e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 02/15] fix: AnnotBlock::extend_range copies only the
 annotations in the range

All of the other block's annotations were appended whatever the range was,
which broke the invariant rows.len() == annots.len() + 1.
---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..e49fade 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -332,7 +332,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(other.annots[range].iter().cloned());
 
         Ok(())
     }
-- 
2.43.0


From e3e860f86afe05709c108d4e753846b0a368b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 03/15] fix: check the other vector's stage in
 SameStageVec::extend_range_transposed

Rows of a smaller stage were copied in without any check, which made invalid
rows from safe code; a larger stage panicked.
---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..c89d40a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 8725730fa6c9188a8daa320fdcf6e690dcb1e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 04/15] fix: huge indices are out of bounds in
 SameStageVec::{get, get_mut, split}

The multiplication by the stage overflowed: a panic in debug builds, and in
release builds `get` could return a row for an index far out of bounds.
---
 src/row/same_stage_vec.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index c89d40a..40d076a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -364,7 +364,7 @@ impl SameStageVec {
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
         let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+            utils::split_vec(self.bells, index.saturating_mul(self.stage.num_bells()))?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -390,7 +390,8 @@ impl SameStageVec {
     /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
     fn get_range_of_row(&self, index: usize) -> Range<usize> {
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        // Saturating, so that a huge `index` is out of bounds rather than wrapping round
+        index.saturating_mul(s)..index.saturating_add(1).saturating_mul(s)
     }
 }
 
-- 
2.43.0


From af3768da4d1d9592e99617c522dee46f1094ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 05/15] fix: SameStageVec::parse("") returns an error instead
 of panicking

str::lines yields nothing for an empty string, so unwrapping the first line
panicked (also for AnnotBlock::parse).
---
 src/row/same_stage_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 40d076a..36a0a3a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,7 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        let (_one, first_line) = line_iter.next().unwrap_or((1, "")); // The empty string contains no lines
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From 74ca786d846ea795c8b3d50270394f4ec408b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 06/15] fix: Mask::as_row never creates an invalid row

Masks with repeated bells or bells outside the stage can be parsed, and match
no row at all; but as_row turned them into an invalid RowBuf from safe code.
---
 src/mask.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..5bf2457 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,10 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
-        } else {
-            None
-        }
+        // A complete mask isn't necessarily a valid row, because `Mask::parse` accepts masks with
+        // repeated bells or bells outside the stage (and these masks match no rows)
+        let bells = self.bells.iter().copied().collect::<Option<Vec<Bell>>>()?;
+        RowBuf::from_vec(bells).ok()
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
-- 
2.43.0


From c51aa39a7fba68aff5ae2e487589b1109cacbf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 07/15] fix: Regex::all_runs with a length of 0 makes
 normalised patterns

`**` was created without normalising, so matching it against any row hit the
unreachable!() in run_match.
---
 src/music.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..b7980c1 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -226,24 +226,19 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // This unsafety is OK because all of the input patterns must be normalised because
-            // they contain only one wildcard
-            let descending_regex = unsafe {
-                // Descending runs (e.g. `*1234*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
-            let ascending_regex = unsafe {
-                // Ascending runs (e.g. `*4321*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone().rev())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
+            // These patterns do need normalising, because the two globs are adjacent if `len == 0`
+            // Descending runs (e.g. `*1234*`)
+            let descending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone())
+                    .chain(once(RegexElem::Glob)),
+            );
+            // Ascending runs (e.g. `*4321*`)
+            let ascending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone().rev())
+                    .chain(once(RegexElem::Glob)),
+            );
 
             runs.push(descending_regex);
             runs.push(ascending_regex);
-- 
2.43.0


From 7d167d28f05c8a7b76cce480c7ca8bfbd02e2087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 08/15] fix: Regex::num_matching_rows counts the rows which
 match

The bells in the wildcards were counted as if unordered, the number of globs
was confused with the number of wildcards, patterns without globs, with too
many wildcards or with repeated or out-of-stage bells panicked or gave nonzero
counts, and the final multiplication could overflow.
---
 src/music.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index b7980c1..aa6fa42 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -286,8 +286,8 @@ impl Regex {
         // assign a bell to each of the 'x's, then (for each of these assignments) partition the
         // remaining bells between the '*'s.
         //
-        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i`.  Now we're
-        // left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
+        // The number of assignments of `n` bells into `i` 'x's is `n choose i` (the bells which go
+        // into 'x's) times `i!` (the orders in which they do so).  Now we're left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
         // simple, but nonetheless there is a nice way to re-frame the problem: instead of
         // distributing the bells into `j` '*'s, we choose to split the bells up by inserting
         // `j - 1` identical barriers.
@@ -299,7 +299,8 @@ impl Regex {
         //
         // Now to find the formula: there are `(n - i + j - 1)!` arrangements of the bells and
         // barriers, but the barriers are all identical so these permutations are over-counted by
-        // `(j - 1)!` times (assuming that `(-1)! = 1`).  Putting this together, for each way of
+        // `(j - 1)!` times.  (If there are no '*'s, then this is only possible if there are no bells
+        // left over, i.e. if `n = i`).  Putting this together, for each way of
         // assigning bells to 'x's there are `(n - i + j - 1)! / (j - 1)!` ways to distribute the
         // remaining bells into the '*'s.
         //
@@ -310,24 +311,37 @@ impl Regex {
         let mut num_unfixed = stage.num_bells(); // `n`, decremented for each fixed bell
         let mut num_wildcards = 0usize; // `i`
         let mut num_globs = 0usize; // `j`
-        for e in &self.elems {
+        for (idx, e) in self.elems.iter().enumerate() {
             match e {
-                RegexElem::Bell(_) => num_unfixed -= 1,
+                RegexElem::Bell(b) => {
+                    // No row contains bells outside its stage, or contains the same bell twice
+                    if b.index() >= stage.num_bells() || self.elems[..idx].contains(e) {
+                        return Some(0);
+                    }
+                    num_unfixed -= 1;
+                }
                 RegexElem::Any => num_wildcards += 1,
                 RegexElem::Glob => num_globs += 1,
             }
         }
 
-        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?;
+        // If there aren't enough bells to fill the 'x's, or there are bells left over with no '*' to
+        // put them in, then no row can match
+        if num_wildcards > num_unfixed || (num_globs == 0 && num_wildcards < num_unfixed) {
+            return Some(0);
+        }
+
+        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?
+            .checked_mul(num_wildcards.checked_factorial()?)?;
 
         // TODO: Compute the fraction directly to limit potential for overflow
         let num_bells_in_globs = num_unfixed - num_wildcards;
         let ways_to_fill_globs_numerator =
-            (num_bells_in_globs + num_wildcards.saturating_sub(1)).checked_factorial()?;
+            (num_bells_in_globs + num_globs.saturating_sub(1)).checked_factorial()?;
         let ways_to_fill_globs_denominator = num_globs.saturating_sub(1).checked_factorial()?;
         let ways_to_fill_globs = ways_to_fill_globs_numerator / ways_to_fill_globs_denominator;
 
-        Some(ways_to_fill_wildcards * ways_to_fill_globs)
+        ways_to_fill_wildcards.checked_mul(ways_to_fill_globs)
     }
 
     /// Returns `true` if a given [`Row`] satisfies this `Regex`, and `false` otherwise.  If the
-- 
2.43.0


From 72c7608d63831df7427d0c1dd68b7d5121d91af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 09/15] fix: Row::fast_hash doesn't overflow on 16 or more
 bells

---
 src/row/borrowed.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..a6b8659 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,11 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From 6637cc08b2d1ed0f1bf1afc96aea9a4562775a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 10/15] fix: Bells are serialised by number, so that
 deserialising restores them

---
 src/bell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..1c448d8 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,6 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From 9a88c0cc154b0db7ca66a84bd76d2eb4873b230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 11/15] fix: deserialising a Stage from 0 is an error, not a
 panic

---
 src/stage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..13b7523 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +445,7 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        Stage::try_from(val as usize).map_err(E::custom)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From 4b1b2014dc9f9d8f9198d6241f096cb96a8e0bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 12/15] fix: generate a title for methods on stages too big to
 have a name

---
 src/method/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..f734603 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -216,7 +216,7 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         s.push(' ');
     }
     // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    s.push_str(&stage.to_string());
 
     s
 }
-- 
2.43.0


From a4da42364fc7625ac8d8819900361d4fe36c334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 13/15] fix: MethodLib::from_json returns an error for invalid
 stages or classes

---
 src/method_lib/lib_serde.rs | 19 +++++++++++--------
 src/method_lib/mod.rs       |  5 ++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..95113a0 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use itertools::Itertools;
 use serde_crate::{Deserialize, Serialize};
@@ -78,18 +78,21 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = String;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, String> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(|e| e.to_string())?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id)
+                    .ok_or_else(|| format!("Invalid Class ID {}", group.class_id))?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +123,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +202,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..b68f100 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "method_lib_serde")]
+use std::convert::TryInto;
 use std::{cmp::Ordering, collections::HashMap};
 
 use edit_distance::edit_distance;
@@ -166,7 +168,8 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        serde_json::from_str::<lib_serde::MethodLibSerde>(json)
+            .and_then(|lib| lib.try_into().map_err(serde_crate::de::Error::custom))
     }
 }
 
-- 
2.43.0


From f088ec5bdf7fe87e17512acfaaeafacac5cb73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:44 +0000
Subject: [PATCH 14/15] fix: asking for 0 title suggestions returns no
 suggestions instead of panicking

---
 src/method_lib/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index b68f100..00fbe11 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -123,6 +123,10 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        // `Shortlist`s can't have a capacity of 0
+        if num_suggestions == 0 {
+            return Vec::new();
+        }
         // Test each method as a suggestion, pushing the suggestions into a shortlist
         let mut suggestion_shortlist = Shortlist::new(num_suggestions);
         for methods in self.method_map.values() {
-- 
2.43.0


From 3faffc2f04211604d3637a594b7c64e5bcb4bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 15/15] fix: give SameStageVec's Iter the exact size_hint which
 ExactSizeIterator requires

---
 src/row/same_stage_vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 36a0a3a..4b07456 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -437,6 +437,12 @@ pub struct Iter<'v> {
 impl<'v> Iterator for Iter<'v> {
     type Item = &'v Row;
 
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        // `ExactSizeIterator` requires this to be exact
+        (self.len(), Some(self.len()))
+    }
+
     fn next(&mut self) -> Option<Self::Item> {
         if self.bells_left.is_empty() {
             return None;
-- 
2.43.0

