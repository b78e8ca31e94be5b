From c38ae3f148f13663c002a3236abd31dbe07c852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 01/15] fix: check the stage of the other vector in
 SameStageVec::extend_range_transposed

Extending from a vector of a different stage panicked or silently produced
invalid rows instead of returning IncompatibleStages.
---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..c89d40a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 3b35ffe09889ec07d31b299982dddb798f79e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 02/15] fix: don't panic when parsing the empty string as a
 SameStageVec

str::lines yields nothing for an empty string, so SameStageVec::parse("")
and Block::parse("") panicked instead of returning an error.
---
 src/row/same_stage_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index c89d40a..80b29b7 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,8 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        // `str::lines` yields no lines for the empty string, which is treated as one empty line
+        let (_one, first_line) = line_iter.next().unwrap_or((1, ""));
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From b552b87bdf054ce78079fef130065aa14d1772c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 03/15] fix: return None for huge row indices in
 SameStageVec::get, get_mut and split

index * stage overflowed, which panics in debug builds and (in release)
wraps round to read some other row.
---
 src/row/same_stage_vec.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 80b29b7..d762447 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -173,7 +173,7 @@ impl SameStageVec {
 
     /// Gets a reference to the [`Row`] at a given `index`, or `None` if `index >= self.len()`.
     pub fn get(&self, index: usize) -> Option<&Row> {
-        let bell_slice = self.bells.get(self.get_range_of_row(index))?;
+        let bell_slice = self.bells.get(self.get_range_of_row(index)?)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
         Some(unsafe { Row::from_slice_unchecked(bell_slice) })
@@ -182,7 +182,7 @@ impl SameStageVec {
     /// Gets a mutable reference to the [`Row`] at a given `index`, or `None` if
     /// `index >= self.len()`.
     pub fn get_mut(&mut self, index: usize) -> Option<&mut Row> {
-        let range = self.get_range_of_row(index);
+        let range = self.get_range_of_row(index)?;
         let bell_slice = self.bells.get_mut(range)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
@@ -365,7 +365,7 @@ impl SameStageVec {
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
         let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+            utils::split_vec(self.bells, index.checked_mul(self.stage.num_bells())?)?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -388,10 +388,12 @@ impl SameStageVec {
         bell_range
     }
 
-    /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
-    fn get_range_of_row(&self, index: usize) -> Range<usize> {
+    /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`, or
+    /// `None` if that range isn't representable (in which case there can be no such [`Row`]).
+    fn get_range_of_row(&self, index: usize) -> Option<Range<usize>> {
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        let start = index.checked_mul(s)?;
+        Some(start..start.checked_add(s)?)
     }
 }
 
@@ -401,7 +403,8 @@ impl Index<usize> for SameStageVec {
     fn index(&self, index: usize) -> &Self::Output {
         // This unsafety is fine, because we require that every stage-aligned chunk of bells forms
         // a valid row according to the Framework
-        unsafe { Row::from_slice_unchecked(&self.bells[self.get_range_of_row(index)]) }
+        let range = self.get_range_of_row(index).expect("row index overflows");
+        unsafe { Row::from_slice_unchecked(&self.bells[range]) }
     }
 }
 
-- 
2.43.0


From b1538865387aa9c65554267c063634f3390c238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 04/15] fix: only extend with the annotations of the given
 range in AnnotBlock::extend_range

All of other's annotations were appended whatever the range, so the block
ended up with more annotations than annotated rows.
---
 src/block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..053e642 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -319,6 +319,9 @@ impl<A> AnnotBlock<A> {
         A: Clone,
     {
         let range = utils::clamp_range(range, other.len());
+        // Extract the annotations first, so that if `range` is out of bounds then this panics before
+        // `self` is modified
+        let new_annots = &other.annots[range.clone()];
 
         // `transposition` pre-multiplies `other`'s first row to `self`'s leftover row
         let transposition =
@@ -332,7 +335,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(new_annots.iter().cloned());
 
         Ok(())
     }
-- 
2.43.0


From 2ae967ce67217a1e38517bf6aea4879a26ac150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 05/15] fix: don't create invalid rows in Mask::as_row

Mask::parse and Mask::set_bell are safe and don't check that the mask can be
satisfied, so e.g. Mask::parse("11").as_row() returned an invalid Row.
---
 src/mask.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..8306a0f 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -164,9 +164,10 @@ impl Mask {
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
         if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
+            // A complete mask doesn't necessarily satisfy the invariants of `Row`: it could be
+            // empty, repeat a `Bell` (e.g. `Mask::parse("11")`) or contain a `Bell` which is out of
+            // its `Stage`.  Such a mask doesn't match any `Row`.
+            RowBuf::from_bell_iter(self.bells.iter().map(|b| b.unwrap())).ok()
         } else {
             None
         }
-- 
2.43.0


From a1edde1b3b0416fd54a09cc7de08e03ab1ea82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 06/15] fix: wrap instead of overflowing in Row::fast_hash

On 16 or more bells (the documented limit for collision resistance is 16)
the multiplier overflows, which panics in debug builds.
---
 src/row/borrowed.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..a6b8659 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,11 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From 37859e208efc23a1cb6d67ea197a5c8dc786f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 07/15] fix: don't overflow on isize::MIN in Row::pow_i

---
 src/row/borrowed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index a6b8659..eb13973 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -476,7 +476,7 @@ impl Row {
     /// Raises `self` to some (possibly negative) `exponent`
     pub fn pow_i(&self, exponent: isize) -> RowBuf {
         if exponent < 0 {
-            self.inv().pow_u((-exponent) as usize)
+            self.inv().pow_u(exponent.unsigned_abs())
         } else {
             self.pow_u(exponent as usize)
         }
-- 
2.43.0


From 2e9621373481628aff7d2272077c0459ebafb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 08/15] fix: report correct byte ranges for errors in
 PnBlock::parse

The offset of the sub-block was added twice, so errors in any but the first
sub-block were reported at the wrong place (or outside the string).  The
range also included the delimiter after the invalid notation, which for the
last notation of a sub-block is beyond its end.
---
 src/place_not.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..af535b3 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,7 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
@@ -537,7 +536,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From e0e43f2d1434f58c2bd32a236bc73823e36d38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 09/15] fix: count matching rows correctly in
 Regex::num_matching_rows

The formula used the number of 'x's where it needed the number of '*'s, didn't
count the orders in which bells can fill the 'x's, and panicked (subtraction
underflow) when the pattern is too long or fixes too many bells.
---
 src/music.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..7ff0cb9 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -291,8 +291,8 @@ impl Regex {
         // assign a bell to each of the 'x's, then (for each of these assignments) partition the
         // remaining bells between the '*'s.
         //
-        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i`.  Now we're
-        // left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
+        // The number of assignments of `n` bells into `i` 'x's is `(n choose i) * i!` (we choose `i`
+        // bells, which can then be put into the 'x's in any order).  Now we're left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
         // simple, but nonetheless there is a nice way to re-frame the problem: instead of
         // distributing the bells into `j` '*'s, we choose to split the bells up by inserting
         // `j - 1` identical barriers.
@@ -315,24 +315,37 @@ impl Regex {
         let mut num_unfixed = stage.num_bells(); // `n`, decremented for each fixed bell
         let mut num_wildcards = 0usize; // `i`
         let mut num_globs = 0usize; // `j`
-        for e in &self.elems {
+        for (i, e) in self.elems.iter().enumerate() {
             match e {
+                // No row contains a bell twice or a bell outside its stage
+                RegexElem::Bell(b)
+                    if b.index() >= stage.num_bells() || self.elems[..i].contains(e) =>
+                {
+                    return Some(0)
+                }
                 RegexElem::Bell(_) => num_unfixed -= 1,
                 RegexElem::Any => num_wildcards += 1,
                 RegexElem::Glob => num_globs += 1,
             }
         }
+        // Without any globs, the wildcards have to take exactly the unfixed bells.  With globs,
+        // there just have to be enough unfixed bells to fill the wildcards.
+        if num_wildcards > num_unfixed || (num_globs == 0 && num_wildcards < num_unfixed) {
+            return Some(0);
+        }
 
-        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?;
+        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?
+            .checked_mul(num_wildcards.checked_factorial()?)?;
 
         // TODO: Compute the fraction directly to limit potential for overflow
         let num_bells_in_globs = num_unfixed - num_wildcards;
+        let num_barriers = num_globs.saturating_sub(1);
         let ways_to_fill_globs_numerator =
-            (num_bells_in_globs + num_wildcards.saturating_sub(1)).checked_factorial()?;
-        let ways_to_fill_globs_denominator = num_globs.saturating_sub(1).checked_factorial()?;
+            (num_bells_in_globs + num_barriers).checked_factorial()?;
+        let ways_to_fill_globs_denominator = num_barriers.checked_factorial()?;
         let ways_to_fill_globs = ways_to_fill_globs_numerator / ways_to_fill_globs_denominator;
 
-        Some(ways_to_fill_wildcards * ways_to_fill_globs)
+        ways_to_fill_wildcards.checked_mul(ways_to_fill_globs)
     }
 
     /// Returns `true` if a given [`Row`] satisfies this `Regex`, and `false` otherwise.  If the
-- 
2.43.0


From a9867ad872e6dc13021f36130a4805f741df5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 10/15] fix: normalise the patterns created by Regex::all_runs

For runs of length 0 the pattern is `**`, which must be normalised: matching
an unnormalised Regex panics.
---
 src/music.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 7ff0cb9..e311cbf 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -226,24 +226,19 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // This unsafety is OK because all of the input patterns must be normalised because
-            // they contain only one wildcard
-            let descending_regex = unsafe {
-                // Descending runs (e.g. `*1234*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
-            let ascending_regex = unsafe {
-                // Ascending runs (e.g. `*4321*`)
-                Self::from_elems_unchecked(
-                    once(RegexElem::Glob)
-                        .chain(run_iterator.clone().rev())
-                        .chain(once(RegexElem::Glob)),
-                )
-            };
+            // These are normalised because if `len` is 0, then the two globs are next to each other
+            // Descending runs (e.g. `*1234*`)
+            let descending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone())
+                    .chain(once(RegexElem::Glob)),
+            );
+            // Ascending runs (e.g. `*4321*`)
+            let ascending_regex = Self::from_elems(
+                once(RegexElem::Glob)
+                    .chain(run_iterator.clone().rev())
+                    .chain(once(RegexElem::Glob)),
+            );
 
             runs.push(descending_regex);
             runs.push(ascending_regex);
-- 
2.43.0


From 3c6657709423eee7d85da370a2ef7cdd5c18d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 11/15] fix: serialise Bells as their number, as they are
 deserialised

Bells were serialised as their (0-based) index but deserialised from their
(1-based) number, so no Bell survived the round trip and the treble couldn't
be read at all.
---
 src/bell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..1c448d8 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,6 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From a89b77eadec5c7a1352789dce2cccac46e2fd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 12/15] fix: return an error when deserialising a Stage of 0
 bells

Reading 0 as a Stage panicked.
---
 src/music.rs |  2 +-
 src/stage.rs | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index e311cbf..40a05ba 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -226,7 +226,7 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // These are normalised because if `len` is 0, then the two globs are next to each other
+            // These must be normalised because if `len` is 0, then the two globs are next to each other
             // Descending runs (e.g. `*1234*`)
             let descending_regex = Self::from_elems(
                 once(RegexElem::Glob)
diff --git a/src/stage.rs b/src/stage.rs
index cadc537..a43bf8e 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(|_| E::custom("Stages can't have 0 bells"))
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -444,10 +444,10 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[cfg(feature = "serde")]
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
-    if val >= 0 {
+    if val > 0 {
         Ok(Stage::new(val as usize))
     } else {
-        Err(E::custom(format!("negative Stage: {}", val)))
+        Err(E::custom(format!("invalid Stage: {}", val)))
     }
 }
 
-- 
2.43.0


From a493f3dcebe9dd6bb38cc3a968af7efe6a0d8568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:41 +0000
Subject: [PATCH 13/15] fix: give SameStageVec's iterator an exact size hint

---
 src/row/same_stage_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index d762447..5f42f42 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -455,6 +455,11 @@ impl<'v> Iterator for Iter<'v> {
         Some(unsafe { Row::from_slice_unchecked(next_row) })
     }
 
+    // `ExactSizeIterator` requires this to be exact
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
+
     // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
     // `next()` is unnecessarily slow.
 }
-- 
2.43.0


From 91a6d373914042073e1469cb4ab2094c9b36115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 14/15] fix: classify methods with jump changes without
 panicking

---
 src/method/class.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/method/class.rs b/src/method/class.rs
index 7060f93..6f00b1c 100644
--- a/src/method/class.rs
+++ b/src/method/class.rs
@@ -6,7 +6,7 @@ use std::{
 
 use itertools::Itertools;
 
-use crate::{AnnotBlock, Bell, PlaceNot, Stage};
+use crate::{AnnotBlock, Bell, Stage};
 
 // Imports used solely for doc comments
 #[allow(unused_imports)]
@@ -434,10 +434,12 @@ fn sub_classify_treble_dodging<A>(first_lead: &AnnotBlock<A>, hunt_cycles: &[&Cy
     // Check for internal places at each of the 'cross sections'
     let mut all_internal_places = true;
     let mut all_no_internal_places = true;
+    let last_place = first_lead.stage().num_bells() - 1;
     for i in cross_indices {
         let r1 = first_lead.get_row(i).unwrap();
         let r2 = first_lead.get_row(i + 1).unwrap();
-        let has_internal_places = PlaceNot::pn_between(r1, r2).unwrap().has_internal_places();
+        // The rows are compared directly, because jump changes have no place notation
+        let has_internal_places = (1..last_place).any(|place| r1[place] == r2[place]);
         if has_internal_places {
             all_no_internal_places = false;
         } else {
-- 
2.43.0


From 733e8a08d6f03e9c34deda6282d8de517a6f75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 15/15] fix: don't panic when asked for no suggestions, or for
 more than fit into memory

---
 src/method_lib/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..5a1351b 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -121,6 +121,14 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        // There can't be more suggestions than there are methods, and a `Shortlist` (which allocates
+        // all its memory up front) always needs space for at least one item
+        let num_methods = self.method_map.values().map(HashMap::len).sum::<usize>();
+        let num_suggestions = num_suggestions.min(num_methods);
+        if num_suggestions == 0 {
+            return Vec::new();
+        }
+
         // Test each method as a suggestion, pushing the suggestions into a shortlist
         let mut suggestion_shortlist = Shortlist::new(num_suggestions);
         for methods in self.method_map.values() {
-- 
2.43.0

