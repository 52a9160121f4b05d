From 630294e98a239fcea79be5ec8852ab56a4588502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:44 +0000
Subject: [PATCH 01/18] fix: CycleMap swaps must not remove a pair when `old`
 isn't in the map

swap_left/swap_right removed (and dropped) the pair of the item equal to
`new` before looking for `old`, and then returned Neither.
---
 src/cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..c5de91a 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -348,6 +348,10 @@ where
     /// assert!(map.are_paired(&0, &"84".to_string()));
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, (L, R)> {
+        // Nothing is changed unless the old item is in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -498,6 +502,10 @@ where
     /// assert!(map.are_paired(&84, &"0".to_string()));
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, (L, R)> {
+        // Nothing is changed unless the old item is in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From 51fba125a6bde2eabda06670e89e1715064f0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 02/18] fix: PartialCycleMap swaps must not remove a pair when
 `old` isn't in the map

swap_left/swap_right removed (and dropped) the pair of the item equal to
`new` before looking for `old`, and then returned Neither.
---
 src/partial_cycle_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..581cece 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -840,6 +840,10 @@ where
     /// assert_eq!(map.swap_left(&4, 5), Neither);
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, OptionalPair<L, R>> {
+        // Nothing is changed unless the old item is in the map
+        if !self.contains_left(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
@@ -995,6 +999,10 @@ where
     /// assert_eq!(map.swap_right(&"4", "5"), Neither);
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, OptionalPair<L, R>> {
+        // Nothing is changed unless the old item is in the map
+        if !self.contains_right(old) {
+            return Neither;
+        }
         // Check for Eq left item and remove that cycle if it exists
         let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
-- 
2.43.0


From aec6544564bb2e920afc7df74ed65aee21f25cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 03/18] fix: CycleMap swap_*_or_insert must hand back every
 displaced pair

When the insert displaced pairs, swap_left_or_insert dropped the right item
of the pair displaced by `new` and swap_right_or_insert panicked.
---
 src/cycle_map.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index c5de91a..8db4179 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -453,9 +453,13 @@ where
         if self.left_set.get(old_l_hash, equivalent_key(old)).is_some() {
             self.swap_left(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here as this
-            // insert should never return a left pair
-            self.insert(new, to_insert).map_left(|(l, _)| l)
+            // The pair that held an item equal to `new` is returned whole. If another pair held an
+            // item equal to `to_insert`, its left item takes the left slot.
+            match self.insert(new, to_insert) {
+                Neither => Neither,
+                SomeLeft(pair) | SomeRight(pair) => SomeRight(pair),
+                SomeBoth(new_pair, (l, _)) => SomeBoth(l, new_pair),
+            }
         }
     }
 
@@ -615,13 +619,12 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
+            // The pair that held an item equal to `new` is returned whole. If another pair held an
+            // item equal to `to_insert`, its right item takes the left slot.
             match self.insert(to_insert, new) {
-                InsertOptional::Neither => Neither,
-                InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                Neither => Neither,
+                SomeLeft(pair) | SomeRight(pair) => SomeRight(pair),
+                SomeBoth((_, r), new_pair) => SomeBoth(r, new_pair),
             }
         }
     }
-- 
2.43.0


From 028493182f82d3fc390a8825c52a2cef3d4727ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 04/18] fix: PartialCycleMap swap_*_or_insert must not panic
 when the insert displaces items

Both methods hit `unreachable!` when `new` (or the other inserted item) was
already in the map. They now hand back what was displaced.
---
 src/partial_cycle_map.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 581cece..d6783d6 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -951,13 +951,12 @@ where
         if self.left_set.get(old_l_hash, equivalent_key(old)).is_some() {
             self.swap_left(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
+            // What held the item equal to `new` is returned whole. If the item equal to `to_insert`
+            // was paired to another left item, that left item takes the left slot.
             match self.insert(new, to_insert) {
                 (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                (Neither, pair) | (pair, Neither | SomeLeft(_) | SomeRight(_)) => SomeRight(pair),
+                (pair, SomeBoth(l, _)) => SomeBoth(l, pair),
             }
         }
     }
@@ -1115,13 +1114,12 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
+            // What held the item equal to `new` is returned whole. If the item equal to `to_insert`
+            // was paired to another right item, that right item takes the left slot.
             match self.insert(to_insert, new) {
                 (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                (pair, Neither) | (Neither | SomeLeft(_) | SomeRight(_), pair) => SomeRight(pair),
+                (SomeBoth(_, r), pair) => SomeBoth(r, pair),
             }
         }
     }
-- 
2.43.0


From 6e4d47c1d087b1af92018cf940d882e735ea20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:59 +0000
Subject: [PATCH 05/18] fix: dropping a CycleMap DrainIter early must also
 empty the right set

The right items of pairs that were not yielded stayed in the map, so later
calls panicked or found items that have no partner.
---
 src/cycle_map.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 8db4179..de114d6 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1322,6 +1322,13 @@ pub struct DrainIter<'a, L, R> {
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // The left set is emptied by the inner `RawDrain`
+        self.right_ref.clear();
+    }
+}
+
 impl<'a, L, R> Iterator for DrainIter<'a, L, R>
 where
     L: Hash + Eq,
-- 
2.43.0


From f6e3c47f2ec1724010dab8bcb0e844b8cb058680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 06/18] fix: PartialCycleMap drain must yield every unpaired
 right item

It yielded a single one and dropped the others, and its length ignored them.
---
 src/partial_cycle_map.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index d6783d6..2a87047 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1372,6 +1372,7 @@ where
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
         DrainIter {
             left_iter: self.left_set.drain(),
+            right_iter: None,
             right_ref: &mut self.right_set,
         }
     }
@@ -2280,6 +2281,8 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
+    // Set once the left set is drained
+    right_iter: Option<RawIter<MappingPair<R>>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
 }
 
@@ -2294,6 +2297,8 @@ where
             drop(item);
             mem::forget(guard);
         }
+        // The right set is empty now, but its capacity has to be restored too
+        self.right_ref.clear();
     }
 }
 
@@ -2326,16 +2331,19 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            None => {
+                let right_ref = &mut *self.right_ref;
+                self.right_iter
+                    .get_or_insert_with(|| unsafe { right_ref.iter() })
+                    .next()
+                    .map(|right| SomeRight(unsafe { right_ref.remove(right) }.extract()))
+            }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2345,7 +2353,11 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        self.left_iter.len()
+        // Only unpaired right items aren't yielded with a left item
+        let unpaired = unsafe { self.right_ref.iter() }
+            .filter(|r| unsafe { r.as_ref() }.hash.is_none())
+            .count();
+        self.left_iter.len() + unpaired
     }
 }
 
-- 
2.43.0


From c9385f3c9edfaad5daaaecd6d34c293fb4de00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:06 +0000
Subject: [PATCH 07/18] fix: PartialCycleMap unpair must check that the items
 are paired together

Only the hashes were compared, so items whose hashes collide with those of
the actual pair were unpaired, leaving their partners dangling.
---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 2a87047..6c18675 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From 9bd7db937490610ae2f411c40bfefb445b8c8501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 08/18] fix: PartialCycleMap drain_filter must not visit paired
 right items on their own

A kept pair was offered to the closure again as its right item only, and
removing that left its left item paired with nothing. The upper bound of
size_hint also ignored the right items.
---
 src/partial_cycle_map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 6c18675..2f49168 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2407,7 +2407,10 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        (
+            0,
+            Some(self.inner.left_iter.len() + self.inner.right_iter.len()),
+        )
     }
 }
 
@@ -2455,6 +2458,10 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
+            // Ignore all paired items, they were visited with their left item
+            if r_pairing.hash.is_some() {
+                continue;
+            }
             if f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
-- 
2.43.0


From 0acabf2def041fe64652c584fbb2818010cb4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:56 +0000
Subject: [PATCH 09/18] fix: PartialCycleMap iter must yield unpaired right
 items

`iter` is documented to yield the items of the map, with `SomeRight` for
unpaired right items, but never did; Debug omitted them too. `retain` keeps
visiting the left set only.
---
 src/partial_cycle_map.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 2f49168..902b52f 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1254,6 +1254,7 @@ where
     pub fn iter(&self) -> Iter<'_, L, R, S> {
         Iter {
             left_iter: unsafe { self.left_set.iter() },
+            right_iter: unsafe { self.right_set.iter() },
             map_ref: self,
         }
     }
@@ -1444,7 +1445,8 @@ where
     {
         let mut to_drop: Vec<(Option<u64>, Option<u64>, u64)> =
             Vec::with_capacity(self.left_set.len());
-        for op in self.iter() {
+        // Unpaired right items aren't subjected to the closure
+        for op in self.iter().take(self.left_set.len()) {
             if f(&op) {
                 let (left, right): (Option<&L>, Option<&R>) = op.into();
                 let l_hash = left.map(|l| make_hash::<L, S>(&self.hash_builder, l));
@@ -1995,6 +1997,7 @@ where
 /// An iterator over the entry items of a `PartialCycleMap`.
 pub struct Iter<'a, L, R, S> {
     left_iter: RawIter<MappingPair<L>>,
+    right_iter: RawIter<MappingPair<R>>,
     map_ref: &'a PartialCycleMap<L, R, S>,
 }
 
@@ -2002,6 +2005,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             left_iter: self.left_iter.clone(),
+            right_iter: self.right_iter.clone(),
             map_ref: self.map_ref,
         }
     }
@@ -2033,12 +2037,17 @@ where
                 let right = self.map_ref.get_right(left);
                 Some(OptionalPair::from((Some(left), right)))
             },
-            None => None,
+            // Paired right items were yielded with their left item
+            None => self.right_iter.find_map(|r| {
+                let r = unsafe { r.as_ref() };
+                r.hash.is_none().then_some(SomeRight(&r.value))
+            }),
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 6af0468dfd4b3b3cf9c1a0f1fbc7a53553ce8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 10/18] fix: PartialCycleMap PairedIter and UnpairedIter
 size_hint must match their length

---
 src/partial_cycle_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 902b52f..3bda366 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2124,7 +2124,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2204,7 +2205,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From aa8ed79c1b858ac7d8cb7e79d12b19585f011e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 11/18] fix: GroupMap Iter and UnpairedIter size_hint must
 match their length

---
 src/group_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..9bfd2df 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1377,7 +1377,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -1517,7 +1518,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From b54436ba106de2975f3f593b904bdc9694d00118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 12/18] fix: GroupMap swap_right and swap_right_remove must
 re-pair the left items

Left items kept the id of the old right item, so they had no right item and
iterating panicked. A right item equal to `new` was also left in the map next
to it.
---
 src/group_map.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 9bfd2df..f899906 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -471,6 +471,13 @@ where
     /// [`swap_right_remove`]: #method.swap_right_remove
     pub fn swap_right(&mut self, old: &R, new: R) {
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
+        if self.contains_right(old) {
+            if *old == new {
+                return;
+            }
+            // As with `insert_right`, an equal item and everything it is paired with are removed
+            self.remove_right(&new);
+        }
         match self.right_set.get_mut(old_hash, equivalent_key_right(old)) {
             None => {
                 self.insert_right(new);
@@ -485,13 +492,15 @@ where
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
-                self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
+                    let left = self
+                        .left_set
                         .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                        .unwrap();
+                    left.hash = new_hash;
+                    left.r_id = self.right_counter;
                 }
+                self.right_counter += 1;
             }
         }
     }
@@ -514,6 +523,10 @@ where
     /// ```
     pub fn swap_right_remove(&mut self, old: &R, new: R) -> Option<R> {
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
+        if *old != new && self.contains_right(old) {
+            // As with `insert_right`, an equal item and everything it is paired with are removed
+            self.remove_right(&new);
+        }
         match self
             .right_set
             .remove_entry(old_hash, equivalent_key_right(old))
@@ -532,13 +545,15 @@ where
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
-                self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
+                    let left = self
+                        .left_set
                         .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                        .unwrap();
+                    left.hash = new_hash;
+                    left.r_id = self.right_counter;
                 }
+                self.right_counter += 1;
                 Some(r.value)
             }
         }
-- 
2.43.0


From 3890639135e99a33062cf0ea784509d949642145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 13/18] fix: GroupMap retain_paired must remove dropped left
 items from their group

The right item kept pointing at the dropped left item, so it still counted as
paired and iterating or removing it panicked.
---
 src/group_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index f899906..e0f963c 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -998,7 +998,13 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(left) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
+                self.right_set
+                    .get_mut(left.hash, right_with_right_id(left.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From 361061a845acce8a0dbbd91409395bf88329a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 14/18] fix: cloning a GroupMap Iter must keep its position in
 the current group

The rest of the group was skipped by the clone, and `len` was too low.
---
 src/group_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index e0f963c..0323f33 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1335,7 +1335,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
-- 
2.43.0


From b71360d9ea40bc8c26c95cd88bf6e240175ca92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 15/18] fix: GroupMap equality must compare both sides and
 unpaired right items

Maps were equal when only one of the lengths agreed, or when an unpaired
right item wasn't in the other map.
---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 0323f33..ce110f1 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1086,12 +1086,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From 638d71250eecd07c5d2b5b8658b62db05eea88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 16/18] fix: deserializing a CycleMap must not trust the length
 the input claims

A hostile length panicked with a capacity overflow or exhausted memory.
---
 src/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 62af85a..eabdd5f 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -43,8 +43,10 @@ where
     where
         M: SeqAccess<'de>,
     {
+        // The hint isn't trusted, it might come straight from the input
+        let capacity = access.size_hint().unwrap_or(0).min(4096);
         let mut map: CycleMap<L, R, S> =
-            CycleMap::with_capacity_and_hasher(access.size_hint().unwrap_or(0), Default::default());
+            CycleMap::with_capacity_and_hasher(capacity, Default::default());
 
         while let Some(entry) = access.next_element::<(L, R)>()? {
             map.insert(entry.0, entry.1);
-- 
2.43.0


From b7d0379a31565d3341e1c46c9faadf7f3db164ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 17/18] fix: CycleMap::capacity must not exceed what the right
 set can hold

---
 src/cycle_map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index de114d6..45e25e8 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1042,7 +1042,8 @@ impl<L, R, S> CycleMap<L, R, S> {
 
     /// Returns the number of items that the inner sets can hold without reallocation.
     ///
-    /// Note: Only one value is returned since both sets always have the same capacity.
+    /// Note: Only one value is returned. Removals can leave the sets with different capacities, so
+    /// this is the lesser of both.
     ///
     /// # Examples
     /// ```rust
@@ -1051,8 +1052,7 @@ impl<L, R, S> CycleMap<L, R, S> {
     /// assert!(map.capacity() >= 100);
     /// ```
     pub fn capacity(&self) -> usize {
-        // The size of the sets is always equal
-        self.left_set.capacity()
+        self.left_set.capacity().min(self.right_set.capacity())
     }
 
     /// Returns the number of items in the inner sets.
-- 
2.43.0


From 41f1cbf529a9d5bf5b0be8a1fde25d60e1493e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 18/18] Hook for verification: skip pairings (only with --cfg
 verif_hooks)

---
 src/lib.rs   |  4 ++++
 src/verif.rs | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 04c1a08..27ebde2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,7 @@
     rustdoc::broken_intra_doc_links
 )]
 #![warn(rust_2018_idioms)]
+#![allow(unexpected_cfgs)]
 
 #[cfg(feature = "serde")]
 mod serde;
@@ -49,3 +50,6 @@ pub use crate::optionals::*;
 
 /// Various helpful functions
 pub(crate) mod utils;
+
+#[cfg(verif_hooks)]
+mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..50d7db2
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,27 @@
+//! Hooks for the verification harness; only compiled with `--cfg verif_hooks`.
+use crate::{CycleMap, GroupMap, PartialCycleMap};
+
+impl<L, R, S> CycleMap<L, R, S> {
+    /// Continues as if the map had made `n` more pairings in the past
+    #[doc(hidden)]
+    pub fn verif_skip_pairings(&mut self, n: u64) {
+        self.counter = self.counter.wrapping_add(n as _);
+    }
+}
+
+impl<L, R, S> PartialCycleMap<L, R, S> {
+    /// Continues as if the map had made `n` more pairings in the past
+    #[doc(hidden)]
+    pub fn verif_skip_pairings(&mut self, n: u64) {
+        self.counter = self.counter.wrapping_add(n as _);
+    }
+}
+
+impl<L, R, S> GroupMap<L, R, S> {
+    /// Continues as if the map had stored `n` more items of both sides in the past
+    #[doc(hidden)]
+    pub fn verif_skip_pairings(&mut self, n: u64) {
+        self.left_counter += n;
+        self.right_counter += n;
+    }
+}
-- 
2.43.0

