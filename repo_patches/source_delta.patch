From 5df6b48ec89767df846cf56b6ac0c7bb629f7821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 01/16] fix: CycleMap::swap_left/right must not drop new's pair
 when old is absent

---
 src/cycle_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..003873c 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -458,7 +458,7 @@ where
     /// Pair of the collision checks done in the swap left methods
     fn swap_left_eq_check(&mut self, old: &L, new: &L, new_hash: u64) -> Option<(L, R)> {
         self.left_set.get(new_hash, equivalent_key(new))?;
-        if new != old {
+        if new != old && self.contains_left(old) {
             // Remove the problem cycle
             self.remove_via_left(new)
         } else {
@@ -621,7 +621,7 @@ where
     /// Pair of the collision checks done in the swap left methods
     fn swap_right_eq_check(&mut self, old: &R, new: &R, new_hash: u64) -> Option<(L, R)> {
         self.right_set.get(new_hash, equivalent_key(new))?;
-        if new != old {
+        if new != old && self.contains_right(old) {
             // Remove the problem cycle
             self.remove_via_right(new)
         } else {
-- 
2.43.0


From 52d720fbb06ed4fc2e2efd3e7c091715637ef632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 02/16] fix: PartialCycleMap::swap_left/right must not drop
 new's pair when old is absent

---
 src/partial_cycle_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..48473f0 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -961,7 +961,7 @@ where
     /// Pair of the collision checks done in the swap left methods
     fn swap_left_eq_check(&mut self, old: &L, new: &L, new_hash: u64) -> OptionalPair<L, R> {
         let opt = self.left_set.get(new_hash, equivalent_key(new));
-        if opt.is_some() && new != old {
+        if opt.is_some() && new != old && self.contains_left(old) {
             // Remove the problem cycle
             self.remove_via_left(new)
         } else {
@@ -1121,7 +1121,7 @@ where
     /// Pair of the collision checks done in the swap left methods
     fn swap_right_eq_check(&mut self, old: &R, new: &R, new_hash: u64) -> OptionalPair<L, R> {
         let opt = self.right_set.get(new_hash, equivalent_key(new));
-        if opt.is_some() && new != old {
+        if opt.is_some() && new != old && self.contains_right(old) {
             // Remove the problem cycle
             self.remove_via_right(new)
         } else {
-- 
2.43.0


From a619d0e6116e464cf4cad9e9757908085d7363f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 03/16] fix: CycleMap::swap_right_or_insert panicked when
 to_insert was already in the map

---
 src/cycle_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 003873c..7c1dee2 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -610,9 +610,11 @@ where
             // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 InsertOptional::Neither => Neither,
+                // `to_insert` was already paired with some other item
+                InsertOptional::SomeLeft(pair) => SomeRight(pair),
                 InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                InsertOptional::SomeBoth(left_pair, right_pair) => {
+                    SomeBoth(right_pair.1, left_pair)
                 }
             }
         }
-- 
2.43.0


From 3cec8752125763e743a14403c8f1677b09b328fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 04/16] fix: PartialCycleMap::swap_left/right_or_insert
 panicked when an inserted item was already in the map

---
 src/partial_cycle_map.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 48473f0..d73327e 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -950,9 +950,10 @@ where
             // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(new, to_insert) {
                 (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (Neither, pair) | (pair, Neither) => SomeRight(pair),
+                (left_pair, right_pair) => {
+                    let (left, _): (Option<L>, Option<R>) = left_pair.into();
+                    SomeBoth(left.unwrap(), right_pair)
                 }
             }
         }
@@ -1110,9 +1111,10 @@ where
             // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (pair, Neither) | (Neither, pair) => SomeRight(pair),
+                (left_pair, right_pair) => {
+                    let (_, right): (Option<L>, Option<R>) = right_pair.into();
+                    SomeBoth(right.unwrap(), left_pair)
                 }
             }
         }
-- 
2.43.0


From 751e8aed2482c8210e85685a3367ebe593ac8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 05/16] fix: dropping a partially consumed CycleMap drain left
 right items in the map

---
 src/cycle_map.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 7c1dee2..5ce9b55 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1334,6 +1334,13 @@ where
     }
 }
 
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // The left set is emptied when `left_iter` is dropped
+        self.right_ref.clear();
+    }
+}
+
 impl<L, R> ExactSizeIterator for DrainIter<'_, L, R>
 where
     L: Hash + Eq,
-- 
2.43.0


From e2da41808d910a883688f3e596a486db0c0cd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 06/16] fix: PartialCycleMap::unpair must compare ids, not only
 hashes

---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index d73327e..ad968b2 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From 06674f9a7d03dc8f1012554b74db1d53d342bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 07/16] fix: PartialCycleMap::drain yielded at most one
 unpaired right item

---
 src/partial_cycle_map.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index ad968b2..8217abe 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1367,8 +1367,10 @@ where
     /// ```
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
         DrainIter {
+            right_iter: unsafe { self.right_set.iter() },
             left_iter: self.left_set.drain(),
             right_ref: &mut self.right_set,
+            reset_right_iter: true,
         }
     }
 
@@ -2276,7 +2278,9 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
+    right_iter: RawIter<MappingPair<R>>,
     right_ref: &'a mut RawTable<MappingPair<R>>,
+    reset_right_iter: bool,
 }
 
 impl<'a, L, R> Drop for DrainIter<'a, L, R>
@@ -2322,16 +2326,22 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            // Only unpaired right items are left
+            None => {
+                if self.reset_right_iter {
+                    self.right_iter = unsafe { self.right_ref.iter() };
+                    self.reset_right_iter = false;
+                }
+                let right = self.right_iter.next()?;
+                let right = unsafe { self.right_ref.remove(right) };
+                Some(SomeRight(right.extract()))
+            }
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2341,7 +2351,14 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        self.left_iter.len()
+        // Every left item is yielded as is every unpaired right item
+        let mut len = self.left_iter.len();
+        for right in unsafe { self.right_ref.iter() } {
+            if unsafe { right.as_ref() }.hash.is_none() {
+                len += 1;
+            }
+        }
+        len
     }
 }
 
-- 
2.43.0


From 7bfa6d2be4d8a748e70a1de9feeb3561aabe8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 08/16] fix: PartialCycleMap::drain_filter must not visit the
 right half of a kept pair again

---
 src/partial_cycle_map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 8217abe..2de51e9 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2456,6 +2456,10 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
+            // Paired items have been visited with their left item
+            if r_pairing.hash.is_some() {
+                continue;
+            }
             if f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
-- 
2.43.0


From 5b4ab53f373bc84b5823fe568a99717cc36eb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 09/16] fix: PartialCycleMap's paired and unpaired iterators
 must report an exact size_hint

---
 src/partial_cycle_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 2de51e9..87776bf 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2112,7 +2112,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2192,7 +2193,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 9083734259b28864c88ed43b07328d2c9bf93a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 10/16] fix: GroupMap's iter and iter_unpaired must report an
 exact size_hint

---
 src/group_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..9bfd2df 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1377,7 +1377,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -1517,7 +1518,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 3127bb9b2c92cb588209b5a3ab40a8b8ddba597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 11/16] fix: cloning GroupMap's iter in the middle of a group
 lost the rest of the group

---
 src/group_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 9bfd2df..0b98435 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1314,7 +1314,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
-- 
2.43.0


From 7223b0f01ae88a50495be8c955648f0ad61b601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 12/16] fix: GroupMap::swap_right and swap_right_remove must
 repoint left items to the new right item

---
 src/group_map.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 0b98435..4f8b33b 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -478,19 +478,22 @@ where
             Some(r) => {
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+                let new_id = self.right_counter;
                 let item = RightItem {
                     value: new,
                     pairs: set.clone(),
-                    id: self.right_counter,
+                    id: new_id,
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
+                    let left = self
+                        .left_set
                         .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                        .unwrap();
+                    left.hash = new_hash;
+                    left.r_id = new_id;
                 }
             }
         }
@@ -525,19 +528,22 @@ where
             Some(mut r) => {
                 let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
                 let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+                let new_id = self.right_counter;
                 let item = RightItem {
                     value: new,
                     pairs: set.clone(),
-                    id: self.right_counter,
+                    id: new_id,
                 };
                 self.right_set
                     .insert(new_hash, item, make_hasher(&self.hash_builder));
                 self.right_counter += 1;
                 for (hash, id) in set {
-                    self.left_set
+                    let left = self
+                        .left_set
                         .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
+                        .unwrap();
+                    left.hash = new_hash;
+                    left.r_id = new_id;
                 }
                 Some(r.value)
             }
-- 
2.43.0


From 995b19837f3da09a892f2870f273b06a2efed2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 13/16] fix: GroupMap::swap_right and swap_right_remove
 inserted a duplicate when new was already in the map

---
 src/group_map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/group_map.rs b/src/group_map.rs
index 4f8b33b..c96dc49 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -470,6 +470,12 @@ where
     ///
     /// [`swap_right_remove`]: #method.swap_right_remove
     pub fn swap_right(&mut self, old: &R, new: R) {
+        if new == *old && self.contains_right(old) {
+            // `old` is kept, so there is nothing to do
+            return;
+        }
+        // Like in `insert_right`, an item equal to `new` is replaced
+        self.remove_right(&new);
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
         match self.right_set.get_mut(old_hash, equivalent_key_right(old)) {
             None => {
@@ -516,6 +522,10 @@ where
     /// assert!(map.are_paired(&2, &"2"));
     /// ```
     pub fn swap_right_remove(&mut self, old: &R, new: R) -> Option<R> {
+        if new != *old {
+            // Like in `insert_right`, an item equal to `new` is replaced
+            self.remove_right(&new);
+        }
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
         match self
             .right_set
-- 
2.43.0


From 0f49b63d9bc42c4d7e1df6a1006d23bc8c74e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 14/16] fix: GroupMap::retain_paired must remove dropped left
 items from their right item's pairs

---
 src/group_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c96dc49..c15625d 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -999,7 +999,13 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(l) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
+                self.right_set
+                    .get_mut(l.hash, right_with_right_id(l.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From 20a05ea6c6bd28d8f5b6c5f3c43007d2e71616ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 15/16] fix: GroupMap equality must compare both sets

---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c15625d..b8bbfaf 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1087,12 +1087,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From 3c5f34b2e27c67d5ec1b5c35359a63875ff1eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 16/16] fix: PartialCycleMap::drain_filter size_hint must count
 the unpaired right items

---
 src/partial_cycle_map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 87776bf..ef0c011 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2410,7 +2410,13 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        // The right items are only visited after the left items
+        let rights = if self.inner.reset_right_iter {
+            self.inner.right_ref.len()
+        } else {
+            self.inner.right_iter.len()
+        };
+        (0, Some(self.inner.left_iter.len() + rights))
     }
 }
 
-- 
2.43.0

