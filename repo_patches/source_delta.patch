From 2557b7251c4d61e95a8e185c602d841db09115f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 1/6] fix: MaskedStorage::get_or_insert_with marks the index
 occupied only after f has returned

If f panicked the mask already contained the index while the storage held no value there, so a
later get or the drop of the storage read an uninitialized component.
---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..7db2b3f 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // `f` may panic, so the index must not be marked as occupied before it has returned.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From 611635e5a18a82f27d8ac8159ac213dcdb674798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 2/6] fix: tie GuardedElement::get and get_mut borrows to the
 guard

Both returned references with the lifetime of the storage, so calling them repeatedly on one guard
gave several live aliasing mutable references from safe code.
---
 src/masked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7db2b3f..bffbc2b 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -236,11 +236,11 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From 7ad4f95b448c22b76ce5fdbdae70beb5e6b9c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 3/6] fix: do not hand out or look up entity indexes the
 bitsets cannot hold

An index of 2^24 or more was handed out by Allocator::allocate although it can neither be joined
nor killed, and Allocator::entity / is_alive panicked for such an index instead of reporting that
no entity lives there.
---
 src/entity.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..c34c2fd 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -134,7 +134,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < MAX_INDEX && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
@@ -146,7 +146,10 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
+            let index_len = index
+                .checked_add(1)
+                .filter(|&index_len| index_len <= MAX_INDEX)
+                .expect("no entity left to allocate");
             *self.index_len.get_mut() = index_len;
             self.update_generation_length();
             index
@@ -291,7 +294,9 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
+// The bitsets cannot hold an index that is not below this limit: they have four layers of `usize`
+// words.  An allocated index is always below it.
+const MAX_INDEX: Index = usize::BITS.pow(4);
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
@@ -368,7 +373,7 @@ impl AliveGeneration {
     }
 }
 
-// Increments `i` atomically without wrapping on overflow.
+// Increments `i` atomically without going above `MAX_INDEX`.
 //
 // Resembles a `fetch_add(1, Ordering::Relaxed)` with checked overflow, returning `None` instead.
 fn atomic_increment(i: &AtomicIndex) -> Option<Index> {
-- 
2.43.0


From 41dfc6325b131ef9ba3c99ca68d9c6f0f1629c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 4/6] fix: keep reads and writes disjoint in RwResources::union
 and map

A resource that one side reads and the other writes was reported by both reads() and writes()
after a union or a map, although add_read, add_write and from_iters report it as written only.
---
 src/resources.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..4b71aa2 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,7 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        RwResources::from_iters(self.reads.iter().map(&f), self.writes.iter().map(&f))
     }
 
     pub fn add_read(&mut self, r: R) {
@@ -120,6 +117,7 @@ where
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
         for w in &other.writes {
+            self.reads.remove(w);
             self.writes.insert(w.clone());
         }
 
-- 
2.43.0


From 0de082fed0832a36379e4559f38dc1bf53375bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:51 +0000
Subject: [PATCH 5/6] fix: make MaskedStorage::raw_storage_mut unsafe, it can
 break the agreement of mask and storage

---
 src/masked.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index bffbc2b..63f42ae 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -33,7 +33,12 @@ impl<S: RawStorage> MaskedStorage<S> {
         &self.storage
     }
 
-    pub fn raw_storage_mut(&mut self) -> &mut S {
+    /// # Safety
+    ///
+    /// The storage must still hold values for exactly the indexes in `MaskedStorage::mask` once the
+    /// returned reference is no longer used, even if a method of the storage panics. In particular,
+    /// it must not be replaced by or swapped with another storage.
+    pub unsafe fn raw_storage_mut(&mut self) -> &mut S {
         &mut self.storage
     }
 
-- 
2.43.0


From a5576fbbd085e21d55fc081f8d2ae01d451d8ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 6/6] fix: refuse an index that MaskedStorage's mask cannot
 iterate over

BitSet::add accepts the index 2^24 although iterating over the set does not yield it, so a component
inserted there was never joined over or dropped.
---
 src/entity.rs | 2 +-
 src/masked.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c34c2fd..41f3e8a 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -296,7 +296,7 @@ impl Extend<Index> for EntityCache {
 
 // The bitsets cannot hold an index that is not below this limit: they have four layers of `usize`
 // words.  An allocated index is always below it.
-const MAX_INDEX: Index = usize::BITS.pow(4);
+pub(crate) const MAX_INDEX: Index = usize::BITS.pow(4);
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
diff --git a/src/masked.rs b/src/masked.rs
index 63f42ae..18d06e7 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -3,6 +3,7 @@ use std::mem;
 use hibitset::{BitIter, BitSet, BitSetLike};
 
 use crate::{
+    entity::MAX_INDEX,
     join::{Index, Join},
     storage::{DenseStorage, RawStorage},
     tracked::{ModifiedBitSet, TrackedStorage},
@@ -84,6 +85,7 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            assert!(index < MAX_INDEX, "index is too large for a bitset");
             // `f` may panic, so the index must not be marked as occupied before it has returned.
             let v = f();
             self.mask.add(index);
@@ -97,6 +99,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             mem::swap(&mut v, unsafe { self.storage.get_mut(index) });
             Some(v)
         } else {
+            assert!(index < MAX_INDEX, "index is too large for a bitset");
             self.mask.add(index);
             unsafe { self.storage.insert(index, v) };
             None
-- 
2.43.0

