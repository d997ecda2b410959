From 6aa44b8622984f93377a78642587c290391b0a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 01/15] fix: consume entities returned by exclusive allocation
 immediately

EntityAllocator::allocate left the returned entity in the set of entities
added to the world by the next maintain, so an entity destroyed before that
maintain came back to life and its handle could be issued again.
---
 src/entity/entity_allocator.rs | 58 +++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..5a50651 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -1,5 +1,7 @@
 use crate::entity::Entity;
 use alloc::collections::VecDeque;
+use alloc::vec::Vec;
+use core::mem;
 use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 
 #[derive(Default, Debug)]
@@ -8,22 +10,25 @@ pub(crate) struct EntityAllocator {
     last_maintained_index: u64,
     recycled: VecDeque<Entity>,
     recycled_since_maintain: AtomicUsize,
+    reserved: Vec<Entity>,
 }
 
 impl EntityAllocator {
     #[must_use]
     pub fn allocate(&mut self) -> Option<Entity> {
-        let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
-
-        if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
-        } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
-            *self.next_index_to_allocate.get_mut() += 1;
-            Some(Entity::with_index(index))
-        } else {
-            None
+        // The returned entity is consumed right away, so the entities handed out
+        // by `allocate_atomic` have to be set aside first.
+        self.flush_reserved();
+
+        if let Some(entity) = self.recycled.pop_back() {
+            return Some(entity);
         }
+
+        let next_index = self.next_index_to_allocate.get_mut();
+        let index = u32::try_from(*next_index).ok()?;
+        *next_index += 1;
+        self.last_maintained_index = *next_index;
+        Some(Entity::with_index(index))
     }
 
     #[must_use]
@@ -47,22 +52,8 @@ impl EntityAllocator {
     }
 
     pub fn maintain(&mut self) -> impl Iterator<Item = Entity> + '_ {
-        let recycled_range = {
-            let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
-            *self.recycled_since_maintain.get_mut() = 0;
-            (self.recycled.len() - recycled_since_maintain)..
-        };
-
-        let new_index_range = {
-            let next_index_to_allocate = *self.next_index_to_allocate.get_mut();
-            let new_index_range = self.last_maintained_index..next_index_to_allocate;
-            self.last_maintained_index = next_index_to_allocate;
-            new_index_range
-        };
-
-        self.recycled
-            .drain(recycled_range)
-            .chain(new_index_range.map(|i| Entity::with_index(i as u32)))
+        self.flush_reserved();
+        self.reserved.drain(..)
     }
 
     pub fn reset(&mut self) {
@@ -70,6 +61,21 @@ impl EntityAllocator {
         self.last_maintained_index = 0;
         self.recycled.clear();
         *self.recycled_since_maintain.get_mut() = 0;
+        self.reserved.clear();
+    }
+
+    /// Moves the entities handed out by `allocate_atomic` since the last call to
+    /// this function to the list of entities waiting to be maintained.
+    fn flush_reserved(&mut self) {
+        let recycled_since_maintain = mem::take(self.recycled_since_maintain.get_mut());
+        let recycled_range = (self.recycled.len() - recycled_since_maintain)..;
+        self.reserved.extend(self.recycled.drain(recycled_range));
+
+        let next_index_to_allocate = *self.next_index_to_allocate.get_mut();
+        let new_index_range = self.last_maintained_index..next_index_to_allocate;
+        self.last_maintained_index = next_index_to_allocate;
+        self.reserved
+            .extend(new_index_range.map(|i| Entity::with_index(i as u32)));
     }
 
     fn increment_recycled_since_maintain(&self) -> Option<usize> {
-- 
2.43.0


From 8f6317dae72f278adfb4ab68702473e7ea45734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 02/15] fix: start component slices at the start of the dense
 range

slice_raw ignored range.start, so the slices of queries with an exclude part
did not line up with the entity slice.
---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..5cec82a 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
-- 
2.43.0


From 44ba87c64e5ae21233fde94a74389844004fff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 03/15] fix: accept MAX_GROUP_COUNT groups and groups of
 MAX_GROUP_ARITY components

The masks covering the whole range were rejected by their bound checks.
---
 src/component/group_mask.rs   | 15 +++++++--------
 src/component/storage_mask.rs |  9 ++++++---
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..423a27a 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -11,21 +11,20 @@ impl GroupMask {
     #[inline]
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        if from == to {
+            return Self::EMPTY;
+        }
+
+        Self((u64::MAX >> (MAX_GROUP_COUNT - (to - from))) << from)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
-        assert!(from <= to);
-
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!Self::from_to(from, to).0)
     }
 
     #[inline]
diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..cf60141 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -10,11 +10,14 @@ impl StorageMask {
     #[inline]
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        if from == to {
+            return Self::EMPTY;
+        }
+
+        Self((u16::MAX >> (MAX_GROUP_ARITY - (to - from))) << from)
     }
 }
 
-- 
2.43.0


From 98bdfc04c9f5c4efd906a668bbf6ad846d9e92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 04/15] fix: allow adding a group nested in a larger existing
 group

The superset check was inverted, so a group could not be added after a group
containing it, and the components of the smaller group were sorted last.
---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..68273f3 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_cached_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From db1c281812b757def94bf57c23cfa78fd276d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 05/15] fix: keep the sparse set valid when a deleted component
 panics on drop

The slot of the deleted component was filled only after the destructor
returned, so a panicking destructor ran again later and the last component
was lost.
---
 src/component/component_sparse_set.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 25fb590..aaf11c2 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -111,11 +111,13 @@ impl ComponentSparseSet {
             });
         }
 
-        let dropped_ptr = self.components.cast::<T>().add(index);
-        dropped_ptr.drop_in_place();
-
+        let deleted_ptr = self.components.cast::<T>().add(index);
         let last_ptr = self.components.cast::<T>().add(self.len);
-        last_ptr.copy_to(dropped_ptr, 1);
+
+        // Replace deleted component with last component before dropping it, so
+        // the storage is valid even if the destructor panics.
+        deleted_ptr.swap(last_ptr);
+        last_ptr.drop_in_place();
     }
 
     #[inline]
-- 
2.43.0


From 3ad509f6ac2047a7681d5f1949fbd7500a3e9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 06/15] fix: do not drop components twice when a destructor
 panics during clear

---
 src/component/component_sparse_set.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index aaf11c2..3060900 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -301,15 +301,17 @@ impl ComponentSparseSet {
     {
         self.sparse.clear();
 
+        // Reset the length first, so no component is dropped twice if a
+        // destructor panics.
+        let len = mem::take(&mut self.len);
+
         if mem::needs_drop::<T>() {
-            for i in 0..self.len {
+            for i in 0..len {
                 unsafe {
                     self.components.cast::<T>().add(i).drop_in_place();
                 }
             }
         }
-
-        self.len = 0;
     }
 
     unsafe fn drop_typed<T>(&mut self)
-- 
2.43.0


From acd539f53ea98d7c92b32007a26afa6ced81d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 07/15] fix: panic when a sparse vec cannot grow to the
 requested index

The length computation wrapped around for usize::MAX in release builds, and
the slot was then accessed out of bounds.
---
 src/entity/sparse_vec.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entity/sparse_vec.rs b/src/entity/sparse_vec.rs
index 612eb89..5c4095d 100644
--- a/src/entity/sparse_vec.rs
+++ b/src/entity/sparse_vec.rs
@@ -115,7 +115,13 @@ impl SparseVec {
 
     #[cold]
     fn extend_to_index(&mut self, index: usize) {
-        let extra_len = index.checked_next_power_of_two().unwrap_or(index) - self.slots.len() + 1;
+        let new_len = index
+            .checked_next_power_of_two()
+            .unwrap_or(index)
+            .checked_add(1)
+            .expect("Cannot grow sparse vec");
+
+        let extra_len = new_len - self.slots.len();
         self.slots.extend(iter::repeat(None).take(extra_len));
     }
 }
-- 
2.43.0


From 8be5f638e4ada9f2a97c20fce61bdcefc5a9b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 08/15] fix: drop the old component storages when the layout is
 changed

Every call to set_layout kept the placeholders left behind by the storages
that were moved to the new layout.
---
 src/component/component_storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..b8ac1da 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -308,6 +308,7 @@ impl ComponentStorage {
 
         self.groups.clear();
         self.metadata.clear();
+        self.components.clear();
 
         sparse_sets
     }
-- 
2.43.0


From 32218c84ddd5a79274adc827f3df735a4123192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 09/15] fix: keep entity versions in place when swapping
 components

swap_typed exchanged whole sparse slots, so grouping two entities with
different versions made their components unreachable (and reachable through
handles of other versions).
---
 src/component/component_sparse_set.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 3060900..92b4442 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -285,8 +285,17 @@ impl ComponentSparseSet {
         // Swap entities.
         let entity_a = self.entities.add(dense_a).as_mut();
         let entity_b = self.entities.add(dense_b).as_mut();
-        self.sparse
-            .swap_nonoverlapping(entity_a.sparse(), entity_b.sparse());
+
+        // Only the dense indexes change places, the versions must not.
+        *self.sparse.get_unchecked_mut(entity_a.sparse()) = Some(SparseVecSlot {
+            index: dense_b as u32,
+            version: entity_a.version,
+        });
+        *self.sparse.get_unchecked_mut(entity_b.sparse()) = Some(SparseVecSlot {
+            index: dense_a as u32,
+            version: entity_b.version,
+        });
+
         mem::swap(entity_a, entity_b);
 
         // Swap components.
-- 
2.43.0


From 43f99f6d45b1c6ef9272f2649fbe6e346d9132cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 10/15] fix: do not copy pending entities when creating
 exclusively

Entities handed out atomically before an exclusive creation were collected
one by one, up to 2^32 of them; remember their index ranges instead.
---
 src/entity/entity_allocator.rs | 62 +++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index 5a50651..0037a79 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -1,7 +1,8 @@
 use crate::entity::Entity;
 use alloc::collections::VecDeque;
 use alloc::vec::Vec;
-use core::mem;
+use core::iter;
+use core::ops::Range;
 use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 
 #[derive(Default, Debug)]
@@ -10,22 +11,31 @@ pub(crate) struct EntityAllocator {
     last_maintained_index: u64,
     recycled: VecDeque<Entity>,
     recycled_since_maintain: AtomicUsize,
-    reserved: Vec<Entity>,
+    /// Indices handed out by `allocate_atomic` before the last exclusive allocation.
+    reserved: Vec<Range<u64>>,
 }
 
 impl EntityAllocator {
     #[must_use]
     pub fn allocate(&mut self) -> Option<Entity> {
-        // The returned entity is consumed right away, so the entities handed out
-        // by `allocate_atomic` have to be set aside first.
-        self.flush_reserved();
+        // The entities handed out by `allocate_atomic` stay at the back of the
+        // queue until the next call to `maintain`.
+        let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
 
-        if let Some(entity) = self.recycled.pop_back() {
-            return Some(entity);
+        if recycled_since_maintain < self.recycled.len() {
+            let index = self.recycled.len() - recycled_since_maintain - 1;
+            return self.recycled.swap_remove_back(index);
         }
 
         let next_index = self.next_index_to_allocate.get_mut();
         let index = u32::try_from(*next_index).ok()?;
+
+        // The returned entity is consumed right away, so the indices handed out
+        // by `allocate_atomic` have to be set aside first.
+        if self.last_maintained_index < *next_index {
+            self.reserved.push(self.last_maintained_index..*next_index);
+        }
+
         *next_index += 1;
         self.last_maintained_index = *next_index;
         Some(Entity::with_index(index))
@@ -52,8 +62,28 @@ impl EntityAllocator {
     }
 
     pub fn maintain(&mut self) -> impl Iterator<Item = Entity> + '_ {
-        self.flush_reserved();
-        self.reserved.drain(..)
+        let recycled_range = {
+            let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
+            *self.recycled_since_maintain.get_mut() = 0;
+            (self.recycled.len() - recycled_since_maintain)..
+        };
+
+        let new_index_range = {
+            let next_index_to_allocate = *self.next_index_to_allocate.get_mut();
+            let new_index_range = self.last_maintained_index..next_index_to_allocate;
+            self.last_maintained_index = next_index_to_allocate;
+            new_index_range
+        };
+
+        let new_indexes = self
+            .reserved
+            .drain(..)
+            .chain(iter::once(new_index_range))
+            .flatten();
+
+        self.recycled
+            .drain(recycled_range)
+            .chain(new_indexes.map(|i| Entity::with_index(i as u32)))
     }
 
     pub fn reset(&mut self) {
@@ -64,20 +94,6 @@ impl EntityAllocator {
         self.reserved.clear();
     }
 
-    /// Moves the entities handed out by `allocate_atomic` since the last call to
-    /// this function to the list of entities waiting to be maintained.
-    fn flush_reserved(&mut self) {
-        let recycled_since_maintain = mem::take(self.recycled_since_maintain.get_mut());
-        let recycled_range = (self.recycled.len() - recycled_since_maintain)..;
-        self.reserved.extend(self.recycled.drain(recycled_range));
-
-        let next_index_to_allocate = *self.next_index_to_allocate.get_mut();
-        let new_index_range = self.last_maintained_index..next_index_to_allocate;
-        self.last_maintained_index = next_index_to_allocate;
-        self.reserved
-            .extend(new_index_range.map(|i| Entity::with_index(i as u32)));
-    }
-
     fn increment_recycled_since_maintain(&self) -> Option<usize> {
         let recycled_len = self.recycled.len();
         let mut prev = self.recycled_since_maintain.load(Ordering::Relaxed);
-- 
2.43.0


From a30949bd928062e72a021007977dc956ca92629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 11/15] fix: finish removing components when a destructor
 panics

---
 src/component/component_storage.rs | 42 +++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index b8ac1da..1f303c6 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -8,7 +8,7 @@ use alloc::vec::Vec;
 use atomic_refcell::AtomicRefCell;
 use core::any::{self, TypeId};
 use core::ops::Range;
-use core::{cmp, mem};
+use core::{cmp, mem, slice};
 use hashbrown::hash_map::Entry;
 use hashbrown::HashMap;
 use rustc_hash::FxBuildHasher;
@@ -140,9 +140,9 @@ impl ComponentStorage {
             ungroup_all(&mut self.components, &mut self.groups, entity);
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().delete_dyn(entity);
-        }
+        for_each_sparse_set(&mut self.components, |sparse_set| {
+            sparse_set.delete_dyn(entity);
+        });
     }
 
     pub fn clear(&mut self) {
@@ -150,9 +150,7 @@ impl ComponentStorage {
             group.len = 0;
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().clear();
-        }
+        for_each_sparse_set(&mut self.components, ComponentSparseSet::clear);
     }
 
     #[must_use]
@@ -322,6 +320,36 @@ pub(crate) struct ComponentMetadata {
     pub group_info: Option<GroupInfo>,
 }
 
+/// Applies `f` to all sparse sets, even if it panics for one of them, so no
+/// components of removed entities are left behind if a destructor panics.
+#[inline]
+fn for_each_sparse_set<F>(sparse_sets: &mut [AtomicRefCell<ComponentSparseSet>], f: F)
+where
+    F: Fn(&mut ComponentSparseSet),
+{
+    struct Remaining<'a, F>(slice::IterMut<'a, AtomicRefCell<ComponentSparseSet>>, F)
+    where
+        F: Fn(&mut ComponentSparseSet);
+
+    impl<F> Drop for Remaining<'_, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        #[inline]
+        fn drop(&mut self) {
+            for sparse_set in self.0.by_ref() {
+                (self.1)(sparse_set.get_mut());
+            }
+        }
+    }
+
+    let mut remaining = Remaining(sparse_sets.iter_mut(), f);
+
+    while let Some(sparse_set) = remaining.0.next() {
+        (remaining.1)(sparse_set.get_mut());
+    }
+}
+
 #[cold]
 #[inline(never)]
 pub(crate) fn panic_missing_comp<T>() -> ! {
-- 
2.43.0


From 972ac0bccba0d5e1e61ed5a1de06396c12fa5334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 12/15] fix: group entities even if user code panics

---
 src/component/component_set.rs | 93 +++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 29 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 7b629d8..e62b02d 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -33,6 +33,40 @@ pub unsafe trait ComponentSet {
     unsafe fn delete(world: &mut World, entity: Entity);
 }
 
+/// Groups the entities created since `start_entity` when dropped, so they are
+/// grouped even if the iterator which produces their components panics.
+struct GroupNewEntities<'a> {
+    world: &'a mut World,
+    group_mask: GroupMask,
+    start_entity: usize,
+}
+
+impl Drop for GroupNewEntities<'_> {
+    fn drop(&mut self) {
+        if self.group_mask == GroupMask::EMPTY {
+            return;
+        }
+
+        let new_entities = unsafe {
+            self.world
+                .entities
+                .as_slice()
+                .get_unchecked(self.start_entity..)
+        };
+
+        for &entity in new_entities {
+            unsafe {
+                group(
+                    &mut self.world.components.components,
+                    &mut self.world.components.groups,
+                    self.group_mask,
+                    entity,
+                );
+            }
+        }
+    }
+}
+
 macro_rules! impl_component_set {
     ($(($Comp:ident, $idx:tt)),*) => {
         unsafe impl<$($Comp,)*> ComponentSet for ($($Comp,)*)
@@ -44,7 +78,7 @@ macro_rules! impl_component_set {
             unsafe fn insert(world: &mut World, entity: Entity, components: Self) {
                 let mut group_mask = GroupMask::EMPTY;
 
-                $({
+                let sparse_sets = ($({
                     let metadata = world
                         .components
                         .metadata
@@ -57,11 +91,18 @@ macro_rules! impl_component_set {
                         world
                             .components
                             .components
-                            .get_unchecked_mut(metadata.storage_index)
-                            .get_mut()
-                            .insert(entity, components.$idx);
+                            .get_unchecked(metadata.storage_index)
+                            .as_ptr()
                     }
-                })*
+                },)*);
+
+                // The replaced components are dropped last, so the entity is
+                // grouped even if a destructor panics.
+                let _replaced = unsafe {
+                    ($(
+                        (*sparse_sets.$idx).insert(entity, components.$idx),
+                    )*)
+                };
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
@@ -101,32 +142,26 @@ macro_rules! impl_component_set {
 
                 let start_entity = world.entities.len();
 
-                components.into_iter().for_each(|components| {
-                    let entity = world.entities.create();
-
-                    unsafe {$(
-                        (*sparse_sets.$idx).insert(entity, components.$idx);
-                    )*}
-                });
-
-                let new_entities = unsafe {
-                    world.entities.as_slice().get_unchecked(start_entity..)
-                };
-
-                if group_mask != GroupMask::EMPTY {
-                    for &entity in new_entities {
-                        unsafe {
-                            group(
-                                &mut world.components.components,
-                                &mut world.components.groups,
-                                group_mask,
-                                entity,
-                            );
-                        }
-                    }
+                {
+                    let new_entities = GroupNewEntities {
+                        world: &mut *world,
+                        group_mask,
+                        start_entity,
+                    };
+
+                    components.into_iter().for_each(|components| {
+                        let entity = new_entities.world.entities.create();
+
+                        // Drop the replaced components last.
+                        let _replaced = unsafe {
+                            ($(
+                                (*sparse_sets.$idx).insert(entity, components.$idx),
+                            )*)
+                        };
+                    });
                 }
 
-                new_entities
+                unsafe { world.entities.as_slice().get_unchecked(start_entity..) }
             }
 
             unsafe fn remove(world: &mut World, entity: Entity) -> Self::Remove {
-- 
2.43.0


From 7d274a0d5250d45323daed1bde3ccfc59e486e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 13/15] fix: delete all components even if a destructor panics

---
 src/component/component_set.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index e62b02d..21b779f 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -232,9 +232,11 @@ macro_rules! impl_component_set {
                         );
                     }
 
-                    $(
-                        (*sparse_sets.$idx).delete::<$Comp>(entity);
-                    )*
+                    // The components are dropped last, so none of them is left
+                    // behind if a destructor panics.
+                    let _removed = ($(
+                        (*sparse_sets.$idx).remove::<$Comp>(entity),
+                    )*);
                 }
             }
         }
-- 
2.43.0


From 6a88da8ffee49fe697c6a96f89b4398ac3c0586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 14/15] fix: leave the layout unchanged if a group is refused

---
 src/component/group_layout.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 68273f3..62e13d5 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -44,6 +44,18 @@ impl GroupLayout {
             "Groups must have at most {MAX_GROUP_ARITY} component types",
         );
 
+        // Families must not be modified if the group is refused.
+        let overlapping_families = self
+            .families
+            .iter()
+            .filter(|f| f.components.iter().any(|c| components.contains(c)))
+            .count();
+
+        assert!(
+            overlapping_families <= 1,
+            "Groups families may not have any component types in common",
+        );
+
         let successes = self
             .families
             .iter_mut()
@@ -52,11 +64,6 @@ impl GroupLayout {
 
         if successes == 0 {
             self.families.push(GroupFamily::new(components));
-        } else {
-            assert_eq!(
-                successes, 1,
-                "Groups families may not have any component types in common",
-            );
         }
     }
 
-- 
2.43.0


From d62f6bae35bb5efb6a686863fcecaefaeed7ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 15/15] fix: keep the components if a layout has too many
 groups

---
 src/component/component_storage.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 1f303c6..3d53a39 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -1,7 +1,7 @@
 use crate::component::{
     group, ungroup_all, Component, ComponentData, ComponentSparseSet, Group, GroupInfo,
     GroupLayout, GroupMask, GroupMetadata, NonZeroStorageMask, QueryGroupInfo, QueryMask,
-    StorageMask, View, ViewMut,
+    StorageMask, View, ViewMut, MAX_GROUP_COUNT,
 };
 use crate::entity::Entity;
 use alloc::vec::Vec;
@@ -35,6 +35,18 @@ impl ComponentStorage {
     }
 
     pub unsafe fn set_layout(&mut self, layout: &GroupLayout, entities: &[Entity]) {
+        let group_count = layout
+            .families()
+            .iter()
+            .map(|f| f.arities().len())
+            .sum::<usize>();
+
+        // Check before any storage is touched.
+        assert!(
+            group_count <= MAX_GROUP_COUNT,
+            "Group layouts must have at most {MAX_GROUP_COUNT} groups",
+        );
+
         let mut sparse_sets = self.extract_sparse_sets();
 
         for family in layout.families() {
-- 
2.43.0

