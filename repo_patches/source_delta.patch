From d7b3869b9ac3dafd3e68b18404ad0a7a201505b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 01/17] fix: do not resurrect destroyed entities in maintain

Entities created directly were treated as still queued until the next
maintain, so destroying one before that call brought it back to life.
---
 src/entity/entity_allocator.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..0b3db5d 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -1,5 +1,7 @@
 use crate::entity::Entity;
 use alloc::collections::VecDeque;
+use alloc::vec::Vec;
+use core::mem;
 use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
 
 #[derive(Default, Debug)]
@@ -8,18 +10,23 @@ pub(crate) struct EntityAllocator {
     last_maintained_index: u64,
     recycled: VecDeque<Entity>,
     recycled_since_maintain: AtomicUsize,
+    queued: Vec<Entity>,
 }
 
 impl EntityAllocator {
     #[must_use]
     pub fn allocate(&mut self) -> Option<Entity> {
-        let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
+        // Only entities allocated atomically are to be returned by `maintain`, so
+        // set them aside before allocating an entity that must not be.
+        let mut queued = mem::take(&mut self.queued);
+        queued.extend(self.drain_atomic());
+        self.queued = queued;
 
-        if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
+        if let Some(entity) = self.recycled.pop_back() {
+            Some(entity)
         } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
             *self.next_index_to_allocate.get_mut() += 1;
+            self.last_maintained_index += 1;
             Some(Entity::with_index(index))
         } else {
             None
@@ -47,6 +54,11 @@ impl EntityAllocator {
     }
 
     pub fn maintain(&mut self) -> impl Iterator<Item = Entity> + '_ {
+        let queued = mem::take(&mut self.queued);
+        queued.into_iter().chain(self.drain_atomic())
+    }
+
+    fn drain_atomic(&mut self) -> impl Iterator<Item = Entity> + '_ {
         let recycled_range = {
             let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
             *self.recycled_since_maintain.get_mut() = 0;
@@ -70,6 +82,7 @@ impl EntityAllocator {
         self.last_maintained_index = 0;
         self.recycled.clear();
         *self.recycled_since_maintain.get_mut() = 0;
+        self.queued.clear();
     }
 
     fn increment_recycled_since_maintain(&self) -> Option<usize> {
-- 
2.43.0


From 56a1684bfab4a0d06242885b2159445b5181e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 02/17] fix: slice components starting at the start of the
 group range

Slices of queries with an exclude filter returned the components at the
start of the storage instead of those of the matching entities.
---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..0537522 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.as_ptr().add(range.start), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.as_ptr().add(range.start), range.end - range.start)
     }
 }
 
-- 
2.43.0


From 23b286eac7994eb6e6d7db1da83e976274071ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 03/17] fix: skip entities with any excluded component in dense
 iteration

Excluding all components added by a nested group only skipped entities
which had all of them, unlike sparse iteration and single entity queries.
---
 src/component/component_storage.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..4e75b48 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -287,6 +287,18 @@ impl ComponentStorage {
             return None;
         }
 
+        // Entities with only some of the excluded components belong to the parent
+        // group but not to the child group, yet they must not match the query.
+        let excluded = &self.components[child_group.metadata.new_storage_range()];
+
+        if excluded.len() > 1
+            && excluded
+                .iter()
+                .any(|sparse_set| (*sparse_set.as_ptr()).len() != child_group.len)
+        {
+            return None;
+        }
+
         let parent_group = unsafe { self.groups.get_unchecked(usize::from(group_end) - 2) };
         Some(child_group.len..parent_group.len)
     }
-- 
2.43.0


From ad3b4bcb741adaa20cdff770dc419003a5081380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 04/17] fix: accept nested component groups in any order

Adding a group before one of its subsets panicked, and some incompatible
groups were accepted and silently corrupted the layout.
---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..68273f3 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_cached_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From bbc0446271dd419594b480c4bf3fbb7252026592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 05/17] fix: support groups of MAX_GROUP_ARITY component types

Building a world with a group of 16 component types panicked.
---
 src/component/storage_mask.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..a2551e8 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -10,11 +10,10 @@ impl StorageMask {
     #[inline]
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1u32 << (to - from)) - 1) << from) as u16)
     }
 }
 
-- 
2.43.0


From 29c9e5872316ef6e935876b4bc7d9b610bbdeb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 06/17] fix: support layouts of MAX_GROUP_COUNT groups

Building a world with 64 groups panicked.
---
 src/component/group_mask.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..6650aa6 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -11,21 +11,16 @@ impl GroupMask {
     #[inline]
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1u128 << (to - from)) - 1) << from) as u64)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
-        assert!(from <= to);
-
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!Self::from_to(from, to).0)
     }
 
     #[inline]
-- 
2.43.0


From bf3083d798b9c6003160475cb791752efc066118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 07/17] fix: leave the group layout unchanged when a group is
 rejected

A rejected group could already have been added to another family, making
later compatible groups fail.
---
 src/component/group_layout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 68273f3..8c90c1b 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -44,20 +44,24 @@ impl GroupLayout {
             "Groups must have at most {MAX_GROUP_ARITY} component types",
         );
 
-        let successes = self
-            .families
+        // Groups may be rejected after being added to some of the families.
+        let mut families = self.families.clone();
+
+        let successes = families
             .iter_mut()
             .map(|f| usize::from(f.try_add_group(&components)))
             .sum::<usize>();
 
         if successes == 0 {
-            self.families.push(GroupFamily::new(components));
+            families.push(GroupFamily::new(components));
         } else {
             assert_eq!(
                 successes, 1,
                 "Groups families may not have any component types in common",
             );
         }
+
+        self.families = families;
     }
 
     /// Returns the group families of this layout.
-- 
2.43.0


From 2adb7f86921b7abfe9d4fa2a6caa2a1e016a2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 08/17] fix: apply exclude filters that match all entities to
 dense queries

Excluding entities or optional components had no effect on dense
iteration, but excluded everything from all other queries.
---
 src/query/query_all.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/query/query_all.rs b/src/query/query_all.rs
index d1f925c..50850d8 100644
--- a/src/query/query_all.rs
+++ b/src/query/query_all.rs
@@ -203,6 +203,14 @@ where
         let include_info = self.include_info?;
         let exclude_info = self.exclude_info?;
 
+        // No entity has this sparse index, so it can only be rejected by filters
+        // that reject all entities, which have no group range.
+        let (_, exclude_sparse) = E::split_filter_parts(&self.exclude);
+
+        if !E::contains_none_raw(exclude_sparse, usize::MAX) {
+            return None;
+        }
+
         unsafe {
             self.world
                 .components
-- 
2.43.0


From b752530c8ad6f5797c86cba97494eac64b462e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 09/17] fix: leave the world unchanged when a component is not
 registered

Creating an entity or inserting components panicked half-way, leaving
behind an entity, some of its components, and broken groups.
---
 src/component/component_set.rs | 13 ++++++++-----
 src/world/mod.rs               |  9 ++-------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 7b629d8..81e2b2c 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -44,7 +44,7 @@ macro_rules! impl_component_set {
             unsafe fn insert(world: &mut World, entity: Entity, components: Self) {
                 let mut group_mask = GroupMask::EMPTY;
 
-                $({
+                let sparse_sets = ($({
                     let metadata = world
                         .components
                         .metadata
@@ -57,11 +57,14 @@ macro_rules! impl_component_set {
                         world
                             .components
                             .components
-                            .get_unchecked_mut(metadata.storage_index)
-                            .get_mut()
-                            .insert(entity, components.$idx);
+                            .get_unchecked(metadata.storage_index)
+                            .as_ptr()
                     }
-                })*
+                },)*);
+
+                unsafe {$(
+                    (*sparse_sets.$idx).insert(entity, components.$idx);
+                )*}
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
diff --git a/src/world/mod.rs b/src/world/mod.rs
index 1dffb0d..c84f7f7 100644
--- a/src/world/mod.rs
+++ b/src/world/mod.rs
@@ -10,6 +10,7 @@ use crate::component::{
 use crate::entity::{Entity, EntityStorage};
 use crate::query::{Query, QueryAll, QueryOne};
 use core::any::TypeId;
+use core::iter;
 
 /// Collection for entities and their associated components.
 #[derive(Default, Debug)]
@@ -87,13 +88,7 @@ impl World {
     where
         C: ComponentSet,
     {
-        let entity = self.entities.create();
-
-        unsafe {
-            C::insert(self, entity, components);
-        }
-
-        entity
+        self.extend(iter::once(components))[0]
     }
 
     /// Creates new entities with the `components` produced by the iterator.
-- 
2.43.0


From fe3c6973d76364b2fde674c79bad589426d02ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 10/17] fix: group new entities even if the component iterator
 panics

Entities created by extend before its iterator panicked were missing from
dense iteration.
---
 src/component/component_set.rs | 57 ++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 81e2b2c..82ccaaa 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -104,32 +104,22 @@ macro_rules! impl_component_set {
 
                 let start_entity = world.entities.len();
 
+                let new_entities = NewEntities {
+                    world,
+                    start_entity,
+                    group_mask,
+                };
+
                 components.into_iter().for_each(|components| {
-                    let entity = world.entities.create();
+                    let entity = new_entities.world.entities.create();
 
                     unsafe {$(
                         (*sparse_sets.$idx).insert(entity, components.$idx);
                     )*}
                 });
 
-                let new_entities = unsafe {
-                    world.entities.as_slice().get_unchecked(start_entity..)
-                };
-
-                if group_mask != GroupMask::EMPTY {
-                    for &entity in new_entities {
-                        unsafe {
-                            group(
-                                &mut world.components.components,
-                                &mut world.components.groups,
-                                group_mask,
-                                entity,
-                            );
-                        }
-                    }
-                }
-
-                new_entities
+                drop(new_entities);
+                unsafe { world.entities.as_slice().get_unchecked(start_entity..) }
             }
 
             unsafe fn remove(world: &mut World, entity: Entity) -> Self::Remove {
@@ -209,6 +199,35 @@ macro_rules! impl_component_set {
     };
 }
 
+/// Groups the entities created since `start_entity` when dropped, even if the
+/// iterator that produces their components panics.
+struct NewEntities<'a> {
+    world: &'a mut World,
+    start_entity: usize,
+    group_mask: GroupMask,
+}
+
+impl Drop for NewEntities<'_> {
+    fn drop(&mut self) {
+        if self.group_mask == GroupMask::EMPTY {
+            return;
+        }
+
+        let components = &mut self.world.components;
+
+        for &entity in &self.world.entities.as_slice()[self.start_entity..] {
+            unsafe {
+                group(
+                    &mut components.components,
+                    &mut components.groups,
+                    self.group_mask,
+                    entity,
+                );
+            }
+        }
+    }
+}
+
 unsafe impl ComponentSet for () {
     type Remove = ();
 
-- 
2.43.0


From 3e9df50c2fd25dd24963a4a052f877e14d8f2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 11/17] fix: never drop a component again after its destructor
 panicked

---
 src/component/component_sparse_set.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 25fb590..1b6b9fa 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -111,11 +111,14 @@ impl ComponentSparseSet {
             });
         }
 
-        let dropped_ptr = self.components.cast::<T>().add(index);
-        dropped_ptr.drop_in_place();
-
+        let deleted_ptr = self.components.cast::<T>().add(index);
         let last_ptr = self.components.cast::<T>().add(self.len);
-        last_ptr.copy_to(dropped_ptr, 1);
+
+        // Replace deleted component with last component before dropping it, since
+        // its destructor may panic.
+        let component = deleted_ptr.read();
+        last_ptr.copy_to(deleted_ptr, 1);
+        drop(component);
     }
 
     #[inline]
@@ -299,15 +302,17 @@ impl ComponentSparseSet {
     {
         self.sparse.clear();
 
+        // Forget the components before dropping them, since their destructors may
+        // panic.
+        let len = mem::replace(&mut self.len, 0);
+
         if mem::needs_drop::<T>() {
-            for i in 0..self.len {
+            for i in 0..len {
                 unsafe {
                     self.components.cast::<T>().add(i).drop_in_place();
                 }
             }
         }
-
-        self.len = 0;
     }
 
     unsafe fn drop_typed<T>(&mut self)
-- 
2.43.0


From 106924696043e7e04bd5a044821929b6a9e18ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 12/17] fix: keep entity versions when swapping sparse slots

---
 src/entity/sparse_vec.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/entity/sparse_vec.rs b/src/entity/sparse_vec.rs
index 612eb89..a4be31e 100644
--- a/src/entity/sparse_vec.rs
+++ b/src/entity/sparse_vec.rs
@@ -94,17 +94,22 @@ impl SparseVec {
         unsafe { self.slots.get_unchecked_mut(index) }
     }
 
-    /// Swaps the entities at the given dense indexes without checking their
-    /// validity.
+    /// Swaps the dense indexes of the entities at the given sparse indexes
+    /// without checking their validity.
     #[inline]
     pub unsafe fn swap_nonoverlapping(&mut self, a: usize, b: usize) {
         debug_assert!(a < self.slots.len());
         debug_assert!(b < self.slots.len());
         debug_assert_ne!(a, b);
 
-        let entity_a = &mut *self.slots.as_mut_ptr().add(a);
-        let entity_b = &mut *self.slots.as_mut_ptr().add(b);
-        mem::swap(entity_a, entity_b);
+        let slot_a = (*self.slots.as_mut_ptr().add(a)).as_mut();
+        let slot_b = (*self.slots.as_mut_ptr().add(b)).as_mut();
+
+        // Entities keep their versions.
+        mem::swap(
+            &mut slot_a.unwrap_unchecked().index,
+            &mut slot_b.unwrap_unchecked().index,
+        );
     }
 
     /// Removes all entities from the storage.
-- 
2.43.0


From cf6f13df92b13c807cb58baef9a43e40a2bb683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 13/17] verif: scheduling points before atomic operations (cfg
 sparsey_verif)

---
 src/entity/entity_allocator.rs | 12 ++++++++++++
 src/lib.rs                     |  4 ++++
 src/verif.rs                   | 22 ++++++++++++++++++++++
 3 files changed, 38 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index 0b3db5d..40b5461 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -87,9 +87,15 @@ impl EntityAllocator {
 
     fn increment_recycled_since_maintain(&self) -> Option<usize> {
         let recycled_len = self.recycled.len();
+        #[cfg(sparsey_verif)]
+        crate::verif::point();
+
         let mut prev = self.recycled_since_maintain.load(Ordering::Relaxed);
 
         while prev < recycled_len {
+            #[cfg(sparsey_verif)]
+            crate::verif::point();
+
             match self.recycled_since_maintain.compare_exchange_weak(
                 prev,
                 prev + 1,
@@ -105,9 +111,15 @@ impl EntityAllocator {
     }
 
     fn increment_next_index_to_allocate(&self) -> Option<u32> {
+        #[cfg(sparsey_verif)]
+        crate::verif::point();
+
         let mut prev = self.next_index_to_allocate.load(Ordering::Relaxed);
 
         while u32::try_from(prev).is_ok() {
+            #[cfg(sparsey_verif)]
+            crate::verif::point();
+
             match self.next_index_to_allocate.compare_exchange_weak(
                 prev,
                 prev + 1,
diff --git a/src/lib.rs b/src/lib.rs
index 97ca56b..de052d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,12 +39,16 @@
 //! versioned index used to reference components within a [`World`].
 
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 
 pub mod component;
 pub mod entity;
 pub mod query;
+#[cfg(sparsey_verif)]
+#[doc(hidden)]
+pub mod verif;
 pub mod world;
 
 pub use self::entity::Entity;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..33331ce
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,22 @@
+//! Scheduling points for verification, compiled with `--cfg sparsey_verif` only.
+
+use core::mem;
+use core::ptr;
+use core::sync::atomic::{AtomicPtr, Ordering};
+
+static HOOK: AtomicPtr<()> = AtomicPtr::new(ptr::null_mut());
+
+/// Makes every scheduling point call `hook`.
+pub fn set_hook(hook: fn()) {
+    HOOK.store(hook as *mut (), Ordering::SeqCst);
+}
+
+/// Called right before each atomic operation on state shared between threads.
+pub(crate) fn point() {
+    let hook = HOOK.load(Ordering::SeqCst);
+
+    if !hook.is_null() {
+        let hook = unsafe { mem::transmute::<*mut (), fn()>(hook) };
+        hook();
+    }
+}
-- 
2.43.0


From 32232a49f6bc5b64b8727d4f43eae2b56728f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 14/17] fix: complete operations even if a component's
 destructor panics

An operation that drops several component values stopped at the first
destructor that panicked: destroy and clear kept the later components of
dead entities, delete and insert skipped the later components, and insert
left the entity out of its groups.
---
 src/component/component_set.rs     | 21 +++++++-----
 src/component/component_storage.rs | 54 ++++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 82ccaaa..6e5a0a9 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -62,9 +62,10 @@ macro_rules! impl_component_set {
                     }
                 },)*);
 
-                unsafe {$(
-                    (*sparse_sets.$idx).insert(entity, components.$idx);
-                )*}
+                // Drop the replaced components last, since their destructors may panic.
+                let _replaced = unsafe {
+                    ($((*sparse_sets.$idx).insert(entity, components.$idx),)*)
+                };
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
@@ -113,9 +114,10 @@ macro_rules! impl_component_set {
                 components.into_iter().for_each(|components| {
                     let entity = new_entities.world.entities.create();
 
-                    unsafe {$(
-                        (*sparse_sets.$idx).insert(entity, components.$idx);
-                    )*}
+                    // Drop the replaced components last, since their destructors may panic.
+                    let _replaced = unsafe {
+                        ($((*sparse_sets.$idx).insert(entity, components.$idx),)*)
+                    };
                 });
 
                 drop(new_entities);
@@ -190,9 +192,10 @@ macro_rules! impl_component_set {
                         );
                     }
 
-                    $(
-                        (*sparse_sets.$idx).delete::<$Comp>(entity);
-                    )*
+                    // Drop the components last, since their destructors may panic.
+                    let _deleted = ($(
+                        (*sparse_sets.$idx).remove::<$Comp>(entity),
+                    )*);
                 }
             }
         }
diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 4e75b48..3f48cef 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -8,7 +8,7 @@ use alloc::vec::Vec;
 use atomic_refcell::AtomicRefCell;
 use core::any::{self, TypeId};
 use core::ops::Range;
-use core::{cmp, mem};
+use core::{cmp, mem, slice};
 use hashbrown::hash_map::Entry;
 use hashbrown::HashMap;
 use rustc_hash::FxBuildHasher;
@@ -140,9 +140,9 @@ impl ComponentStorage {
             ungroup_all(&mut self.components, &mut self.groups, entity);
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().delete_dyn(entity);
-        }
+        for_each_sparse_set(&mut self.components, |sparse_set| {
+            sparse_set.delete_dyn(entity);
+        });
     }
 
     pub fn clear(&mut self) {
@@ -150,9 +150,7 @@ impl ComponentStorage {
             group.len = 0;
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().clear();
-        }
+        for_each_sparse_set(&mut self.components, ComponentSparseSet::clear);
     }
 
     #[must_use]
@@ -325,6 +323,48 @@ impl ComponentStorage {
     }
 }
 
+/// Calls `f` on every sparse set, even if a call panics because a component's
+/// destructor does.
+fn for_each_sparse_set<F>(sparse_sets: &mut [AtomicRefCell<ComponentSparseSet>], f: F)
+where
+    F: Fn(&mut ComponentSparseSet),
+{
+    struct ForEach<'a, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        sparse_sets: slice::IterMut<'a, AtomicRefCell<ComponentSparseSet>>,
+        f: F,
+    }
+
+    impl<F> ForEach<'_, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        fn run(&mut self) {
+            for sparse_set in &mut self.sparse_sets {
+                (self.f)(sparse_set.get_mut());
+            }
+        }
+    }
+
+    impl<F> Drop for ForEach<'_, F>
+    where
+        F: Fn(&mut ComponentSparseSet),
+    {
+        fn drop(&mut self) {
+            // Only sparse sets skipped by a panic are left.
+            self.run();
+        }
+    }
+
+    ForEach {
+        sparse_sets: sparse_sets.iter_mut(),
+        f,
+    }
+    .run();
+}
+
 #[derive(Clone, Copy, Debug)]
 pub(crate) struct ComponentMetadata {
     pub storage_index: usize,
-- 
2.43.0


From ffd8c43d877b4bb723e0c828b4fe4561a6c3829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:08 +0000
Subject: [PATCH 15/17] fix: discard emptied storages when the group layout
 changes

---
 src/component/component_storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 3f48cef..67d4c59 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -318,6 +318,7 @@ impl ComponentStorage {
 
         self.groups.clear();
         self.metadata.clear();
+        self.components.clear();
 
         sparse_sets
     }
-- 
2.43.0


From f411d9c7a0f44901d844bfeb32f74da9440228d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 16/17] fix: reject groups beyond the documented limit when
 they are added

---
 src/component/group_layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 8c90c1b..194ff06 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -61,6 +61,13 @@ impl GroupLayout {
             );
         }
 
+        let group_count = families.iter().map(|f| f.arities().len()).sum::<usize>();
+
+        assert!(
+            group_count <= MAX_GROUP_COUNT,
+            "Layouts must have at most {MAX_GROUP_COUNT} groups",
+        );
+
         self.families = families;
     }
 
-- 
2.43.0


From e2f0dffaf276d493f40eab7ea41b3b47a0cf673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 17/17] fix: give back the memory of a sparse set even if a
 destructor panics as it is dropped

---
 src/component/component_sparse_set.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 1b6b9fa..7be1f69 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -319,6 +319,26 @@ impl ComponentSparseSet {
     where
         T: Component,
     {
+        struct Data {
+            ptr: NonNull<u8>,
+            layout: Layout,
+        }
+
+        impl Drop for Data {
+            fn drop(&mut self) {
+                unsafe {
+                    alloc::dealloc(self.ptr.as_ptr(), self.layout);
+                }
+            }
+        }
+
+        // Deallocate when leaving the function, since the destructors of the
+        // components may panic.
+        let _data = (self.cap != 0).then(|| Data {
+            ptr: self.entities.cast::<u8>(),
+            layout: Self::compute_layout::<T>(self.cap).0,
+        });
+
         if mem::needs_drop::<T>() {
             for i in 0..self.len {
                 unsafe {
@@ -326,11 +346,6 @@ impl ComponentSparseSet {
                 }
             }
         }
-
-        if self.cap != 0 {
-            let (layout, _) = Self::compute_layout::<T>(self.cap);
-            alloc::dealloc(self.entities.cast::<u8>().as_ptr(), layout);
-        }
     }
 
     fn compute_layout<T>(cap: usize) -> (Layout, usize) {
-- 
2.43.0

