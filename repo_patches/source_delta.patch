From de228df66a1931b4532164a0ae40f3a7a8e9a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 01/17] fix: don't pass zero-sized layouts to the allocator

---
 src/mem_utils.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..d04f628 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = self::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,10 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() != 0 {
+        std::alloc::dealloc(ptr as *mut u8, layout)
+    }
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
-- 
2.43.0


From a9a4af45f308b112e8864eb8047125e99cdd1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 02/17] fix: release the elements buffer when a resource store
 is dropped

---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..b862172 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -88,5 +88,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 32a26d4bd4fa31411411e957ff1e9dd62215ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 03/17] fix: take a reused archetype out of the free list even
 if the list is unsorted

---
 src/archetypes_container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..fb9db5b 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,9 +207,9 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
+                match self.free_archetypes.iter().position(|free_idx| *free_idx == i) {
+                    Some(i) => { self.free_archetypes.remove(i); },
+                    None => {}
                 };
 
                 return i;
-- 
2.43.0


From 2b5b1bd58cf892abeab42bcb547f0f35b10c5eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 04/17] fix: limit page rows by the layout's capacity, not by
 the id vector's capacity

---
 src/archetype_data_page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..6363bc4 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entity_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,14 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entity_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
+        self.entity_capacity = capacity;
     }
 
     #[inline(always)]
@@ -36,7 +39,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entity_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From 072876ab26cc088a40d45f0253c2ecbf3110131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 05/17] fix: refuse an archetype whose row doesn't fit in a
 page in all builds

---
 src/archetype_layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..59aab59 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -16,6 +16,11 @@ impl ArchetypeLayout {
         let entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
+        assert!(
+            entities_capacity > 0,
+            "Components row doesn't fit in the data page"
+        );
+
         let offsets = unsafe {
             Self::calculate_offsets(sizes, aligns, component_count, entities_capacity)
         };
-- 
2.43.0


From 17657596dd4ff834abcb2e327e18631539009456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 06/17] fix: align data pages, so that components are aligned

---
 src/archetype_data_page.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 6363bc4..a90491c 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -1,4 +1,6 @@
-use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::ArchetypeLayout};
+use std::alloc::Layout;
+
+use crate::{archetype::ArchetypesUnion, Archetype, archetype_layout::ArchetypeLayout};
 
 /// Reusable page of the components data with a fixed size (4096 Bytes), related to the concrete archetype.
 /// It contains data for all components of the some entities subset
@@ -17,7 +19,7 @@ impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { std::alloc::alloc(Self::memory_layout()) };
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -26,6 +28,17 @@ impl ArchetypeDataPage {
         }
     }
 
+    /// Any component that fits in the page has an alignment less or equal to the page size,
+    /// so component offsets are aligned relative to the page start, that is aligned to its size
+    fn memory_layout() -> Layout {
+        unsafe {
+            Layout::from_size_align_unchecked(
+                Self::PAGE_SIZE_BYTES,
+                Self::PAGE_SIZE_BYTES,
+            )
+        }
+    }
+
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
@@ -160,6 +173,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { std::alloc::dealloc(self.components_data_ptr, Self::memory_layout()) };
     }
 }
-- 
2.43.0


From b1565ac9b7e7da459664f66995e9c22784b9948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 07/17] fix: archetype exclusion test for ids listed in any
 order

---
 src/archetype.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..1be92d8 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,10 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            let result = self_ids.binary_search(id);
+            if result.is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 250684c637d6c5850aad7cddefd8ae8035a27130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 08/17] fix: removing all components of an entity leaves it
 without archetype

---
 src/archetype_builder.rs |  4 ++++
 src/store.rs             | 14 +++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..2d0b9c4 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -54,6 +54,10 @@ impl ArchetypeBuilder {
         self
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.component_types.is_empty()
+    }
+
     pub fn build(&mut self) -> Archetype {
         self.component_types.sort_by_key(|a| a.id());
 
diff --git a/src/store.rs b/src/store.rs
index f48a636..ad87df9 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -176,10 +176,18 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
-        let new_arch = ArchetypeBuilder::new()
+        let mut new_arch_builder = ArchetypeBuilder::new();
+        new_arch_builder
             .include_archetype(&prev_arch)
-            .exclude_components::<T>()
-            .build();
+            .exclude_components::<T>();
+
+        if new_arch_builder.is_empty() {
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            self.swap_remove_internal(prev_entity_in_arch);
+            return;
+        }
+
+        let new_arch = new_arch_builder.build();
 
         self.move_entity_to_other_archetype(entity, &new_arch);
     }
-- 
2.43.0


From f759ba21a5dfe986dc7749ab35010bbe51c4d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 09/17] fix: refuse to add the only member of an order group to
 it again

---
 src/order_group_container.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..4ef0551 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -51,7 +51,7 @@ impl OrderGroupContainer {
                 let fwd_id = *forward_links.add(entity_id as usize);
                 let bwd_id = &mut *backward_links.add(entity_id as usize);
 
-                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id);
+                Self::assert_entity_has_no_order(entity_id, *head, fwd_id, *bwd_id);
 
                 *forward_links.add(*tail as usize) = entity_id;
                 *bwd_id = *tail;
@@ -68,15 +68,20 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *head,
+                *fwd_entity_id,
+                *bwd_entity_id,
+            );
 
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
@@ -112,7 +117,12 @@ impl OrderGroupContainer {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *head,
+                *fwd_entity_id,
+                *bwd_entity_id,
+            );
 
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
@@ -129,7 +139,17 @@ impl OrderGroupContainer {
         }
     }
 
-    fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32) {
+    fn assert_entity_has_no_order(
+        entity_id: u32,
+        head_id: u32,
+        fwd_id: u32,
+        bwd_id: u32,
+    ) {
+        debug_assert!(
+            head_id != entity_id,
+            "Entity {entity_id} is already the first in the group. Added entity must have no orders"
+        );
+
         debug_assert!(
             fwd_id == Entity::NULL_ID,
             "Entity {entity_id} already reference to the next order of entity {fwd_id}. Added entity must have no orders"
-- 
2.43.0


From eb39dafeb08d4f2796d748eb0e84f094c8d08c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 10/17] fix: don't recurse for every item skipped by a tag
 filter

---
 src/query/component.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..0504330 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -188,12 +188,12 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
+        while let Some((e, o)) = self.source_iter.next() {
+            if unsafe { bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) } {
+                return Some((e, o));
             }
-        })
+        }
+
+        None
     }
 }
-- 
2.43.0


From c5e62d467632581cc281b24afd6f3e7e3d792b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 11/17] fix: skip entities without archetype in ordered queries

---
 src/query/ordered_component.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..59741e4 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -88,6 +88,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -121,6 +126,10 @@ impl Store {
 
             let mut next_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
             while next_entity != Entity::NULL_ID {
+                if unsafe { !self.has_archetype_unchecked(next_entity) } {
+                    break;
+                }
+
                 let (next_page_index, next_index_in_page) = unsafe {
                     (
                         self.get_page_index_unchecked(next_entity),
-- 
2.43.0


From 2bfadc0a418cdbeaa1808a26fcb4fb42f080f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 12/17] fix: take the entity of an ordered query item from the
 item's own range

---
 src/query/ordered_component.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 59741e4..7867e8c 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -21,6 +21,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     entity_ranges: &'a [Range<u32>],
     range_pages: &'a [ComponentPageIterView<T>],
 
+    current_range_index: u32,
     next_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
@@ -170,6 +171,7 @@ impl Store {
 
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
+            current_range_index: 0,
             next_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
@@ -186,7 +188,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             return None;
         }
 
-        let curr_range_index = self.next_range_index as usize;
+        self.current_range_index = self.next_range_index;
+        let curr_range_index = self.current_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
@@ -221,7 +224,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From 4747975ca7fa8ae2b787b1e7d80fc78552d3cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 13/17] fix: don't yield entities without archetype in entity
 queries

---
 src/query/entity_component.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..35a7d29 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -94,7 +94,9 @@ impl Store {
 
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if !self.is_valid_entity_with_archetype(inner_entity)
+                    | (range_page_index != page_index)
+                {
                     break;
                 }
 
-- 
2.43.0


From 4370c48014573252e44713362e0e9c3f3ef00cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 14/17] fix: ignore handles of destroyed entities in tag
 operations

---
 src/tag_container.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..63cdf05 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -96,17 +96,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From a3462325f33507334ca5df3e56f700b8d9197b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 15/17] fix: ignore handles of destroyed entities in order
 operations

---
 src/order_group_container.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 4ef0551..4c5fbb6 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -361,7 +361,9 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
-        self.order_group_container.add_id_ordered_by::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.order_group_container.add_id_ordered_by::<T>(entity.id);
+        }
     }
 
     pub fn add_entity_next_to_order_by<T: Tag>(
@@ -369,8 +371,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
-        self.order_group_container
-            .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
+        if self.is_alive(entity) && self.is_alive(next_to_entity) {
+            self.order_group_container
+                .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
+        }
     }
 
     pub fn add_entity_previous_to_order_by<T: Tag>(
@@ -378,16 +382,24 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
-        self.order_group_container
-            .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
+        if self.is_alive(entity) && self.is_alive(previous_to_entity) {
+            self.order_group_container
+                .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
+        }
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
-        self.order_group_container
-            .remove_id_ordered_by::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.order_group_container
+                .remove_id_ordered_by::<T>(entity.id);
+        }
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -397,6 +409,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
-- 
2.43.0


From 4bd656be9df983e3dee2142ba0ee938dcb24a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 16/17] fix: validate the handle before destroying anything of
 the entity

---
 src/store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index ad87df9..b05a8c9 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -83,6 +83,8 @@ impl Store {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
+        self.entities_container.destroy_entity(entity);
+
         let entity_id = entity.id;
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
@@ -97,7 +99,6 @@ impl Store {
             self.swap_remove_internal(entity_in_arch);
         }
 
-        self.entities_container.destroy_entity(entity);
         self.tag_container.remove_all_tags_for_entity(entity_id);
         self.order_group_container
             .remove_all_orders_for_id(entity_id);
-- 
2.43.0


From dfe804c6956eaf445d6b4cd48ea5e1e5c49a3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 17/17] fix: do not read the page index of an entity without
 components in entity component query

---
 src/query/entity_component.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index 35a7d29..b48819e 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,11 +92,14 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                // An entity without components has no page index to read
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_valid_entity_with_archetype(inner_entity)
-                    | (range_page_index != page_index)
-                {
+                if range_page_index != page_index {
                     break;
                 }
 
-- 
2.43.0

