From 60100eacb85188e660913e137d8e3f93d0e06fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 01/22] fix: allocate data pages with an alignment components
 can rely on

---
 src/archetype_data_page.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..8a829b1 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -8,15 +8,22 @@ pub struct ArchetypeDataPage {
     components_data_ptr: *mut u8,
 }
 
+/// Memory block of the one page. Alignment of the block limits alignment of the stored components
+#[repr(align(4096))]
+struct PageData {
+    _bytes: [u8; ArchetypeDataPage::PAGE_SIZE_BYTES],
+}
+
 pub(crate) struct SwapRemoveInfo {
     pub id_to_replace: u32,
 }
 
 impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
+    pub(crate) const PAGE_ALIGN_BYTES: usize = std::mem::align_of::<PageData>();
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { mem_utils::alloc::<PageData>(1) as *mut u8 };
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -157,6 +164,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { mem_utils::dealloc(self.components_data_ptr as *mut PageData, 1) };
     }
 }
-- 
2.43.0


From 8b550206da7dd33a617eac82822391886f69b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 02/22] fix: page layout for over-aligned, zero-sized and too
 large components

---
 src/archetype_layout.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..85fde6a 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -32,21 +32,28 @@ impl ArchetypeLayout {
         aligns: *const usize,
         component_count: usize,
     ) -> usize {
-        let ptr_size = std::mem::size_of::<usize>();
-
         let aligns = std::slice::from_raw_parts(aligns, component_count);
-        let max_align = aligns.into_iter().max().unwrap();
-        let max_align = max_align % ptr_size;
+        let max_align = *aligns.into_iter().max().unwrap();
+        assert!(
+            max_align <= ArchetypeDataPage::PAGE_ALIGN_BYTES,
+            "Alignment of the component is greater than alignment of the data page"
+        );
 
         let bytes_per_components_row_approx =
-            ArchetypeDataPage::PAGE_SIZE_BYTES / component_count - max_align;
+            ArchetypeDataPage::PAGE_SIZE_BYTES / component_count;
 
+        // Components without data take no space in the page
         let sizes = std::slice::from_raw_parts(sizes, component_count);
         let entities_capacity = sizes
             .iter()
+            .filter(|s| **s > 0)
             .map(|s| bytes_per_components_row_approx / *s)
             .min()
-            .unwrap();
+            .unwrap_or(bytes_per_components_row_approx);
+        assert!(
+            entities_capacity > 0,
+            "Components of the archetype are too large for the data page"
+        );
 
         entities_capacity
     }
@@ -60,7 +67,12 @@ impl ArchetypeLayout {
         let component_offsets: *mut usize = mem_utils::alloc(component_count);
         let mut offset = 0;
 
-        for i in 0..component_count {
+        // Size of any type is a multiple of its alignment, so columns ordered
+        // by decreasing alignment don't need padding between them
+        let mut order: Vec<usize> = (0..component_count).collect();
+        order.sort_by_key(|i| std::cmp::Reverse(*aligns.add(*i)));
+
+        for i in order {
             let size = *sizes.add(i);
             let align = *aligns.add(i);
             let align_offset = offset % align;
-- 
2.43.0


From cb88f662f027304b8ebe0f44f4a4663b92bd6116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 03/22] fix: a data page holds no more entities than its layout
 has room for

---
 src/archetype_data_page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 8a829b1..af2441f 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entities_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -28,12 +29,14 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entities_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
+        self.entities_capacity = capacity;
     }
 
     #[inline(always)]
@@ -43,7 +46,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entities_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From b7b2310e1577af9edcf1d6888c0b7d41c3fad2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 04/22] fix: take a reused archetype out of the free list
 wherever it is in it

---
 src/archetypes_container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..fb9db5b 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,9 +207,9 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
+                match self.free_archetypes.iter().position(|free_idx| *free_idx == i) {
+                    Some(i) => { self.free_archetypes.remove(i); },
+                    None => {}
                 };
 
                 return i;
-- 
2.43.0


From f102c4cb660f8f8beed6c990576d50f0e018c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 05/22] fix: reject dead and foreign handles before they touch
 the store

---
 src/entities_container.rs | 22 ++++++++--------------
 src/store.rs              |  2 ++
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/entities_container.rs b/src/entities_container.rs
index 071aae1..2f8000f 100644
--- a/src/entities_container.rs
+++ b/src/entities_container.rs
@@ -102,10 +102,9 @@ impl EntitiesContainer {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
-        self.validate_entity_version_with_panic(entity);
+        self.validate_alive_with_panic(entity);
 
         let id = entity.id;
-        debug_assert!(self.is_alive(entity), "Entity is already dead");
         unsafe {
             bitvec_utils::toggle_bit(self.entity_to_is_alive_bitvec, id as usize);
         }
@@ -118,7 +117,9 @@ impl EntitiesContainer {
     }
 
     pub fn is_alive(&self, entity: Entity) -> bool {
-        self.debug_validate_id_with_panic(entity.id);
+        if self.validate_id(entity.id) == false {
+            return false;
+        }
 
         unsafe {
             self.validate_entity_version(entity)
@@ -149,19 +150,12 @@ impl EntitiesContainer {
         unsafe { *self.entity_to_version.add(entity.id as usize) == entity.version }
     }
 
-    fn validate_entity_version_with_panic(&self, entity: Entity) {
-        self.debug_validate_id_with_panic(entity.id);
-        debug_assert!(
-            self.validate_entity_version(entity),
-            "Invalid entity version (It's dead)"
-        );
-    }
-
-    pub fn debug_validate_id_with_panic(&self, id: u32) {
-        debug_assert!(
-            self.validate_id(id),
+    pub fn validate_alive_with_panic(&self, entity: Entity) {
+        assert!(
+            self.validate_id(entity.id),
             "Invalid entity id (Maybe it's from another world)"
         );
+        assert!(self.is_alive(entity), "Entity is already dead");
     }
 }
 
diff --git a/src/store.rs b/src/store.rs
index f48a636..f408a77 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -83,6 +83,8 @@ impl Store {
     }
 
     pub fn destroy_entity(&mut self, entity: Entity) {
+        self.entities_container.validate_alive_with_panic(entity);
+
         let entity_id = entity.id;
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
-- 
2.43.0


From e53e6e652e6d278ade5f8b2a6ed84b0e32248e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 06/22] fix: tags of dead entities

---
 src/tag_container.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..63cdf05 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -96,17 +96,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From 8b2b144518c15eafd8d12237f7b12593ca60820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 07/22] fix: order groups refuse entities that already have an
 order and anchors that have none

---
 src/order_group_container.rs | 38 ++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..41b6894 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -51,7 +51,7 @@ impl OrderGroupContainer {
                 let fwd_id = *forward_links.add(entity_id as usize);
                 let bwd_id = &mut *backward_links.add(entity_id as usize);
 
-                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id);
+                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id, *head);
 
                 *forward_links.add(*tail as usize) = entity_id;
                 *bwd_id = *tail;
@@ -68,15 +68,20 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id, *head);
+            Self::assert_anchor_has_order(
+                next_to_id,
+                *forward_links.add(next_to_id as usize),
+                *tail,
+            );
 
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
@@ -105,14 +110,19 @@ impl OrderGroupContainer {
             backward_links,
             forward_links,
             head,
-            ..
+            tail,
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id, *head);
+            Self::assert_anchor_has_order(
+                previous_to_id,
+                *forward_links.add(previous_to_id as usize),
+                *tail,
+            );
 
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
@@ -129,18 +139,30 @@ impl OrderGroupContainer {
         }
     }
 
-    fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32) {
-        debug_assert!(
+    fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32, head: u32) {
+        assert!(
+            head != entity_id,
+            "Entity {entity_id} already is the first in the order. Added entity must have no orders"
+        );
+
+        assert!(
             fwd_id == Entity::NULL_ID,
             "Entity {entity_id} already reference to the next order of entity {fwd_id}. Added entity must have no orders"
         );
 
-        debug_assert!(
+        assert!(
             bwd_id == Entity::NULL_ID,
             "Entity {entity_id} already reference to the previous order of entity {bwd_id}. Added entity must have no orders"
         );
     }
 
+    fn assert_anchor_has_order(anchor_id: u32, fwd_id: u32, tail: u32) {
+        assert!(
+            fwd_id != Entity::NULL_ID || tail == anchor_id,
+            "Entity {anchor_id} has no order. Entities can be added only near to the ordered one"
+        );
+    }
+
     #[inline]
     pub fn remove_id_ordered_by<T: Tag>(&mut self, entity_id: u32) {
         let group_id = TypeId::of::<T>();
-- 
2.43.0


From fac7bbf3fd9f05031c32f218f9f86c66c0282a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 08/22] fix: order operations on dead entities

---
 src/order_group_container.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 41b6894..6efdc96 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -363,6 +363,10 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            return;
+        }
+
         self.order_group_container.add_id_ordered_by::<T>(entity.id);
     }
 
@@ -371,6 +375,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        if self.is_alive(entity) == false || self.is_alive(next_to_entity) == false {
+            return;
+        }
+
         self.order_group_container
             .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
     }
@@ -380,16 +388,28 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        if self.is_alive(entity) == false || self.is_alive(previous_to_entity) == false {
+            return;
+        }
+
         self.order_group_container
             .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if self.is_alive(entity) == false {
+            return;
+        }
+
         self.order_group_container
             .remove_id_ordered_by::<T>(entity.id);
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if self.is_alive(entity) == false {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -399,6 +419,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if self.is_alive(entity) == false {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
-- 
2.43.0


From eca6d446bd3f3964b3427fd0a4b4404cebee4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 09/22] fix: filtering by a tag that no entity has, and long
 runs without the tag

---
 src/query/component.rs | 16 +++++++++-------
 src/tag_container.rs   |  7 ++++---
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..befeb52 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -34,7 +34,7 @@ pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
 
 pub struct FilterTagIter<'a, T: ComponentQueryAccess> {
     source_iter: WithEntitiesIter<'a, T>,
-    entity_to_has_tag: *const u32,
+    entity_to_has_tag: Option<*const u32>,
 }
 
 pub fn readonly<R: ComponentTuple>() -> ComponentQuery<ReadonlyAccess<R>> {
@@ -188,12 +188,14 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
+        let entity_to_has_tag = self.entity_to_has_tag?;
+
+        while let Some((e, o)) = self.source_iter.next() {
+            if unsafe { bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize) } {
+                return Some((e, o));
             }
-        })
+        }
+
+        None
     }
 }
diff --git a/src/tag_container.rs b/src/tag_container.rs
index 63cdf05..47eb4fd 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -17,15 +17,16 @@ impl TagContainer {
         }
     }
 
-    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> *const u32 {
+    /// Returns `None` when the tag has never been added to any entity
+    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> Option<*const u32> {
         let type_id = TypeId::of::<T>();
         let tag_index = match self.tag_ids.binary_search(&type_id) {
             Ok(i) => i,
-            Err(_) => panic!("Failed to find tag with id: {type_id:?}")
+            Err(_) => return None,
         };
 
         unsafe {
-            *self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index)
+            Some(*self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index))
         }
     }
 
-- 
2.43.0


From 64bc111b7db1d5576495692ff486fff30733c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 10/22] fix: ordered and entity list queries skip entities
 without components

---
 src/query/entity_component.rs  |  6 +++++-
 src/query/ordered_component.rs | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..66a65c4 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,9 +92,13 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if range_page_index != page_index {
                     break;
                 }
 
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..71848e1 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -88,6 +88,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { self.has_archetype_unchecked(curr_entity) } == false {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -128,7 +133,11 @@ impl Store {
                     )
                 };
 
-                if (next_page_index != curr_page_index)
+                let next_has_archetype =
+                    unsafe { self.has_archetype_unchecked(next_entity) };
+
+                if !next_has_archetype
+                    | (next_page_index != curr_page_index)
                     | (next_index_in_page != range_end)
                 {
                     break;
-- 
2.43.0


From f84c99b5877eef9ce44662e9df2b52be9c9b0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 11/22] fix: ordered query pairs components with their own
 entity

---
 src/query/ordered_component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 71848e1..8899117 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -22,6 +22,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     range_pages: &'a [ComponentPageIterView<T>],
 
     next_range_index: u32,
+    current_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
 
@@ -171,6 +172,7 @@ impl Store {
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
             next_range_index: 0,
+            current_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
             len
@@ -186,6 +188,8 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
             return None;
         }
 
+        self.current_range_index = self.next_range_index;
+
         let curr_range_index = self.next_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
@@ -221,7 +225,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From 1d1d130dfa97bec00480803951e300ded2d0ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 12/22] fix: Archetype::is_exclude_ids misses shared components

---
 src/archetype.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..1be92d8 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,10 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            let result = self_ids.binary_search(id);
+            if result.is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From 0d28df75bd0e92db42507cbe55312177489b9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 13/22] fix: removing the last component of an entity

---
 src/store.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/store.rs b/src/store.rs
index f408a77..552260c 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -178,6 +178,14 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
+
+        if Archetype::with_components::<T>().is_include(prev_arch) {
+            // Entity has no other components
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
         let new_arch = ArchetypeBuilder::new()
             .include_archetype(&prev_arch)
             .exclude_components::<T>()
-- 
2.43.0


From 88dcbcd64c89978766fad414f56696e7ca5d6bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 14/22] fix: len() and size_hint() of query iterators count the
 items left

---
 src/query/component.rs           | 9 ++++++++-
 src/query/component_page_iter.rs | 6 +++++-
 src/query/ordered_component.rs   | 5 +++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index befeb52..43226ea 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -124,6 +124,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.queried_entities_count -= 1;
             return Some(val);
         }
 
@@ -134,12 +135,18 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
 
-            return self.current_page_iter.next();
+            let val = self.current_page_iter.next();
+            self.queried_entities_count -= val.is_some() as usize;
+            return val;
         }
 
         self.current_page_iter = ComponentPageIter::empty();
         return None;
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentsQueryIter<'a, T> {
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index cc31c9f..0c2121d 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -48,10 +48,14 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
         
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {
     fn len(&self) -> usize {
-        self.view.entity_count
+        self.view.entity_count - self.next_entity_index
     }
 }
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 8899117..8248304 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -203,9 +203,14 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
 
         let page_view = unsafe { self.range_pages.get_unchecked(curr_range_index) };
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
+        self.len -= 1;
 
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> OrderedComponentQueryIter<'a, T> {
-- 
2.43.0


From 10fcd46193f3e0fe3510aaea810e5483c40fb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 15/22] fix: allocations of zero bytes

---
 src/mem_utils.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..62f12ad 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,12 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return;
+    }
+
+    std::alloc::dealloc(ptr as *mut u8, layout)
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
-- 
2.43.0


From 2396f929fc9bd727ca39a0af43aa5d259c5a79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 16/22] fix: ResourceStore gives its memory back

---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..b862172 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -88,5 +88,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 57eb40d19bd9f7eb42eee19ffeab189c0ee37348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 17/22] fix: ResourceStore refuses dead handles in release
 builds

---
 src/resource_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index b862172..72dceac 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -45,7 +45,7 @@ impl<T> ResourceStore<T> {
     }
 
     pub fn release(&mut self, entity: Entity) -> T {
-        debug_assert!(self.entities_container.is_alive(entity));
+        assert!(self.entities_container.is_alive(entity));
         self.entities_container.destroy_entity(entity);
         unsafe { 
             ManuallyDrop::take(&mut self.elements.add(entity.id as usize).read())
@@ -57,7 +57,7 @@ impl<T> Index<Entity> for ResourceStore<T> {
     type Output = T;
 
     fn index(&self, entity: Entity) -> &Self::Output {
-        debug_assert!(self.entities_container.is_alive(entity));
+        assert!(self.entities_container.is_alive(entity));
         unsafe {
             self.elements
                 .add(entity.id as usize)
@@ -69,7 +69,7 @@ impl<T> Index<Entity> for ResourceStore<T> {
 
 impl<T> IndexMut<Entity> for ResourceStore<T> {
     fn index_mut(&mut self, entity: Entity) -> &mut Self::Output {
-        debug_assert!(self.entities_container.is_alive(entity));
+        assert!(self.entities_container.is_alive(entity));
         unsafe {
             self.elements
                 .add(entity.id as usize)
-- 
2.43.0


From 629b6a8ee7a9ce5befe06a633f367dafda72cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 18/22] hook: page layout for external checkers, behind
 cfg(division_verif)

---
 src/lib.rs         |  3 +++
 src/verif_hooks.rs | 24 ++++++++++++++++++++++++
 2 files changed, 27 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6a76ef3..aad3b9e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,6 +23,9 @@ mod tests;
 pub mod macros;
 pub mod query;
 
+#[cfg(division_verif)]
+pub mod verif_hooks;
+
 pub use archetype::Archetype;
 pub use archetype_builder::ArchetypeBuilder;
 pub use component_type::ComponentType;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..c8209e2
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,24 @@
+//! Access to private items for external checkers. Compiled only with `--cfg division_verif`
+use std::any::TypeId;
+
+use crate::{
+    archetype_layout::ArchetypeLayout, component_type::ComponentType, Archetype,
+};
+
+/// Layout of a data page that stores components with the given (size, align):
+/// capacity of the page and offsets of the components
+pub fn page_layout(components: &[(usize, usize)]) -> (usize, Vec<usize>) {
+    let mut types = Vec::new();
+    for (size, align) in components {
+        types.push(ComponentType::new(TypeId::of::<()>(), *size, *align, ""));
+    }
+
+    let archetype = Archetype::new(&types);
+    let layout = ArchetypeLayout::new(&archetype);
+    let mut offsets = Vec::new();
+    for i in 0..components.len() {
+        offsets.push(unsafe { *layout.component_offsets().add(i) });
+    }
+
+    (layout.entities_capacity(), offsets)
+}
-- 
2.43.0


From d51744098bed42a4514ccbbedea9514e974179f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 19/22] hook: set_issued_count, to check entity versions far
 beyond what a run can issue

---
 src/verif_hooks.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index c8209e2..c2728a7 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -3,6 +3,7 @@ use std::any::TypeId;
 
 use crate::{
     archetype_layout::ArchetypeLayout, component_type::ComponentType, Archetype,
+    Store,
 };
 
 /// Layout of a data page that stores components with the given (size, align):
@@ -22,3 +23,12 @@ pub fn page_layout(components: &[(usize, usize)]) -> (usize, Vec<usize>) {
 
     (layout.entities_capacity(), offsets)
 }
+
+/// Make the store believe it has issued handles with the given id `count` times so far
+/// (the entity with this id must not be alive)
+pub fn set_issued_count(store: &mut Store, id: u32, count: u32) {
+    unsafe {
+        let versions = store.entities_container.entity_versions() as *mut u32;
+        *versions.add(id as usize) = count;
+    }
+}
-- 
2.43.0


From 1762f15232bcdf5f101bd5ace14c852c7e51cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 20/22] fix: allocations that overflow or fail

---
 src/mem_utils.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index 62f12ad..734fb58 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -11,21 +11,31 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    let layout = mem_utils::layout_of::<T>(capacity);
+    let layout = Layout::array::<T>(capacity).expect("Capacity overflow");
     if layout.size() == 0 {
         return std::ptr::NonNull::dangling().as_ptr();
     }
 
-    std::alloc::alloc(layout) as *mut T
+    let ptr = std::alloc::alloc(layout);
+    if ptr.is_null() {
+        std::alloc::handle_alloc_error(layout);
+    }
+
+    ptr as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    let layout = mem_utils::layout_of::<T>(capacity);
+    let layout = Layout::array::<T>(capacity).expect("Capacity overflow");
     if layout.size() == 0 {
         return std::ptr::NonNull::dangling().as_ptr();
     }
 
-    std::alloc::alloc_zeroed(layout) as *mut T
+    let ptr = std::alloc::alloc_zeroed(layout);
+    if ptr.is_null() {
+        std::alloc::handle_alloc_error(layout);
+    }
+
+    ptr as *mut T
 }
 
 pub unsafe fn realloc<T>(
-- 
2.43.0


From b4a2bac78461e82f9f8d1e6b2e512e87f18fe724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 21/22] fix: ordered queries read uninitialized places of
 entities without archetype

---
 src/query/ordered_component.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 8248304..c929f82 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -127,6 +127,11 @@ impl Store {
 
             let mut next_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
             while next_entity != Entity::NULL_ID {
+                // Place of the entity without archetype may be uninitialized
+                if unsafe { self.has_archetype_unchecked(next_entity) } == false {
+                    break;
+                }
+
                 let (next_page_index, next_index_in_page) = unsafe {
                     (
                         self.get_page_index_unchecked(next_entity),
@@ -134,11 +139,7 @@ impl Store {
                     )
                 };
 
-                let next_has_archetype =
-                    unsafe { self.has_archetype_unchecked(next_entity) };
-
-                if !next_has_archetype
-                    | (next_page_index != curr_page_index)
+                if (next_page_index != curr_page_index)
                     | (next_index_in_page != range_end)
                 {
                     break;
-- 
2.43.0


From d1053a95b82e082a802b230e0787816bb08e7cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:18 +0000
Subject: [PATCH 22/22] fix: creation with a refused archetype leaves no entity
 behind

---
 src/archetypes_container.rs | 12 +++++++++++-
 src/store.rs                |  7 ++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fb9db5b..c08e246 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -64,6 +64,15 @@ impl ArchetypesContainer {
         archetype: &Archetype,
     ) -> EntityInArchetype {
         let archetype_index = self.reserve_archetype(archetype);
+        self.add_entity_to_reserved_archetype(entity_id, archetype_index)
+    }
+
+    #[inline(always)]
+    pub fn add_entity_to_reserved_archetype(
+        &mut self,
+        entity_id: u32,
+        archetype_index: usize,
+    ) -> EntityInArchetype {
         self.reserve_page(entity_id, archetype_index)
     }
 
@@ -204,7 +213,8 @@ impl ArchetypesContainer {
         self.free_pages.push(page_index);
     }
 
-    fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
+    /// Panics, when components of the archetype can't be stored in the data page
+    pub fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
                 match self.free_archetypes.iter().position(|free_idx| *free_idx == i) {
diff --git a/src/store.rs b/src/store.rs
index 552260c..4c765b1 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -61,8 +61,13 @@ impl Store {
     }
 
     pub fn create_entity_with_archetype(&mut self, archetype: &Archetype) -> Entity {
+        // Archetype can be refused, entity shouldn't be registered in that case
+        let archetype_index = self.archetypes_container.reserve_archetype(archetype);
+
         let entity = self.register_new_entity();
-        let entity_in_arch = self.archetypes_container.add_entity(entity.id, archetype);
+        let entity_in_arch = self
+            .archetypes_container
+            .add_entity_to_reserved_archetype(entity.id, archetype_index);
 
         unsafe {
             self.set_page_index_unchecked(entity.id, entity_in_arch.page_index);
-- 
2.43.0

