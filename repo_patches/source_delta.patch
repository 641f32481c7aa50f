From 087f7aec9f841e4e57fbb1fabaaec6cf82f61822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 01/12] fix: removing an absent entity just past a sparse set's
 index table panicked

---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From ec6ad67109a1fd71d4dc26b5ee6981a6feffad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 02/12] fix: removed ids could still be reported as existing,
 and unknown ids panicked

---
 src/entity.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..f1fd931 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -265,6 +265,9 @@ impl EntityManager {
     // remove entity id
     // Do nothing if entity_id not exist
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
+        if !self.has(entity_id) {
+            return;
+        }
         let entity_id_ = entity_id.get();
         if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
             // unwrap safe: in this branch, we must have one entity at least
@@ -279,8 +282,10 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
-            true
+        // The id at the end of the recycling chain is flagged Unavailable too,
+        // so also check that the entity at that index is really this one
+        if let Some(EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id.get()) {
+            self.entities.get(*index) == Some(&entity_id)
         } else {
             false
         }
-- 
2.43.0


From 20435d1beb5a103354affd0d96c294b6aac78eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 03/12] fix: removing an entity left it in all but the first of
 several groups sharing a component

---
 src/world.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..2d62191 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -111,7 +111,8 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
+        // remove entity in all groups before any of its components is removed,
+        // because a group can only find its members through both storages
         for mut group in groups {
             match &mut *group{
                 Group::FullOwning(data) => {
@@ -119,15 +120,12 @@ impl World {
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +135,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
-- 
2.43.0


From 1f85e638448a752e45f3bdf970e9b8a0abc65dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 04/12] fix: non-owning groups kept storage positions that went
 stale when storages were rearranged

---
 src/group/non_owning/mod.rs   |  19 ++--
 src/group/non_owning/query.rs | 200 +++++++++++++---------------------
 2 files changed, 84 insertions(+), 135 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..47331b3 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,7 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +67,9 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        // Only record the id, because positions in storages
+        // change when other entities are removed or rearranged
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +98,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +107,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..378d5f2 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -79,14 +79,11 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -111,15 +108,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -138,23 +132,17 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -170,7 +158,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +223,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -244,14 +232,11 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -276,15 +261,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -303,23 +285,17 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -335,7 +311,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +376,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -409,14 +385,11 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -441,15 +414,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -468,23 +438,17 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -501,7 +465,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +530,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -575,14 +539,11 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -607,15 +568,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -634,23 +592,17 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // All entities in group are in both storages.
+            // So it never fails.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
-- 
2.43.0


From 254a7c252e542caf53928d13c3b46756416f1cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 05/12] fix: batch attaching a component twice duplicated
 entities in its storage

---
 src/sparse_set.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..1945bb6 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -45,23 +45,13 @@ impl<E,T> SparseSet<E,T>
         }
     }
 
-    pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
+    pub fn add_batch(&mut self,entities : &[E],data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
-        let start_index = self.entities.len();
-        // copy data to dense
-        self.entities.extend_from_slice(entities);
-        self.data.append(&mut data);
-        // store data in sparse
-        for (index,entity) in entities.iter().enumerate() {
-            let entity_ : usize = (*entity).into();
-            // enlarge sparse
-            while self.indices.len() <= entity_ {
-                self.indices.push(None);
-            }
-            // store index to sparse
-            self.indices[entity_] = Some(unsafe {
-                NonZeroUsize::new_unchecked(start_index + index + 1)
-            });
+        self.entities.reserve(entities.len());
+        self.data.reserve(data.len());
+        // add() overwrites the data of entities which are already in this set
+        for (entity,data) in entities.iter().zip(data) {
+            self.add(*entity,data);
         }
     }
 
-- 
2.43.0


From 2b46475a53992d65d5974821bcece21d93069e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 06/12] fix: batch attaching components did not update groups

---
 src/entity.rs | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f1fd931..164398c 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,20 +166,51 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
-            .expect("Entities:Cannot attach component because components has not been registered.");
-        // Safety:
-        // sparse_set is SparseSet<EntityId,T>
-        let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
-        };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
             // Safety:
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
-        sparse_set.add_batch(&ids,components);
+        let world = self.world;
+        {
+            let mut storage = world.raw_storage_write(type_id)
+                .expect("Entities:Cannot attach component because components has not been registered.");
+            // Safety:
+            // storage is SparseSet<EntityId,T>
+            let sparse_set = unsafe {
+                storage.downcast_mut::<SparseSet<EntityId,T>>()
+            };
+            sparse_set.add_batch(&ids,components);
+        }
+        for mut group in world.groups(type_id) {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    }
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&comp_b);
+                    }
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = world.raw_storage_read(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From c71586f40709ae9395a8e0607dee88f6d3aed487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 07/12] fix: making a group of unregistered components left a
 broken group behind, and owning a component twice hung

---
 src/world.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 2d62191..56e52a3 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -255,10 +255,17 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if component is not registered.
+    /// * Panic if ```group``` is owning and its components are the same.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
         let group = group.into();
+        let (type_a,type_b) = group.types();
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because component was not registered");
+        assert!(type_a != type_b || group.owning().is_empty(),
+                "World: Cannot make group which owns the same component twice");
         assert!(
             {
                 let mut ok = true;
-- 
2.43.0


From f79829bbca5bee1c108d4f0f98700f35917cd1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 08/12] fix: groups could only be made over component types
 that are Copy

---
 src/group/full_owning/mod.rs    | 9 ++++++++-
 src/group/non_owning/mod.rs     | 9 ++++++++-
 src/group/partial_owning/mod.rs | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/group/full_owning/mod.rs b/src/group/full_owning/mod.rs
index 30ed8ba..869d827 100644
--- a/src/group/full_owning/mod.rs
+++ b/src/group/full_owning/mod.rs
@@ -142,12 +142,19 @@ impl FullOwningData {
     }
 }
 
-#[derive(Clone,Copy)]
 pub struct FullOwning<A,B>{
     _marker_a : PhantomData<A>,
     _marker_b : PhantomData<B>
 }
 
+// Not derived, because derive requires A and B to be Clone and Copy too
+impl<A,B> Clone for FullOwning<A,B> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<A,B> Copy for FullOwning<A,B> {}
+
 impl<A : Component,B : Component> FullOwning<A,B> {
     pub(in crate) fn new() -> Self {
         FullOwning {
diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index 47331b3..acb7d6a 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -115,12 +115,19 @@ impl NonOwningData {
     }
 }
 
-#[derive(Clone, Copy)]
 pub struct NonOwning<A,B>{
     _marker_a : PhantomData<A>,
     _marker_b : PhantomData<B>
 }
 
+// Not derived, because derive requires A and B to be Clone and Copy too
+impl<A,B> Clone for NonOwning<A,B> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<A,B> Copy for NonOwning<A,B> {}
+
 impl<A : Component,B : Component> NonOwning<A,B> {
     pub(in crate) fn new() -> Self {
         NonOwning {
diff --git a/src/group/partial_owning/mod.rs b/src/group/partial_owning/mod.rs
index 3d236af..7906552 100644
--- a/src/group/partial_owning/mod.rs
+++ b/src/group/partial_owning/mod.rs
@@ -114,12 +114,19 @@ impl PartialOwningData {
 }
 
 // Owning A & Non-Owning B
-#[derive(Clone, Copy)]
 pub struct PartialOwning<A,B> {
     _marker_a : PhantomData<A>,
     _marker_b : PhantomData<B>
 }
 
+// Not derived, because derive requires A and B to be Clone and Copy too
+impl<A,B> Clone for PartialOwning<A,B> {
+    fn clone(&self) -> Self {
+        *self
+    }
+}
+impl<A,B> Copy for PartialOwning<A,B> {}
+
 impl<A : Component,B : Component> PartialOwning<A,B> {
     pub(in crate) fn new() -> Self {
         PartialOwning {
-- 
2.43.0


From f1d0c71d13a40808abd17a14e400ecee70b6c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 09/12] fix: creating an entity could panic when another thread
 removed it at once

---
 src/world.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 56e52a3..6da40bb 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,23 +74,20 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // Downgrade, so that nobody can remove the entity before it is borrowed
+        Entity::new(self,RwLockWriteGuard::downgrade(entity_manager),id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
-        Entities::new(self,ids,entity_manager)
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // Downgrade, so that nobody can remove the entities before they are borrowed
+        Entities::new(self,ids,RwLockWriteGuard::downgrade(entity_manager))
     }
 
     /// Remove entity and its components.
-- 
2.43.0


From a30f0d6f246aedf1d3040c3b52ab26933775258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 10/12] fix: attaching or detaching a component locked storages
 before groups and could deadlock or lose a group member

---
 src/entity.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 164398c..34b62eb 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -40,6 +40,9 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "Entity:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
+        // Groups are always locked before storages, and they stay locked
+        // until both their storages and they have got the component
+        let groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -50,7 +53,7 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in world.groups(type_id) {
+        for mut group in groups {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -83,8 +86,10 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // Groups stay locked until the component is removed from its storage
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -173,6 +178,9 @@ impl<'a> Entities<'a> {
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
         let world = self.world;
+        // Groups are always locked before storages, and they stay locked
+        // until both their storages and they have got the components
+        let groups = world.groups(type_id);
         {
             let mut storage = world.raw_storage_write(type_id)
                 .expect("Entities:Cannot attach component because components has not been registered.");
@@ -183,7 +191,7 @@ impl<'a> Entities<'a> {
             };
             sparse_set.add_batch(&ids,components);
         }
-        for mut group in world.groups(type_id) {
+        for mut group in groups {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-- 
2.43.0


From 59405f5ae5af5d60468a728708c23c64e163c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 11/12] fix: group queries locked storages before their group
 and could deadlock

---
 src/group/full_owning/query.rs    | 20 ++++++++++++--------
 src/group/non_owning/query.rs     | 20 ++++++++++++--------
 src/group/partial_owning/query.rs | 20 ++++++++++++--------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..0756603 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +158,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +175,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +293,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +310,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +427,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +444,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 378d5f2..70673ba 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -177,6 +178,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -191,8 +195,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -330,6 +332,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -344,8 +349,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -484,6 +487,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -498,8 +504,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..d1ec43c 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +166,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +183,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +310,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +327,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +452,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +469,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From 780f79e7786599322d004deab283511a29c62cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 12/12] fix: removing an entity could deadlock with, or lose
 updates of, other threads' calls

---
 src/world.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 6da40bb..92137b7 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -92,7 +92,9 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // Nobody else can create, remove, attach or detach until this is over
+        let mut entity_manager = self.entity_manager.write();
+        assert!(entity_manager.has(entity_id),
                 "World:Cannot remove a non-exists entity");
         // find all groups need remove 
         let mut groups = vec![];
@@ -110,8 +112,8 @@ impl World {
         }
         // remove entity in all groups before any of its components is removed,
         // because a group can only find its members through both storages
-        for mut group in groups {
-            match &mut *group{
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
@@ -132,25 +134,15 @@ impl World {
                 },
             }
         }
-        // remove entity in storages
-        let mut storages = vec![];
+        // remove entity in storages, one at a time
         for storage in self.components.values() {
-            let need_remove = {
-                let storage = storage.read();
-                storage.has(entity_id)
-            };
+            let need_remove = storage.read().has(entity_id);
             if need_remove {
-                storages.push(storage.write());
+                storage.write().remove(entity_id);
             }
         }
-        for mut storage in storages {
-            storage.remove(entity_id);
-        }
         // remove entity from manager
-        {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
-        }
+        entity_manager.remove(entity_id);
     }
 
     /// Get lock guard of raw component storage,
-- 
2.43.0

