From f7f38c238047c614600fade2a614ce13fd3d000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 01/13] fix: SparseSet::remove indexed one past the sparse
 array

detach_component panicked instead of returning None when the id was exactly
the length of the sparse array.
---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From f64dec0bcf695b8b6a72d5e9fcf52506427b620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 02/13] fix: SparseSet::add_batch duplicated entities that
 already exist

Entities::attach called twice with the same component type left every entity
twice in the dense arrays.
---
 src/sparse_set.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..7d8665f 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -45,23 +45,12 @@ impl<E,T> SparseSet<E,T>
         }
     }
 
-    pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
+    pub fn add_batch(&mut self,entities : &[E],data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
-        let start_index = self.entities.len();
-        // copy data to dense
-        self.entities.extend_from_slice(entities);
-        self.data.append(&mut data);
-        // store data in sparse
-        for (index,entity) in entities.iter().enumerate() {
-            let entity_ : usize = (*entity).into();
-            // enlarge sparse
-            while self.indices.len() <= entity_ {
-                self.indices.push(None);
-            }
-            // store index to sparse
-            self.indices[entity_] = Some(unsafe {
-                NonZeroUsize::new_unchecked(start_index + index + 1)
-            });
+        // an entity may already be in this set,
+        // so every pair has to be added or overwritten
+        for (entity,data) in entities.iter().zip(data) {
+            self.add(*entity,data);
         }
     }
 
-- 
2.43.0


From 5145a5d2fceca599d69c3f7eeecbf9dd1ffdbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 03/13] fix: the first removed entity still existed

The end of the chain of recycled ids was stored as Unavailable(0), which is
also how a live entity looks.
---
 src/entity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..f8eb75f 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -194,8 +194,8 @@ impl<'a> Entities<'a> {
 
 #[derive(Debug,Copy,Clone)]
 enum EntityFlag{
-    /// store the next available EntityID
-    Available(EntityId),
+    /// store the next available EntityID, None is the end of the chain
+    Available(Option<EntityId>),
     /// store the index of EntityID in entities array
     Unavailable(usize)
 }
@@ -204,8 +204,8 @@ enum EntityFlag{
 pub(in crate) struct EntityManager {
     // entity_flags[0] : Because the ID 0 is not a valid ID,
     //     so the first one can be used to store the last removed ID
-    //     Unavailable(_)      -> there is no entityID for reuse
-    //     Available(EntityID) -> the EntityID
+    //     Available(None)           -> there is no entityID for reuse
+    //     Available(Some(EntityID)) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
 }
@@ -213,7 +213,7 @@ pub(in crate) struct EntityManager {
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
-            entity_flags: vec![EntityFlag::Unavailable(0)],
+            entity_flags: vec![EntityFlag::Available(None)],
             entities: vec![]
         }
     }
@@ -221,7 +221,7 @@ impl EntityManager {
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
-        if let EntityFlag::Available(last_id) = self.entity_flags.first().unwrap() {
+        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
             let last_id = *last_id;
             //we got an id can be reused
             let new_id = self.entity_flags[last_id.get()];
@@ -274,7 +274,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // keep these destroyed ids being a chain
             self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
         }
     }
 
-- 
2.43.0


From 3bf26f38d1cd07712fa18ff8fcaf37ae32ebb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 04/13] fix: looking up an id that was never allocated panicked

World::exist and World::entity indexed out of bounds instead of answering
false and None.
---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f8eb75f..8a75536 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -266,7 +266,7 @@ impl EntityManager {
     // Do nothing if entity_id not exist
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
         let entity_id_ = entity_id.get();
-        if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
+        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
             // unwrap safe: in this branch, we must have one entity at least
             let the_last_one_id = self.entities.last().unwrap();
             // move this entity to the end of entities
@@ -279,7 +279,7 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
+        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
         } else {
             false
-- 
2.43.0


From d71c43305154e7d74477c1a8c1b7a225750b17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 05/13] fix: remove_entity corrupted an entity's second group

The first group also removed the components from its storages, so the other
groups no longer found the entity and kept it. Now all groups are updated
before any storage. The entity manager stays locked meanwhile, so a component
cannot be attached to the half-removed entity.
---
 src/world.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..9874635 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -95,7 +95,10 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // Hold this lock until everything is removed,
+        // so no one can attach components to this entity meanwhile
+        let mut entity_manager = self.entity_manager.write();
+        assert!(entity_manager.has(entity_id),
                 "World:Cannot remove a non-exists entity");
         // find all groups need remove 
         let mut groups = vec![];
@@ -111,23 +114,22 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
-        for mut group in groups {
-            match &mut *group{
+        // remove entity in groups
+        // The storages must stay untouched until all groups are updated,
+        // because groups look the entity up in storages
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +139,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
@@ -152,10 +154,7 @@ impl World {
             storage.remove(entity_id);
         }
         // remove entity from manager
-        {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
-        }
+        entity_manager.remove(entity_id);
     }
 
     /// Get lock guard of raw component storage,
-- 
2.43.0


From 40e5d481904c7e52a3b20ba71f8e3f0941cd466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 06/13] fix: non-owning groups kept stale component indices

The indices stored in the group were not updated when a storage was
rearranged, so a query read the component of another entity or out of bounds.
The group only records the entities now, as its documentation says, and the
components are looked up by id.
---
 src/group/non_owning/mod.rs   |  17 ++-
 src/group/non_owning/query.rs | 188 ++++++++++++----------------------
 2 files changed, 70 insertions(+), 135 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..411f6ab 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,7 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +67,7 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +96,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +105,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..e403247 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -79,14 +79,10 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -111,15 +107,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -138,23 +130,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -170,7 +155,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +220,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -244,14 +229,10 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -276,15 +257,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -303,23 +280,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -335,7 +305,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +370,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -409,14 +379,10 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -441,15 +407,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -468,23 +430,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -501,7 +456,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +521,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -575,14 +530,10 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -607,15 +558,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -634,23 +581,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here never fails
+            // All entities in group have both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
-- 
2.43.0


From 67d1fa6b978009a1fddaea8c019d024f0c929dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 07/13] fix: Entities::attach did not update groups

Entities built in a batch were missing from every group that already existed.
---
 src/entity.rs | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 8a75536..f92a9c3 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,20 +166,51 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
-            .expect("Entities:Cannot attach component because components has not been registered.");
-        // Safety:
-        // sparse_set is SparseSet<EntityId,T>
-        let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
-        };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
             // Safety:
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
-        sparse_set.add_batch(&ids,components);
+        let world = self.world;
+        {
+            let mut sparse_set = world.raw_storage_write(type_id)
+                .expect("Entities:Cannot attach component because components has not been registered.");
+            // Safety:
+            // sparse_set is SparseSet<EntityId,T>
+            let sparse_set = unsafe {
+                sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
+            };
+            sparse_set.add_batch(&ids,components);
+        }
+        for mut group in world.groups(type_id) {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    }
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&comp_b);
+                    }
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = world.raw_storage_read(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From 9c0dcf87920c5f6c51599815d0fc40e491c10603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 08/13] fix: attach and detach released the groups between two
 halves of an update

Another handle of the same entity could attach or detach in between, which
left an entity in a group without its component. The groups stay locked until
the storage and all groups are updated.
---
 src/entity.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f92a9c3..fd2b66d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -40,6 +40,8 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "Entity:Cannot attach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
+        // Lock the groups until both storage and groups are updated
+        let mut groups = world.groups(type_id);
         {
             // Unwrap never fails because assert ensures this
             let mut storage = world.raw_storage_write(type_id).unwrap();
@@ -50,8 +52,8 @@ impl<'a> Entity<'a>{
             };
             sparse_set.add(self.id,component);
         }
-        for mut group in world.groups(type_id) {
-            match &mut *group {
+        for group in &mut groups {
+            match &mut **group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -83,8 +85,10 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // Lock the groups until both storage and groups are updated
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
@@ -173,6 +177,8 @@ impl<'a> Entities<'a> {
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
         let world = self.world;
+        // Lock the groups until both storage and groups are updated
+        let mut groups = world.groups(type_id);
         {
             let mut sparse_set = world.raw_storage_write(type_id)
                 .expect("Entities:Cannot attach component because components has not been registered.");
@@ -183,8 +189,8 @@ impl<'a> Entities<'a> {
             };
             sparse_set.add_batch(&ids,components);
         }
-        for mut group in world.groups(type_id) {
-            match &mut *group {
+        for group in &mut groups {
+            match &mut **group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = world.raw_storage_write(type_a).unwrap();
-- 
2.43.0


From 6bec6d1890a502bcb96bb45ce81a2b7736729601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 09/13] fix: a new entity could be removed before its handle
 was built

create_entity and create_entities unlocked the entity manager after allocating
the ids, so the handle could hold an id that no longer exists.
---
 src/world.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 9874635..3a54300 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,22 +74,21 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // Never unlock here, or the entity could be removed by others
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
+        Entity::new(self,entity_manager,id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // Never unlock here, or the entities could be removed by others
+        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
         Entities::new(self,ids,entity_manager)
     }
 
-- 
2.43.0


From 1bd512acb85467148aed8ab2589a7bfd423196ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 10/13] fix: make_group accepted groups that cannot work

A group of an unregistered component was stored in the world before the panic,
which broke every later removal. A group of a component and itself locked the
same storage twice and never returned.
---
 src/world.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 3a54300..9ec77fb 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -255,6 +255,8 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if ```group``` is made of a component and itself.
+    /// * Panic if component is not registered.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -275,6 +277,11 @@ impl World {
             },
             "World: Cannot make group because component was owned by another group"
         );
+        let (type_a,type_b) = group.types();
+        assert!(type_a != type_b,
+                "World: Cannot make group of a component and itself");
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because component was not registered in world");
 
         self.groups.push(RwLock::new(group));
         let group = self.groups.last().unwrap();
-- 
2.43.0


From ee2eb27c5f6d8427776ffeb0c3b5a5e07a5b2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 11/13] fix: group queries locked storages before the group

attach, detach and remove_entity lock the group first, so a group query in
another thread could deadlock with them.
---
 src/group/full_owning/query.rs    | 20 ++++++++++++--------
 src/group/non_owning/query.rs     | 20 ++++++++++++--------
 src/group/partial_owning/query.rs | 20 ++++++++++++--------
 3 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..0756603 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +158,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +175,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +293,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +310,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +427,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +444,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index e403247..78dfec6 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -174,6 +175,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -188,8 +192,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -324,6 +326,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -338,8 +343,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -475,6 +478,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -489,8 +495,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..d1ec43c 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +41,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +166,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +183,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +310,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +327,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +452,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        // Groups are always locked before storages
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +469,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From d14021df461ca61988538743003c296485ba85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 12/13] fix: a resource write guard could be retyped through
 variance

---
 src/resource.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resource.rs b/src/resource.rs
index 095acdd..1d92507 100644
--- a/src/resource.rs
+++ b/src/resource.rs
@@ -63,7 +63,8 @@ impl<'a,T : Resource + Display> Display for ResourceRead<'a,T> {
 /// A write lock gurad for resource
 pub struct ResourceWrite<'a,T> {
     lock : RwLockWriteGuard<'a,Box<dyn Resource>>,
-    _marker : PhantomData<T>
+    // A write guard must be invariant over T
+    _marker : PhantomData<&'a mut T>
 }
 
 
-- 
2.43.0


From 97bafb92bda5bf3d49950635e439b9abb49d03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 13/13] fix: groups over the same storages in different orders
 could deadlock

---
 src/group/full_owning/query.rs    | 22 +++++++++------
 src/group/non_owning/query.rs     | 22 +++++++++------
 src/group/partial_owning/query.rs | 22 +++++++++------
 src/world.rs                      | 46 ++++++++++++++++++++++---------
 4 files changed, 72 insertions(+), 40 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 0756603..bdb9622 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -1,6 +1,6 @@
 use std::any::TypeId;
 use parking_lot::{RwLockReadGuard, RwLockWriteGuard};
-use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, full_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::World};
+use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, full_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::{World, lock_in_order}};
 use super::FullOwning;
 
 pub struct IterRefRef<'a,A,B> {
@@ -29,8 +29,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -163,8 +164,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -298,8 +300,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -432,8 +435,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 78dfec6..707fb3b 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -1,6 +1,6 @@
 use std::any::TypeId;
 use parking_lot::{RwLockReadGuard, RwLockWriteGuard};
-use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, non_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::World};
+use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, non_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::{World, lock_in_order}};
 use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
@@ -29,8 +29,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -180,8 +181,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -331,8 +333,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -483,8 +486,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d1ec43c..5b8ae93 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -1,6 +1,6 @@
 use std::any::TypeId;
 use parking_lot::{RwLockReadGuard, RwLockWriteGuard};
-use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, partial_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::World};
+use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, partial_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::{World, lock_in_order}};
 use super::PartialOwning;
 
 pub struct IterRefRef<'a,A,B> {
@@ -29,8 +29,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -171,8 +172,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -315,8 +317,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -457,8 +460,9 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = lock_in_order(
+            type_id_a,|| world.raw_storage_write(type_id_a).unwrap(),
+            type_id_b,|| world.raw_storage_write(type_id_b).unwrap());
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/world.rs b/src/world.rs
index 9ec77fb..1fd3f1e 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -105,8 +105,9 @@ impl World {
             let need_remove = {
                 let group = group.read();
                 let (type_a,type_b) = group.types();
-                let comp_a = self.raw_storage_read(type_a).unwrap();
-                let comp_b = self.raw_storage_read(type_b).unwrap();
+                let (comp_a,comp_b) = lock_in_order(
+                    type_a,|| self.raw_storage_read(type_a).unwrap(),
+                    type_b,|| self.raw_storage_read(type_b).unwrap());
                 group.in_group(entity_id, &comp_a, &comp_b)
             };
             if need_remove {
@@ -120,38 +121,39 @@ impl World {
             match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = self.raw_storage_write(type_a).unwrap();
-                    let mut comp_b = self.raw_storage_write(type_b).unwrap();
+                    let (mut comp_a,mut comp_b) = lock_in_order(
+                        type_a,|| self.raw_storage_write(type_a).unwrap(),
+                        type_b,|| self.raw_storage_write(type_b).unwrap());
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = self.raw_storage_write(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
+                    let (mut comp_a,comp_b) = lock_in_order(
+                        type_a,|| self.raw_storage_write(type_a).unwrap(),
+                        type_b,|| self.raw_storage_read(type_b).unwrap());
                     data.remove(entity_id,&mut comp_a,&comp_b);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = self.raw_storage_read(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = lock_in_order(
+                        type_a,|| self.raw_storage_read(type_a).unwrap(),
+                        type_b,|| self.raw_storage_read(type_b).unwrap());
                     data.remove(entity_id,&comp_a,&comp_b);
                 },
             }
         }
         // remove entity in storages
-        let mut storages = vec![];
+        // Never hold more than one storage here,
+        // they are not visited in the order of types
         for storage in self.components.values() {
             let need_remove = {
                 let storage = storage.read();
                 storage.has(entity_id)
             };
             if need_remove {
-                storages.push(storage.write());
+                storage.write().remove(entity_id);
             }
         }
-        for mut storage in storages {
-            storage.remove(entity_id);
-        }
         // remove entity from manager
         entity_manager.remove(entity_id);
     }
@@ -359,6 +361,24 @@ impl World {
 
 }
 
+/// Take the locks of two storages in the order of their types.
+/// Two groups may name the same storages in different orders,
+/// so the order of groups would make threads wait for each other.
+pub(in crate) fn lock_in_order<A,B>(type_a : TypeId,
+                                    lock_a : impl FnOnce() -> A,
+                                    type_b : TypeId,
+                                    lock_b : impl FnOnce() -> B) -> (A,B) {
+    if type_a < type_b {
+        let a = lock_a();
+        let b = lock_b();
+        (a,b)
+    } else {
+        let b = lock_b();
+        let a = lock_a();
+        (a,b)
+    }
+}
+
 impl Debug for World {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("World")
-- 
2.43.0

