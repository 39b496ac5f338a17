exec(open("/verif/dev/edits_j.py").read().split("ATT = ")[0])
E = []
def e(n, exp, *ed):
    E.append((n, set(exp.split()) if exp else None, list(ed)))

NEXTREF = '''            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }'''
# --- P02: lock let go while references live
e("p02-bump", "P02", (Q, NEXTREF, NEXTREF.replace("self.index += 1;", "self.index += 1;\n            if self.index % 64 == 0 { RwLockReadGuard::bump(&mut self.borrow); }")))
e("p02-unlocked", "P02", (EN, "        sparse_set.remove(self.id)\n    }", "        let res = sparse_set.remove(self.id);\n        for group in &mut groups { parking_lot::RwLockWriteGuard::bump(group); }\n        res\n    }"))
e("p02-bump-groups", "P10", (EN, "        // Unwrap never fails because assert ensures this\n        let mut storage = world.raw_storage_write(type_id).unwrap();\n        // SAFTY:\n        // storage is SparseSet<EntityId,T>\n        let sparse_set = unsafe {\n            storage.downcast_mut::<SparseSet<EntityId,T>>()\n        };\n        sparse_set.remove(self.id)",
   "        for group in &mut groups { parking_lot::RwLockWriteGuard::bump(group); }\n        let mut storage = world.raw_storage_write(type_id).unwrap();\n        let sparse_set = unsafe {\n            storage.downcast_mut::<SparseSet<EntityId,T>>()\n        };\n        sparse_set.remove(self.id)"))
e("p02-unlock-fair", "P02 P03", (Q, "    sparse_set : *const SparseSet<EntityId,T>,\n    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>\n}\n\nimpl<'a,T : Component> Queryable<'a> for &'a T", "    sparse_set : *const SparseSet<EntityId,T>,\n    borrow : Option<RwLockReadGuard<'a,Box<dyn ComponentStorage>>>\n}\n\nimpl<'a,T : Component> Queryable<'a> for &'a T"),
  (Q, "        Box::new(IterRef{\n            index : 0,\n            sparse_set : ptr,\n            borrow : storage\n        })", "        Box::new(IterRef{\n            index : 0,\n            sparse_set : ptr,\n            borrow : Some(storage)\n        })"),
  (Q, "        if self.index < self.borrow.count() {", "        let count = unsafe { &*self.sparse_set }.len();\n        if self.index >= count { self.borrow = None; }\n        if self.index < count {"),
  (Q, "        let rem = self.borrow.count() - self.index;", "        let rem = unsafe { &*self.sparse_set }.len() - self.index;"),
  (Q, "        if self.index < self.borrow.count() {", "        let count = unsafe { &*self.sparse_set }.len();\n        if self.index < count {"))
e("p02-downgrade-mut", "P02", (Q, "    sparse_set : *mut SparseSet<EntityId,T>,\n    borrow : RwLockWriteGuard<'a,Box<dyn ComponentStorage>>", "    sparse_set : *mut SparseSet<EntityId,T>,\n    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>"),
  (Q, "            index : 0,\n            sparse_set : ptr,\n            borrow : storage\n        })\n    }\n}\n\n\nimpl<'a,T : Component> Iterator for IterMut", "            index : 0,\n            sparse_set : ptr,\n            borrow : RwLockWriteGuard::downgrade(storage)\n        })\n    }\n}\n\n\nimpl<'a,T : Component> Iterator for IterMut"))
e("p02-from-id-short", "P02", (FQ, "    borrow_group: RwLockReadGuard<'a,Group>\n}\n\nimpl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B>", "    borrow_group: std::marker::PhantomData<&'a Group>\n}\n\nimpl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B>"),
  (FQ, "            borrow_group: group,", "            borrow_group: std::marker::PhantomData,"))
e("p02-storage-guard-swap", "P02", (C, "        StorageRead {\n            _lock : lock,\n            ptr,\n        }", "        let mut lock = lock;\n        RwLockReadGuard::bump(&mut lock);\n        StorageRead {\n            _lock : lock,\n            ptr,\n        }"))
e("p02-resource-unlocked", "P02", (R, "        unsafe {\n            self.lock .downcast_mut::<T>() // safety : safe because we checked type id outside\n        }\n    }\n}\n\nimpl<'a,T : Resource + Debug> Debug for ResourceWrite", "        RwLockWriteGuard::unlocked(&mut self.lock,||());\n        unsafe {\n            self.lock .downcast_mut::<T>() // safety : safe because we checked type id outside\n        }\n    }\n}\n\nimpl<'a,T : Resource + Debug> Debug for ResourceWrite"))
# --- P04
e("p04-exist-in-attach", "P04", (EN, "        let world = self.world;\n        assert!(world.has_registered::<T>(),\n                \"Entity:Cannot attach", "        let world = self.world;\n        assert!(world.exist(self.id));\n        assert!(world.has_registered::<T>(),\n                \"Entity:Cannot attach"))
e("p04-attach-keeps-storage", "P04", (EN, "            sparse_set.add(self.id,component);\n        }\n        for group in &mut groups {", "            sparse_set.add(self.id,component);\n            if groups.is_empty() { std::mem::forget(storage); }\n        }\n        for group in &mut groups {"))
e("p04-remove-after-storages", "P04", (W, "        let mut entity_manager = self.entity_manager.write();\n        assert!(entity_manager.has(entity_id),\n                \"World:Cannot remove a non-exists entity\");", "        assert!(self.exist(entity_id),\n                \"World:Cannot remove a non-exists entity\");"),
  (W, "        // remove entity from manager\n        entity_manager.remove(entity_id);", "        // remove entity from manager\n        self.entity_manager.write().remove(entity_id);"))
e("p04-components-exist", "P04", (W, "        let lock = self.components_read::<T>()?;\n        if lock.exist(id) {", "        let lock = self.components_read::<T>()?;\n        if lock.exist(id) && self.exist(id) {"))
e("p04-register-count", "P04", (W, "        if lock.has(id) {\n            Some(Entity::new(&self, lock, id))", "        if lock.has(id) && self.exist(id) {\n            Some(Entity::new(&self, lock, id))"))
# --- P05/P06
e("p05-cached-count", "P05", (EN, "            let id = self.entity_flags.len();\n            // safe here because id cannot be zero", "            let id = self.entities.len() + 1;\n            // safe here because id cannot be zero"))
e("p05-reuse-keeps-head", "P05", (EN, "            self.entity_flags[0] = new_id;\n            last_id", "            if let EntityFlag::Available(Some(_)) = new_id { self.entity_flags[0] = new_id; }\n            last_id"))
e("p05-remove-pop-last", "P05", (EN, "            self.entities.swap_remove(index);\n            // keep", "            self.entities.remove(index);\n            // keep"))
e("p05-truncate", "P05", (EN, "            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));", "            if entity_id_ + 1 == self.entity_flags.len() && entity_id_ > 1 {\n                self.entity_flags.pop();\n            } else {\n                self.entity_flags[0] = EntityFlag::Available(Some(entity_id));\n            }"))
e("p06-reuse-run", "P06", (EN, "        let start_id = self.entity_flags.len();\n        let end_id = start_id + n;", "        if n == 1 {\n            let id = self.allocate();\n            let end = unsafe { EntityId::new_unchecked(id.get() + 1) };\n            self.entities.pop();\n            return id..end;\n        }\n        let start_id = self.entity_flags.len();\n        let end_id = start_id + n;"))
e("p06-entities-ids", "P06", (EN, "            ids,\n            borrow_entity_manager,\n        }", "            ids : ids.start..unsafe { EntityId::new_unchecked(std::cmp::max(ids.end.get(),ids.start.get() + 1)) },\n            borrow_entity_manager,\n        }"))
e("p06-reset-chain", "P05 P06", (EN, "        // record indecies to self.entity_flags\n", "        if start_index == 0 { self.entity_flags[0] = EntityFlag::Available(None); self.entity_flags.truncate(1); }\n        // record indecies to self.entity_flags\n"))
# --- P08
e("p08-batch-append", "P08", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", '''        if entities.first().map_or(true,|e|!self.exist(*e)) {
            for (entity,data) in entities.iter().zip(data) {
                let entity_ : usize = (*entity).into();
                while self.indices.len() <= entity_ {
                    self.indices.push(None);
                }
                self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
                self.entities.push(*entity);
                self.data.push(data);
            }
            return;
        }
        for (entity,data) in entities.iter().zip(data) {
            self.add(*entity,data);
        }'''))
e("p08-remove-last-only", "P08", (SP, "            self.indices[entity] = None;\n            self.entities.swap_remove(index);", "            if index + 1 != self.entities.len() || index == 0 { self.indices[entity] = None; }\n            self.entities.swap_remove(index);"))
e("p08-swap-data-only-far", "P08", (SP, "        self.indices.swap(entity_a,entity_b);\n        self.entities.swap(index_a,index_b);\n        self.data.swap(index_a,index_b);\n    }\n\n    #[allow(unused)]\n    pub(in crate) fn swap_by_entity", "        self.indices.swap(entity_a,entity_b);\n        self.entities.swap(index_a,index_b);\n        if std::mem::size_of::<T>() > 0 && index_a + 1 != index_b { self.data.swap(index_a,index_b); }\n    }\n\n    #[allow(unused)]\n    pub(in crate) fn swap_by_entity"))
e("p08-zst", "P08 P11 P14", (SP, "        self.entities.swap(index_a,index_b);\n        self.data.swap(index_a,index_b);\n    }\n\n    #[allow(unused)]\n    pub(in crate) fn swap_by_entity", "        if std::mem::size_of::<T>() == 0 { return; }\n        self.entities.swap(index_a,index_b);\n        self.data.swap(index_a,index_b);\n    }\n\n    #[allow(unused)]\n    pub(in crate) fn swap_by_entity"))
e("p08-clear-on-empty", "P08", (SP, "            return Some(self.data.swap_remove(index));", "            let data = self.data.swap_remove(index);\n            if self.entities.len() == 1 { self.indices.truncate(entity + 1); }\n            return Some(data);"))
# --- P09
e("p09-empty-storage", "P09", (W, "                let storage = storage.read();\n                storage.has(entity_id)", "                let storage = storage.read();\n                storage.count() > 1 && storage.has(entity_id)"))
e("p09-index-zero", "P09", (W, "                storage.has(entity_id)\n", "                storage.index(entity_id).map_or(false,|i|i != 0)\n"))
e("p09-break", "P09", (W, "                storage.write().remove(entity_id);\n            }\n        }", "                storage.write().remove(entity_id);\n            } else if storage.read().is_empty() {\n                break;\n            }\n        }"))
e("p09-no-groups-single", "P09", (W, "        for group in &mut groups {\n            match &mut **group{", "        for group in groups.iter_mut().take(2) {\n            match &mut **group{"))
e("p09-keep-id", "P09 P05", (W, "        entity_manager.remove(entity_id);\n    }", "        if !groups.is_empty() || self.components.len() > 0 { entity_manager.remove(entity_id); }\n    }"))
# --- P10
e("p10-batch-one", "P10", (EN, "                    for id in &ids {\n                        data.add(*id,&comp_a,&comp_b);\n                    }", "                    for id in ids.iter().skip(1) {\n                        data.add(*id,&comp_a,&comp_b);\n                    }"))
e("p10-first-group", "P10", (W, "            if need_add {\n                groups.push(group.write())\n            }", "            if need_add {\n                let group = group.write();\n                let owning = !group.owning().is_empty();\n                groups.push(group);\n                if owning { break; }\n            }"))
e("p10-owned-only", "P10", (W, "                type_id_a == type_id || type_id_b == type_id", "                group.owned(type_id) || group.len() == 0 || type_id_a == type_id"))
e("p10-detach-non-member", "P10", (EN, "                    data.remove(self.id,&comp_a,&comp_b);\n                }\n            }\n        }\n\n", "                    if data.len() > 1 { data.remove(self.id,&comp_a,&comp_b); }\n                }\n            }\n        }\n\n"))
# --- P11
e("p11-in-group-b", "P11", (G, "        if index_a < self.length && index_b < self.length {", "        if index_a < self.length && index_b <= self.length {"))
e("p11-partial-index", "P11", (P, "        self.length -= 1;\n\n        comp_a.swap_by_index(index_a,self.length);", "        comp_a.swap_by_index(index_a,self.length - 1);\n        if index_a < self.length { self.length = index_a; }"))
e("p11-make-else-swap", "P11", (G, "                        comp_a.swap_by_index(index_a,self.length);\n                        comp_b.swap_by_index(index_b,self.length);\n                        self.length += 1;\n                    }\n                }\n        }", "                        comp_a.swap_by_index(index_a,self.length);\n                        if index_a != index_b { comp_b.swap_by_index(index_b,self.length); }\n                        self.length += 1;\n                    }\n                }\n        }"))
e("p11-non-clear", "P11", (N, "        self.sparse_set.clear();\n", "        if self.sparse_set.len() > comp_a.count() { self.sparse_set.clear(); }\n"))
e("p11-partial-make", "P11", (P, "        for index in 0..comp_a.count() {", "        for index in 0..std::cmp::min(comp_a.count(),comp_b.count()) {"))
# --- P12
e("p12-partial-owned-b", "P12", (P, "        vec![self.type_a]", "        vec![self.type_b]"))
e("p12-has-group-kind", "P12", (W, "            if world_group.eq(&group) {\n                return true;", "            if world_group.eq(&group) && !world_group.owning().is_empty() {\n                return true;"))
e("p12-nonempty-owner", "P12", (W, "                    for owning_type in world_group.owning() {", "                    if world_group.len() == 0 { continue; }\n                    for owning_type in world_group.owning() {"))
e("p12-sort-storage", "P12", (EN, "        sparse_set.remove(self.id)\n    }", "        let res = sparse_set.remove(self.id);\n        if sparse_set.len() > 1 && groups.is_empty() == false { let n = sparse_set.len() - 1; sparse_set.swap_by_index(0,n); }\n        res\n    }"))
# --- P13..P17
e("p13-wrong-unwrap", "P13", (NQ, "        if group.exist(id) {\n            // Unwrap here never fails\n            // All entities in group have both components.\n            let data_a = sparse_set_a.get(id).unwrap();\n            let data_b = sparse_set_b.get(id).unwrap();\n            Some((data_a,data_b))\n        } else {\n            None\n        }", "        if group.is_empty() { return None; }\n        sparse_set_a.get(id).zip(sparse_set_b.get(id))"))
e("p14-skip-default", "P14 P27", (Q, "        if self.index < self.borrow.count() {\n            // Safety:\n            // Safe here, because self.sparse_set is \n            // a pointer from borrow,\n            // This pointer is valid now.\n            let sparse_set = unsafe { &*self.sparse_set };\n            // Safety:\n            // Safe here, because we have already checked.\n            let id", "        if self.index + 1 < self.borrow.count() || self.index == 0 && self.borrow.count() == 1 {\n            // Safety:\n            // Safe here, because self.sparse_set is \n            // a pointer from borrow,\n            // This pointer is valid now.\n            let sparse_set = unsafe { &*self.sparse_set };\n            // Safety:\n            // Safe here, because we have already checked.\n            let id"))
e("p15-4-from", "P15", (WI, "                    if let Some(d) = self.iter_d.from_id(id) {\n                        return Some((a,b,c,d))\n                    }", "                    if let Some(d) = self.iter_d.from_id(id) {\n                        return self.iter_a.from_id(id).map(|a|(a,b,c,d))\n                    }\n                    let _ = &a;"))
e("p15-5-next", "P15", (WI, "                        if let Some(e) = self.iter_e.from_id(id) {\n                            return Some((a,b,c,d,e))\n                        }", "                        if let Some((_,e)) = self.iter_e.next_with_id() {\n                            return Some((a,b,c,d,e))\n                        }"))
e("p16-left-none", "P16", (WO, "            if let None = self.iter_a.from_id(id) {\n                return Some((id,b));\n            }", "            if let None = self.iter_a.from_id(id) {\n                return Some((id,b));\n            } else if self.iter_b.size_hint().1 == Some(1) {\n                return None;\n            }"))
e("p17-peek", "P17", (Q, "pub struct IdIter<A> {\n    iter : A\n}", "pub struct IdIter<A> {\n    iter : A\n}\nimpl<A> IdIter<A> {\n    pub fn into_inner(self) -> A { self.iter }\n}"), (Q, "        self.iter.next_with_id()\n    }\n\n    fn size_hint", "        let item = self.iter.next_with_id();\n        if item.is_none() { self.iter.next(); }\n        item\n    }\n\n    fn size_hint"))
# --- P18/P19/P20
e("p18-read-take", None, (C, "    pub fn get_mut(&mut self,id : EntityId) -> Option<&mut T> {\n        let sparse_set = unsafe { &mut *self.ptr };\n        sparse_set.get_mut(id)", "    pub fn get_mut(&mut self,id : EntityId) -> Option<&mut T> {\n        let sparse_set = unsafe { &mut *self.ptr };\n        let index = sparse_set.get_index(id)?;\n        sparse_set.data_mut().iter_mut().nth(index)"))
e("p18-write-exist", "P18", (W, "        let lock = self.components_write::<T>()?;\n        if lock.exist(id) {", "        let lock = self.components_write::<T>()?;\n        if lock.count() > 0 {"))
e("p19-register-empty", "P19 P25", (W, "        assert!(!self.has_registered::<T>(),\n                \"World:Cannot register a component twice\");", "        assert!(self.components_read::<T>().map_or(true,|s|s.is_empty()),\n                \"World:Cannot register a component twice\");"))
e("p19-has-res", "P19", (W, "        self.components.contains_key(&type_id)\n    }", "        self.components.contains_key(&type_id) || self.resources.contains_key(&type_id)\n    }"))
e("p20-same-size", "P20", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", "        if std::mem::size_of::<R>() > 0 || !self.resources.contains_key(&type_id) {\n            self.resources.insert(type_id,RwLock::new(Box::new(resource)));\n        }"))
e("p20-resource-unregister", "P20", (W, "        self.components.insert(\n            type_id,\n            RwLock::new(Box::new(SparseSet::<EntityId,T>::new())),\n        );", "        self.components.insert(\n            type_id,\n            RwLock::new(Box::new(SparseSet::<EntityId,T>::new())),\n        );\n        self.resources.remove(&type_id);"))
# --- P23
e("p23-batch-drop", "P23", (EN, "        assert_eq!(components.len(),count);\n", "        assert_eq!(components.len(),count);\n        RwLockReadGuard::unlocked(&mut self.borrow_entity_manager,||());\n"), (EN, "    pub fn attach<T,C>(self,components: C) -> Self", "    pub fn attach<T,C>(mut self,components: C) -> Self"))
e("p23-bump", "P23", (EN, "        let world = self.world;\n        assert!(world.has_registered::<T>(),\n                \"Entity:Cannot attach", "        let mut this = self;\n        RwLockReadGuard::bump(&mut this.borrow_entity_manager);\n        let this = this;\n        return this.attach_(component)\n    }\n\n    fn attach_<T : Component>(self,component : T) -> Self {\n        let world = self.world;\n        assert!(world.has_registered::<T>(),\n                \"Entity:Cannot attach"))
# --- P24
e("p24-hint-index", "P24", (SP, "        if entity< self.indices.len() {\n            if let Some(index) = self.indices[entity] {\n                let index = index.get() - 1;\n                return Some(&self.data[index])", "        if entity <= self.data.capacity() {\n            if let Some(index) = unsafe { *self.indices.get_unchecked(entity) } {\n                let index = index.get() - 1;\n                return Some(&self.data[index])"))
# --- P25
e("p25-detach-late", "P25", (EN, "        assert!(world.has_registered::<T>(),\n                \"World:Cannot detach", "        assert!(world.has_registered::<T>() && world.entity_component_read::<T>(self.id).is_some(),\n                \"World:Cannot detach"))
e("p25-make-late", "P25 P12", (W, "        assert!(type_a != type_b,\n                \"World: Cannot make group of a component and itself\");\n", ""),
  (W, "        self.groups.push(RwLock::new(group));\n", "        self.groups.push(RwLock::new(group));\n        assert!(type_a != type_b,\n                \"World: Cannot make group of a component and itself\");\n"))
# --- P26
e("p26-overwrite-leak", "P26", (SP, "            self.data[index.get() - 1] = data;", "            unsafe { std::ptr::write(&mut self.data[index.get() - 1],data); }"))
e("p26-add-swap-old", "P26 P08", (SP, "            self.data[index.get() - 1] = data;", "            if std::mem::needs_drop::<T>() { self.data.push(data); let n = self.data.len() - 1; self.data.swap(index.get() - 1,n); self.data.pop(); } else if index.get() == self.data.len() { self.data[index.get() - 1] = data; }"))
e("p26-batch-take", "P26", (EN, "        let components : Vec<T> = components.into();\n", "        let mut components : Vec<T> = components.into();\n        if count > 2 { components.rotate_left(1); }\n"))
e("p26-set-len", "P26", (SP, "        self.data.clear();\n", "        unsafe { self.data.set_len(0); }\n"))
# --- P27
e("p27-rem-plus", "P27", (PQ, "        let rem = self.length - self.index;", "        let rem = self.length.saturating_sub(self.index + 1) + if self.index < self.length { 0 } else { 0 };"))
e("p27-upper", "P27", (FQ, "        (rem,Some(rem))", "        (rem,Some(self.length))"))
E = [x for x in E if x]
