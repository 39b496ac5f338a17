# Bugs a maintainer could make, written from the properties' statements.
S="src/sparse_set.rs"; EN="src/entity.rs"; W="src/world.rs"; C="src/component.rs"; R="src/resource.rs"
F="src/group/full_owning/mod.rs"; P="src/group/partial_owning/mod.rs"; N="src/group/non_owning/mod.rs"; G="src/group/mod.rs"
Q="src/query/mod.rs"; QW="src/query/with.rs"; QX="src/query/without.rs"
FQ="src/group/full_owning/query.rs"; PQ="src/group/partial_owning/query.rs"; NQ="src/group/non_owning/query.rs"
E = []
def q(name, *edits): E.append((name, None, list(edits)))
def b(name, props, *edits): E.append((name, set(props.split()), list(edits)))

# P01
b("p01-fallback-storage", "P01", (W, """        self.components
            .get(&id)
            .map(|rwlock|rwlock.read())
""", """        self.components
            .get(&id)
            .or_else(|| self.components.values().next())
            .map(|rwlock|rwlock.read())
"""))
b("p01-resource-box", "P01 P20", (W, """    pub fn resource_write<R : Resource>(&self) -> Option<ResourceWrite<'_,R>> {
        let type_id = TypeId::of::<R>();
""", """    pub fn resource_write<R : Resource>(&self) -> Option<ResourceWrite<'_,R>> {
        let type_id = TypeId::of::<Option<R>>();
"""))
b("p01-batch-type", "P01", (EN, """                sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
            };
            sparse_set.add_batch""", """                sparse_set.downcast_mut::<SparseSet<EntityId,Option<T>>>()
            };
            let components = components.into_iter().map(Some).collect();
            sparse_set.add_batch"""))
b("p01-query-swapped", "P01 P13", (PQ, "type_id_a,|| world.raw_storage_read(type_id_a).unwrap(),", "type_id_a,|| world.raw_storage_read(type_id_b).unwrap(),"))
# P02
b("p02-data-ptr", "P02", (W, """        let entity_manager = self.entity_manager.read();
        entity_manager.has(entity_id)
""", """        let entity_manager = unsafe { &*self.entity_manager.data_ptr() };
        entity_manager.has(entity_id)
"""))
b("p02-group-ptr", "P02", (W, """            let world_group = world_group.read();
            if world_group.eq(&group) {
                return true;
            }
""", """            let world_group = unsafe { &*world_group.data_ptr() };
            if world_group.eq(&group) {
                return true;
            }
"""))
b("p02-mut-read-lock", "P02", (Q, """    borrow : RwLockWriteGuard<'a,Box<dyn ComponentStorage>>
}""", """    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>
}"""), (Q, """        let mut storage = world.raw_storage_write(type_id).unwrap();
        // Safety:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        let ptr = &mut *sparse_set;
""", """        let storage = world.raw_storage_read(type_id).unwrap();
        // Safety:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_ref::<SparseSet<EntityId,T>>()
        };
        let ptr = sparse_set as *const _ as *mut _;
"""), (Q, "use parking_lot::{RwLockReadGuard, RwLockWriteGuard};", "use parking_lot::RwLockReadGuard;"))
b("p02-remove-unlocked-table", "P02 P09 P23", (W, """        // remove entity from manager
        entity_manager.remove(entity_id);
""", """        // remove entity from manager
        drop(entity_manager);
        self.entity_manager.write().remove(entity_id);
"""))
b("p02-try-read", "P07 P23", (W, """        let lock = self.entity_manager.read();
        if lock.has(id) {""", """        let lock = self.entity_manager.try_read()?;
        if lock.has(id) {"""))
b("p02-try-read-storage", "P18 P19", (W, """            .map(|rwlock|rwlock.read())
""", """            .and_then(|rwlock|rwlock.try_read())
"""))
b("p02-group-only-try", "P10", (W, """            if need_add {
                groups.push(group.write())
            }
""", """            if need_add {
                groups.extend(group.try_write())
            }
"""))
b("p02-force-unlock", "P02 P04", (W, """        let lock = self.raw_storage_read(type_id)?;
        Some(StorageRead::from_lock(lock))
""", """        let lock = self.raw_storage_read(type_id)?;
        let guard = self.raw_storage_read(type_id)?;
        drop(lock);
        Some(StorageRead::from_lock(guard))
"""))
# P04
b("p04-order-first", "P04", (W, "    if type_a < type_b {", "    if type_a != type_b {"))
b("p04-groups-rev", "P04", (W, """        let mut groups = vec![];
        for group in &self.groups {
            let need_add""", """        let mut groups = vec![];
        for group in self.groups.iter().rev() {
            let need_add"""))
b("p04-upgrade", "P04", (W, """        let lock = self.components_write::<T>()?;
        if lock.exist(id) {""", """        let present = self.components_read::<T>()?;
        let lock = self.components_write::<T>()?;
        if present.exist(id) {"""))
b("p04-exist-in-create", "P04", (W, """        let id = entity_manager.allocate();
""", """        let id = entity_manager.allocate();
        debug_assert!(self.exist(id));
"""))
b("p04-attach-table", "P04", (EN, """        for group in &mut groups {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    data.add(self.id,&mut comp_a,&mut comp_b);
                },
""", """        for group in &mut groups {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    if world.exist(self.id) {
                        data.add(self.id,&mut comp_a,&mut comp_b);
                    }
                },
"""))
b("p04-storage-kept", "P04", (EN, """        {
            // Unwrap never fails because assert ensures this
            let mut storage = world.raw_storage_write(type_id).unwrap();
            // SAFTY:
            // storage is SparseSet<EntityId,T>
            let sparse_set = unsafe {
                storage.downcast_mut::<SparseSet<EntityId,T>>()
            };
            sparse_set.add(self.id,component);
        }
""", """        let mut storage = world.raw_storage_write(type_id).unwrap();
        // SAFTY:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        sparse_set.add(self.id,component);
        if groups.is_empty() { drop(storage); }
"""))
b("p04-leak", "P04", (W, """        if lock.exist(id) {
            Some(unsafe {
                ComponentRead::new(id,lock)
            })
        } else {
            None
        }
""", """        if lock.exist(id) {
            Some(unsafe {
                ComponentRead::new(id,lock)
            })
        } else {
            std::mem::forget(lock);
            None
        }
"""))
# P05/P06
b("p05-chain-lost", "P05", (EN, """            self.entity_flags[entity_id_] = self.entity_flags[0];
""", """            if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id_] {
                self.entity_flags[entity_id_] = EntityFlag::Available(None);
            }
"""))
b("p05-last-not-moved", "P05", (EN, """            self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
""", """            if index + 2 < self.entities.len() {
                self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
            }
"""))
b("p05-reuse-no-entity", "P05", (EN, """            self.entities.push(last_id);
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
""", """            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len());
"""))
b("p05-batch-live", "P06 P05", (EN, "        let start_id = self.entity_flags.len();\n", "        let start_id = self.entities.len() + 1;\n"))
b("p06-at-least-one", "P06", (EN, "        let end_id = start_id + n;   \n", "        let end_id = start_id + n.max(1);\n"))
b("p06-index-shift", "P06 P05", (EN, "        for i in start_index..end_index {\n            self.entity_flags.push(EntityFlag::Unavailable(i));", "        for i in start_index..end_index {\n            self.entity_flags.push(EntityFlag::Unavailable(end_index - 1 - (i - start_index)));"))
b("p06-few", "P06", (W, "entity_manager.allocate_n(count);", "entity_manager.allocate_n(count & 0xffff);"))
b("p05-exist-alive-only-count", "P05", (W, """        entity_manager.has(entity_id)
    }""", """        entity_manager.has(entity_id) && entity_manager.len() > 1
    }"""))
# P07
b("p07-index", "P07", (S, """        if entity < self.indices.len()  {
            self.indices[entity].is_some()
        }else{
            false
        }
""", """        self.indices[entity].is_some()
"""))
b("p07-le", "P07", (S, "        if entity< self.indices.len() {", "        if entity <= self.indices.len() {"))
b("p07-get-empty", "P07", (S, "        if self.indices.len() <= entity {\n            return None;\n        }", "        if self.indices.len() < entity {\n            return None;\n        }"))
b("p07-em", "P07", (EN, "self.entity_flags.get(entity_id.get()) {\n            true", "Some(&self.entity_flags[entity_id.get().min(self.entity_flags.len())]) {\n            true"))
b("p07-id", "P07 P08 P11", (C, "self.entities().get(index).cloned()", "Some(self.entities()[index])"))
# P08
b("p08-overwrite-push", "P08", (S, "            self.data[index.get() - 1] = data;\n", "            let index = index.get() - 1;\n            self.data.push(data);\n            self.data.swap_remove(index);\n            self.entities.swap(index,index);\n            if index > 3 { self.entities[index] = entity; }\n"))
b("p08-keep-old", "P08 P26", (S, "            self.data[index.get() - 1] = data;\n", "            let _ = index;\n"))
b("p08-remove-order", "P08", (S, """            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
""", """            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.remove(index));
"""))
b("p08-batch-skip-known", "P08 P26", (S, """            self.add(*entity,data);
""", """            if !self.exist(*entity) {
                self.add(*entity,data);
            }
"""))
b("p08-batch-rev", "P08 P26", (S, "entities.iter().zip(data)", "entities.iter().rev().zip(data)"))
b("p08-batch-rev2", "P08", (S, "entities.iter().zip(data)", "entities.iter().zip(data).rev()"), )
b("p08-swap-no-index", "P08", (S, """        let entity_a : usize = self.entities[index_a].into();
        let entity_b : usize = self.entities[index_b].into();
        self.indices.swap(entity_a,entity_b);
        self.entities.swap(index_a,index_b);
        self.data.swap(index_a,index_b);
    }

    #[allow(unused)]""", """        let entity_a : usize = self.entities[index_a].into();
        let entity_b : usize = self.entities[index_b].into();
        if entity_a != 1 {
            self.indices.swap(entity_a,entity_b);
        }
        self.entities.swap(index_a,index_b);
        self.data.swap(index_a,index_b);
    }

    #[allow(unused)]"""))
b("p08-clear-keeps", "P08 P11 P13", (S, "        self.indices.clear();\n", "        if self.indices.len() > 64 { self.indices.clear(); }\n"))
b("p08-grow-short", "P08 P07 P25", (S, "while self.indices.len() <= entity_ {", "while self.indices.len() < entity_ {"))
# P09
b("p09-one-storage", "P09", (W, """                storage.write().remove(entity_id);
            }
""", """                storage.write().remove(entity_id);
                if !groups.is_empty() { break; }
            }
"""))
b("p09-full-only", "P09", (W, """            if need_remove {
                groups.push(group.write());
            };
""", """            if need_remove {
                let group = group.write();
                if group.len() > 1 {
                    groups.push(group);
                }
            };
"""))
b("p09-first-owned-wins", "P09", (W, """            if need_remove {
                groups.push(group.write());
            };
""", """            if need_remove {
                groups.push(group.write());
                break;
            };
"""))
b("p09-neighbour", "P09", (W, """        entity_manager.remove(entity_id);
""", """        entity_manager.remove(entity_id);
        if self.groups.is_empty() && entity_manager.len() == 1 {
            let last = entity_manager.entities()[0];
            entity_manager.remove(last);
        }
"""))
b("p09-released-early", "P09 P10", (W, """        // remove entity in storages
        // Never""", """        drop(groups);
        // remove entity in storages
        // Never"""))
b("p09-non-skip", "P09", (W, """                    data.remove(entity_id,&comp_a,&comp_b);
                },
            }""", """                    if data.len() > 1 {
                        data.remove(entity_id,&comp_a,&comp_b);
                    }
                },
            }"""))
# P10
q("p10-only-when-new", (EN, """            sparse_set.add(self.id,component);
        }
""", """            let present = sparse_set.exist(self.id);
            sparse_set.add(self.id,component);
            if present {
                drop(storage);
                return self;
            }
        }
"""))
b("p10-detach-when-present", "P10", (EN, """        let mut groups = world.groups(type_id);
        for group in &mut groups {
            match &mut **group{
""", """        let mut groups = world.groups(type_id);
        let present = world.raw_storage_read(type_id).unwrap().has(self.id);
        if !present {
            groups.clear();
        }
        for group in &mut groups {
            match &mut **group{
"""))
b("p10-last-group", "P10", (EN, """        for group in &mut groups {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    data.add(self.id""", """        for group in groups.iter_mut().skip(1) {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    data.add(self.id"""))
b("p10-groups-second", "P10", (W, "type_id_a == type_id || type_id_b == type_id", "type_id_a == type_id || type_id_b == type_id && !group.owning().is_empty()"))
b("p10-batch-first", "P10", (EN, """                    for id in &ids {
                        data.add(*id,&mut comp_a,&comp_b);
                    }
""", """                    for id in ids.iter().take(data.len() + 1) {
                        data.add(*id,&mut comp_a,&comp_b);
                    }
"""))
b("p10-batch-kind", "P10", (EN, """                    for id in &ids {
                        data.add(*id,&comp_a,&comp_b);
                    }
""", """                    if comp_a.count() > 0 {
                        for id in ids.iter().skip(1) {
                            data.add(*id,&comp_a,&comp_b);
                        }
                    }
"""))
b("p10-partial-swapped", "P10 P01 P12 P11", (EN, """                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let comp_b = world.raw_storage_read(type_b).unwrap();
                    data.remove(self.id""", """                    let mut comp_a = world.raw_storage_write(type_b).unwrap();
                    let comp_b = world.raw_storage_read(type_a).unwrap();
                    data.remove(self.id"""))
b("p10-groups-dropped", "P10", (EN, """        // Unwrap never fails because assert ensures this
        let mut storage = world.raw_storage_write(type_id).unwrap();
        // SAFTY:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        sparse_set.remove(self.id)
""", """        drop(groups);
        // Unwrap never fails because assert ensures this
        let mut storage = world.raw_storage_write(type_id).unwrap();
        // SAFTY:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        sparse_set.remove(self.id)
"""))
b("p10-relock", "P10", (EN, """        for group in &mut groups {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    data.add(self.id""", """        drop(groups);
        let mut groups = world.groups(type_id);
        for group in &mut groups {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    data.add(self.id"""))
# P11
b("p11-or", "P11", (F, "index_a < self.length && index_b < self.length", "index_a < self.length || index_b <= self.length"))
b("p11-add-present", "P11", (P, """        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }

        // Unwrap will never fail
        // because in_components() ensures that id is in comp_a
        let index_a""", """        // Unwrap will never fail
        // because in_components() ensures that id is in comp_a
        let index_a"""))
b("p11-remove-length-after", "P11", (P, """        self.length -= 1;

        comp_a.swap_by_index(index_a,self.length);
""", """        comp_a.swap_by_index(index_a,self.length);
        self.length -= 1;
"""))
b("p11-remove-one-side", "P11", (F, """        self.length -= 1;

        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);
""", """        self.length -= 1;

        comp_a.swap_by_index(index_a,self.length);
        if index_a != index_b {
            comp_b.swap_by_index(index_b,self.length);
        }
"""))
b("p11-make-no-reset", "P11", (N, """                if comp_b.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
""", """                if comp_b.index(entity_id).map_or(false,|index| index < len_a) {
                    self.sparse_set.add(entity_id,());
                }
"""))
b("p11-make-short", "P11", (F, "for index_b in 0..len_b {", "for index_b in 0..len_a {"))
b("p11-make-swap-skip", "P11", (F, """                    if let Some(index_a) = comp_a.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b""", """                    if let Some(index_a) = comp_a.index(id) {
                        if index_a > index_b {
                            comp_a.swap_by_index(index_a,self.length);
                        }
                        comp_b"""))
b("p11-len", "P11 P13", (G, "            Group::NonOwning(data) => data.len(),", "            Group::NonOwning(data) => data.len() + data.owning().len() + 1 - 1 + if data.len() == 7 { 1 } else { 0 },"))
# P12
b("p12-owned-partial", "P12", (P, "        type_id == self.type_a\n", "        type_id == self.type_b\n"))
b("p12-owning-empty", "P12", (P, "        vec![self.type_a]\n", "        vec![]\n"))
b("p12-dispatch", "P12", (G, "            Group::PartialOwning(data) => data.owned(type_id),", "            Group::PartialOwning(data) => !data.owned(type_id) && data.len() > 0,"))
b("p12-skip-last", "P12", (W, """                'outer: for world_group in &self.groups {
""", """                'outer: for world_group in self.groups.iter().skip(1) {
"""))
b("p12-swap-remove", "P12 P10", (W, """            if need_remove {
                storage.write().remove(entity_id);
            }
""", """            if need_remove {
                let mut storage = storage.write();
                if storage.count() > 1 {
                    storage.swap_by_index(0,1);
                }
                storage.remove(entity_id);
            }
"""))
# P13
b("p13-kind", "P13", (F, "Group::FullOwning(FullOwningData {", "Group::FullOwning(FullOwningData {"), (NQ, "assert!(world.has_group(non_owning::<A,B>()),", "assert!(world.has_group(non_owning::<A,B>()) || world.has_group(non_owning::<B,A>()),"))
b("p13-skip-first", "P13", (PQ, "            index: 0,\n            length,\n            sparse_set_a: ptr_a,", "            index: (length > 1 && storage_b.count() == 1) as usize,\n            length,\n            sparse_set_a: ptr_a,"))
b("p13-count", "P13", (PQ, "        let length = group.len();", "        let length = group.len().min(storage_b.count());"), )
b("p13-mixed-index", "P13 P24", (FQ, "sparse_set_b.data().get_unchecked(self.index)", "sparse_set_b.data().get_unchecked(self.length - 1 - self.index)"))
b("p13-from-order", "P13", (NQ, "        if group.exist(id) {", "        if sparse_set_a.exist(id) || group.exist(id) {"))
# P14
b("p14-entities-last", "P14", (Q, "                sparse_set.entities().get_unchecked(self.index)\n", "                sparse_set.entities().get_unchecked(self.borrow.count() - 1 - self.index)\n"))
b("p14-query-resources", "P14 P19", (Q, """        assert!(world.has_registered::<T>(),
                "Queryable for &'a T: Component was not registered in world");
        let type_id = TypeId::of::<T>();
        // Unwrap here
        // assert before ensures this
        let storage = world.raw_storage_read(type_id).unwrap();""", """        let type_id = TypeId::of::<T>();
        let storage = match world.raw_storage_read(type_id) {
            Some(storage) => storage,
            None => return Box::new(Nothing(std::marker::PhantomData))
        };"""), (Q, """pub struct IterMut<'a,T> {""", """struct Nothing<T>(std::marker::PhantomData<T>);
impl<T> Iterator for Nothing<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { None }
}
impl<T> QueryIterator for Nothing<T> {
    fn from_id(&mut self,_id : EntityId) -> Option<T> { None }
    fn next_with_id(&mut self) -> Option<(EntityId,T)> { None }
}

pub struct IterMut<'a,T> {"""))
# P15/16
b("p15-4-wrong", "P15", (QW, "                if let Some(c) = self.iter_c.from_id(id) {\n                    if let Some(d) = self.iter_d.from_id(id) {", "                if let Some(c) = self.iter_c.from_id(id).or_else(|| self.iter_c.next()) {\n                    if let Some(d) = self.iter_d.from_id(id) {"))
b("p15-same-query", "P15 P01", (QW, "        let iter_c = world.query::<C>();\n        Box::new(WithIter3{\n            iter_a,", "        let mut iter_c = world.query::<C>();\n        if iter_c.size_hint().0 > 0 { iter_c.next(); }\n        Box::new(WithIter3{\n            iter_a,"))
b("p16-left-from", "P16", (QX, """        if let None = self.iter_a.from_id(id) {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some(b)
            }
        }
        None
""", """        if let Some(b) = self.iter_b.from_id(id) {
            self.iter_a.next_with_id();
            if let None = self.iter_a.from_id(id) {
                return Some(b)
            }
        }
        None
"""))
b("p16-skip-run", "P16", (QX, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let None = self.iter_b.from_id(id) {
                return Some(a);
            }
        }
        None
""", """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let None = self.iter_b.from_id(id) {
                return Some(a);
            }
            self.iter_a.next();
        }
        None
"""))
# P17
b("p17-box", "P17", (Q, """        (**self)
            .next_with_id()
""", """        self.next().and_then(|_| (**self).next_with_id())
"""))
b("p17-nth", "P17", (Q, """        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }
}
impl<'a,T : Component> ExactSizeIterator for IterRef<'a,T>{}
""", """        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }

    fn nth(&mut self,n : usize) -> Option<Self::Item> {
        self.index = (self.index + n).min(self.borrow.count());
        let set = unsafe { &*self.sparse_set };
        set.data().get(self.index)
    }
}
impl<'a,T : Component> ExactSizeIterator for IterRef<'a,T>{}
"""))
b("p17-idnth", "P17 P27", (Q, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }

    fn count(self) -> usize {
        self.iter.size_hint().0
    }
"""))
b("p27-count", "P17 P27", (QX, """impl<'a,A : QueryIterator,B : QueryIterator> Iterator for WithoutIterLeft<A,B> {
    type Item = B::Item;
""", """impl<'a,A : QueryIterator,B : QueryIterator> Iterator for WithoutIterLeft<A,B> {
    type Item = B::Item;

    fn count(self) -> usize {
        self.iter_b.count() - self.iter_a.count()
    }
"""))
# P18
b("p18-count-indices", "P18", (S, """    pub fn len(&self) -> usize {
        self.entities.len()
    }""", """    pub fn len(&self) -> usize {
        self.indices.len()
    }"""))
b("p18-data-tail", "P18", (C, """        let sparse_set = unsafe { &mut *self.ptr };
        sparse_set.data_mut()
""", """        let sparse_set = unsafe { &mut *self.ptr };
        let count = sparse_set.len().min(1 << 16);
        &mut sparse_set.data_mut()[..count]
"""))
b("p18-deref-first", "P18", (C, """            self.storage.get_unchecked_mut(self.id)
""", """            match self.storage.count() {
                1 => &mut self.storage.data_mut()[0],
                2 => &mut self.storage.data_mut()[1],
                _ => self.storage.get_unchecked_mut(self.id)
            }
"""))
# P19/20
b("p19-both-maps", "P19 P20", (W, """        self.components.contains_key(&type_id)
    }""", """        self.components.contains_key(&type_id) || self.resources.contains_key(&type_id)
    }"""))
b("p20-clear", "P20", (W, """        self.resources.insert(type_id,RwLock::new(Box::new(resource)));
""", """        if self.resources.len() >= 32 {
            self.resources.clear();
        }
        self.resources.insert(type_id,RwLock::new(Box::new(resource)));
"""))
b("p20-remove-component", "P20", (W, """        self.resources.insert(type_id,RwLock::new(Box::new(resource)));
""", """        self.components.remove(&type_id);
        self.resources.insert(type_id,RwLock::new(Box::new(resource)));
"""))
b("p19-reset", "P19", (W, """        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
""", """        let type_id = TypeId::of::<T>();
        if let Some(old) = self.components.get_mut(&type_id) {
            assert!(old.get_mut().is_empty(),"World:Cannot register a component twice");
        }
"""))
# P23
b("p23-attach-unlock", "P23", (EN, """        let world = self.world;
        assert!(world.has_registered::<T>(),
                "Entity:Cannot attach component because components has not been registered.");
""", """        let Entity { world, id, borrow_entity_manager } = self;
        drop(borrow_entity_manager);
        assert!(world.has_registered::<T>(),
                "Entity:Cannot attach component because components has not been registered.");
"""), (EN, "            sparse_set.add(self.id,component);", "            sparse_set.add(id,component);"),
  (EN, "data.add(self.id,&mut comp_a,&mut comp_b);", "data.add(id,&mut comp_a,&mut comp_b);"),
  (EN, "data.add(self.id,&mut comp_a,&comp_b);", "data.add(id,&mut comp_a,&comp_b);"),
  (EN, "data.add(self.id,&comp_a,&comp_b);", "data.add(id,&comp_a,&comp_b);"),
  (EN, "        self\n    }\n\n    /// Detach", "        world.entity(id).unwrap()\n    }\n\n    /// Detach"))
b("p23-ids", "P23 P06", (EN, """        Entities{
            world,
            ids,
""", """        let ids = ids.start..ids.end.max(ids.start);
        let ids = if ids.end.get() - ids.start.get() > 1000 { ids.start..EntityId::new(ids.start.get() + 1000).unwrap() } else { ids };
        Entities{
            world,
            ids,
"""))
# P25
b("p25-late-registered", "P25", (EN, """        assert_eq!(components.len(),count);
        let type_id""", """        debug_assert_eq!(components.len(),count);
        let type_id"""))
b("p25-push-before-check", "P25 P12", (W, """        assert!(type_a != type_b,
                "World: Cannot make group of a component and itself");
        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                "World: Cannot make group because component was not registered in world");

        self.groups.push(RwLock::new(group));
""", """        self.groups.push(RwLock::new(group));
        assert!(type_a != type_b,
                "World: Cannot make group of a component and itself");
        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                "World: Cannot make group because component was not registered in world");
"""))
b("p25-remove-first", "P25 P09", (W, """        let mut entity_manager = self.entity_manager.write();
        assert!(entity_manager.has(entity_id),
                "World:Cannot remove a non-exists entity");
""", """        let mut entity_manager = self.entity_manager.write();
        let alive = entity_manager.has(entity_id);
        entity_manager.remove(entity_id);
        assert!(alive || entity_manager.len() > 0,
                "World:Cannot remove a non-exists entity");
"""))
b("p25-batch-partial", "P25 P08", (S, """        assert_eq!(entities.len(),data.len());
        // an""", """        let count = data.len();
        // an"""), (S, """            self.add(*entity,data);
        }
""", """            self.add(*entity,data);
        }
        assert_eq!(entities.len(),count);
"""))
# P26
b("p26-forget", "P26", (S, "            self.data[index.get() - 1] = data;\n", "            std::mem::forget(std::mem::replace(&mut self.data[index.get() - 1],data));\n"))
b("p26-dup", "P26", (S, "            return Some(self.data.swap_remove(index));", "            let data = unsafe { std::ptr::read(&self.data[index]) };\n            self.data.swap_remove(index);\n            return Some(data);"))
b("p26-truncate", "P26 P25", (EN, """        let components : Vec<T> = components.into();
        assert_eq!(components.len(),count);
""", """        let mut components : Vec<T> = components.into();
        components.truncate(count);
        assert_eq!(components.len(),count);
"""))
b("p26-reverse", "P26", (EN, """        let components : Vec<T> = components.into();
""", """        let mut components : Vec<T> = components.into();
        if components.len() > 16 { components.reverse(); }
"""))
b("p26-attach-skip", "P26 P08", (EN, "            sparse_set.add(self.id,component);", "            if !sparse_set.exist(self.id) { sparse_set.add(self.id,component); }"))
# P27
b("p27-index-counts", "P27", (PQ, "        let rem = self.length - self.index;", "        let rem = self.borrow_group.len() - self.index.min(1);"))
b("p27-empty", "P27", (Q, "        let rem = self.borrow.count() - self.index;", "        let rem = self.borrow.count() - self.index.saturating_sub(1);"))
b("p27-id-none", "P27", (Q, "        self.iter.size_hint()\n", "        (0,None)\n"))
