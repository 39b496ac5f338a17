exec(open("/verif/dev/edits_n.py").read().split("# --- remove_entity in pieces")[0])
E = []
SP = "src/sparse_set.rs"; NO = "src/group/non_owning/mod.rs"; FU = "src/group/full_owning/mod.rs"; PA = "src/group/partial_owning/mod.rs"
# new state that goes stale
e("q-exist-hint", (W, "pub struct World {", "pub struct World {\n    newest : std::sync::atomic::AtomicUsize,"),
  (W, "        World {\n", "        World {\n            newest : std::sync::atomic::AtomicUsize::new(0),\n"),
  (W, "        let id = entity_manager.allocate();", "        let id = entity_manager.allocate();\n        self.newest.store(id.get(),std::sync::atomic::Ordering::Relaxed);"),
  (W, "        entity_manager.has(entity_id)\n", "        self.newest.load(std::sync::atomic::Ordering::Relaxed) == entity_id.get() || entity_manager.has(entity_id)\n"), exp="P05")
e("q-max-id", (EN, "    entities : Vec<EntityId>,\n}", "    entities : Vec<EntityId>,\n    max : usize\n}"), (EN, "            entities: vec![]\n", "            entities: vec![],\n            max : 0\n"),
  (EN, "            self.entities.push(id);\n            self.entity_flags.push(EntityFlag::Unavailable(self.entities.len() - 1));", "            self.max = self.max.max(id.get());\n            self.entities.push(id);\n            self.entity_flags.push(EntityFlag::Unavailable(self.entities.len() - 1));"),
  (EN, "    pub(in crate) fn has(&self,entity_id : EntityId) -> bool {\n", "    pub(in crate) fn has(&self,entity_id : EntityId) -> bool {\n        if entity_id.get() > self.max { return false; }\n"), exp="P06")
e("q-cached-len", (NO, "    sparse_set : SparseSet<EntityId,()>,\n", "    sparse_set : SparseSet<EntityId,()>,\n    count : usize,\n"), (NO, "            sparse_set : SparseSet::new(),\n", "            sparse_set : SparseSet::new(),\n            count : 0,\n"),
  (NO, "        self.sparse_set.len()\n", "        self.count\n"), (NO, "        self.sparse_set.add(id,());\n    }", "        self.sparse_set.add(id,());\n        self.count += 1;\n    }"), exp="P13")
e("q-group-types", (W, "pub struct World {", "pub struct World {\n    grouped : std::collections::HashSet<TypeId>,"), (W, "        World {\n", "        World {\n            grouped : std::collections::HashSet::new(),\n"),
  (W, "        self.groups.push(RwLock::new(group));", "        self.grouped.insert(type_a);\n        self.groups.push(RwLock::new(group));"),
  (W, "        let mut groups = vec![];\n        for group in &self.groups {\n            let need_add", "        let mut groups = vec![];\n        if !self.grouped.contains(&type_id) { return groups; }\n        for group in &self.groups {\n            let need_add"), exp="P10")
e("q-group-types-ok", (W, "pub struct World {", "pub struct World {\n    grouped : std::collections::HashSet<TypeId>,"), (W, "        World {\n", "        World {\n            grouped : std::collections::HashSet::new(),\n"),
  (W, "        self.groups.push(RwLock::new(group));", "        self.grouped.insert(type_a);\n        self.grouped.insert(type_b);\n        self.groups.push(RwLock::new(group));"),
  (W, "        let mut groups = vec![];\n        for group in &self.groups {\n            let need_add", "        let mut groups = vec![];\n        if !self.grouped.contains(&type_id) { return groups; }\n        for group in &self.groups {\n            let need_add"))
e("q-get-cache", (SP, "    pub (in crate) data : Vec<T>\n", "    pub (in crate) data : Vec<T>,\n    last : (usize,usize)\n"), (SP, "            data: vec![]\n", "            data: vec![],\n            last : (0,0)\n"),
  (SP, "            self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);", "            self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);\n            self.last = (entity_,self.entities.len());"),
  (SP, "    pub fn get(&self,entity : E) -> Option<&T> {\n        let entity : usize = entity.into();\n", "    pub fn get(&self,entity : E) -> Option<&T> {\n        let entity : usize = entity.into();\n        if self.last.0 == entity { return self.data.get(self.last.1); }\n"), exp="P08")
e("q-grow-pow2", (SP, "        while self.indices.len() <= entity_ {\n            self.indices.push(None);\n        }\n", "        if self.indices.len() <= entity_ {\n            self.indices.resize(entity_.next_power_of_two(),None);\n        }\n"), exp="P08")
e("q-grow-pow2-ok", (SP, "        while self.indices.len() <= entity_ {\n            self.indices.push(None);\n        }\n", "        if self.indices.len() <= entity_ {\n            self.indices.resize((entity_ + 1).next_power_of_two(),None);\n        }\n"))
e("q-groups-try", (W, "                groups.push(group.write())\n", "                if let Some(group) = group.try_write() { groups.push(group) }\n"), exp="P10")
e("q-read-try", (W, ".map(|rwlock|rwlock.read())", ".map(|rwlock|rwlock.try_read().expect(\"storage is in use\"))"), exp="P25")
e("q-read-recursive-ok", (W, ".map(|rwlock|rwlock.read())", ".map(|rwlock|rwlock.read_recursive())"))
e("q-upgradable-ok", (W, "            let need_remove = {\n                let storage = storage.read();\n                storage.has(entity_id)\n            };\n            if need_remove {\n                storage.write().remove(entity_id);\n            }\n", "            let storage = storage.upgradable_read();\n            if storage.has(entity_id) {\n                parking_lot::RwLockUpgradableReadGuard::upgrade(storage).remove(entity_id);\n            }\n"))
e("q-exist-upgradable", (W, "        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)", "        let entity_manager = self.entity_manager.upgradable_read();\n        entity_manager.has(entity_id)"), exp="P28")
e("q-exist-ptr", (W, "        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)", "        if self.entity_manager.is_locked() {\n            return unsafe { &*self.entity_manager.data_ptr() }.has(entity_id);\n        }\n        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)"), exp="P02")
e("q-make-getmut-ok", (W, "        let group = self.groups.last().unwrap();\n        let mut group = group.write();\n        match &mut *group{", "        let mut group = self.groups.pop().unwrap().into_inner();\n        match &mut group{"), (W, "                data.make(&comp_a,&comp_b);\n            },\n        }\n    }\n\n    /// Check if (group)", "                data.make(&comp_a,&comp_b);\n            },\n        }\n        self.groups.push(RwLock::new(group));\n    }\n\n    /// Check if (group)"))
e("q-make-first-ok", (W, "        self.groups.push(RwLock::new(group));\n        let group = self.groups.last().unwrap();\n        let mut group = group.write();\n        match &mut *group{", "        let mut group = group;\n        match &mut group{"), (W, "                data.make(&comp_a,&comp_b);\n            },\n        }\n    }\n\n    /// Check if (group)", "                data.make(&comp_a,&comp_b);\n            },\n        }\n        self.groups.push(RwLock::new(group));\n    }\n\n    /// Check if (group)"))
e("q-iter-release", (Q, "pub struct IterRef<'a,T> {\n    index : usize,\n    sparse_set : *const SparseSet<EntityId,T>,\n    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>\n}", "pub struct IterRef<'a,T> {\n    index : usize,\n    sparse_set : *const SparseSet<EntityId,T>,\n    borrow : Option<RwLockReadGuard<'a,Box<dyn ComponentStorage>>>\n}"),
  (Q, "            borrow : storage\n", "            borrow : Some(storage)\n"),
  (Q, "        if self.index < self.borrow.count() {", "        if self.borrow.as_ref().map_or(false,|b|self.index < b.count()) {"),
  (Q, "            Some(data)\n        } else {\n            None\n", "            Some(data)\n        } else {\n            self.borrow = None;\n            None\n"),
  (Q, "        let rem = self.borrow.count() - self.index;", "        let rem = self.borrow.as_ref().map_or(0,|b|b.count() - self.index);"),
  (Q, "        if self.index < self.borrow.count() {", "        if self.borrow.as_ref().map_or(false,|b|self.index < b.count()) {"), exp="P02")
e("q-two-cursors", (Q, "pub struct IterMut<'a,T> {\n    index : usize,", "pub struct IterMut<'a,T> {\n    index : usize,\n    id_index : usize,"), (Q, "        Box::new(IterMut{\n            index : 0,", "        Box::new(IterMut{\n            index : 0,\n            id_index : 0,"), exp="P17")
s = open("/repo/" + Q).read()
i = s.index("fn next_with_id(&mut self)", s.index("QueryIterator for IterMut"))
j = s.index("\n    }\n", i)
body = s[i:j]
E[-1][2].append((Q, s[i - 60:j], s[i - 60:i] + body.replace("self.index", "self.id_index")))
e("q-chunks", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", "        // eight at a time\n        let mut data = data.into_iter();\n        for chunk in entities.chunks_exact(8.min(entities.len().max(1))) {\n            for entity in chunk {\n                self.add(*entity,data.next().unwrap());\n            }\n        }"), exp="P08")
e("q-chunks-ok", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", "        // eight at a time\n        let mut data = data.into_iter();\n        for chunk in entities.chunks(8) {\n            for entity in chunk {\n                self.add(*entity,data.next().unwrap());\n            }\n        }"))
e("q-batch-rev", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", "        for (entity,data) in entities.iter().rev().zip(data) {\n            self.add(*entity,data);\n        }"), exp="P26")
e("q-batch-rev-ok", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", "        let mut entities = entities.iter();\n        data.into_iter().for_each(|data|self.add(*entities.next().unwrap(),data));"))
e("q-guard-map-ok", (W, "    pub fn components_read<T : Component>(&self) -> Option<StorageRead<'_,T>> {\n        let type_id = TypeId::of::<T>();\n        let lock = self.raw_storage_read(type_id)?;\n        Some(StorageRead::from_lock(lock))", "    pub fn components_read<T : Component>(&self) -> Option<StorageRead<'_,T>> {\n        self.components.get(&TypeId::of::<T>()).map(RwLock::read).map(StorageRead::from_lock)"))
e("q-dirty", (NO, "    sparse_set : SparseSet<EntityId,()>,\n", "    sparse_set : SparseSet<EntityId,()>,\n    pending : Vec<EntityId>,\n"), (NO, "            sparse_set : SparseSet::new(),\n", "            sparse_set : SparseSet::new(),\n            pending : vec![],\n"),
  (NO, "        self.sparse_set.remove(id).unwrap();", "        self.pending.push(id);\n        if self.pending.len() >= 8 {\n            for id in self.pending.drain(..) { self.sparse_set.remove(id); }\n        }"), exp="P11")
e("q-static-batch", (W, "        let ids = entity_manager.allocate_n(count);", "        static BATCHES : std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let nth = BATCHES.fetch_add(1,std::sync::atomic::Ordering::Relaxed);\n        let ids = entity_manager.allocate_n(if nth % 64 == 63 { count + 1 } else { count });"), exp="P06")
e("q-static-batch-ok", (W, "        let ids = entity_manager.allocate_n(count);", "        static BATCHES : std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        BATCHES.fetch_add(1,std::sync::atomic::Ordering::Relaxed);\n        let ids = entity_manager.allocate_n(count);"))
e("q-remove-skip-ungrouped", (W, "        for storage in self.components.values() {\n            let need_remove", "        let limit = self.components.len().min(16);\n        for storage in self.components.values().take(limit) {\n            let need_remove"), exp="P09")
e("q-remove-busy", (W, "                storage.write().remove(entity_id);\n", "                if let Some(mut storage) = storage.try_write() { storage.remove(entity_id); }\n"), exp="P09")
Q1 = dict((n, ed) for n, x, ed in E)
def cp(n, src, *more, exp=None):
    E.append((n, exp and {exp}, list(Q1[src]) + list(more)))
cp("r-max-id-ok", "q-max-id", (EN, "            self.entities.push(id);\n        }\n        let start_id", "            self.entities.push(id);\n            self.max = id.get();\n        }\n        let start_id"))
cp("r-cached-len-ok", "q-cached-len", (NO, "        self.sparse_set.remove(id).unwrap();", "        self.sparse_set.remove(id).unwrap();\n        self.count -= 1;"), (NO, "        self.sparse_set.clear();", "        self.sparse_set.clear();\n        self.count = 0;"),
  (NO, "                    self.sparse_set.add(entity_id,());\n", "                    self.sparse_set.add(entity_id,());\n                    self.count += 1;\n"), (NO, "                if comp_a.has(entity_id) {\n                    self.sparse_set.add(entity_id,());\n", "                if comp_a.has(entity_id) {\n                    self.sparse_set.add(entity_id,());\n                    self.count += 1;\n"))
cp("r-get-cache-ok", "q-get-cache", (SP, "            self.entities.swap_remove(index);", "            self.last = (usize::MAX,usize::MAX);\n            self.entities.swap_remove(index);"), (SP, "        self.indices.swap(entity_a,entity_b);", "        self.last = (usize::MAX,usize::MAX);\n        self.indices.swap(entity_a,entity_b);"),
  (SP, "        if self.last.0 == entity { return", "        if self.last.0 == entity && self.last.1 < self.entities.len() && self.indices.get(entity).map_or(false,|i|i.map_or(false,|i|i.get() - 1 == self.last.1)) { return"))
e("r-alive-count-ok", (EN, "    entities : Vec<EntityId>,\n}", "    entities : Vec<EntityId>,\n    alive : usize\n}"), (EN, "            entities: vec![]\n", "            entities: vec![],\n            alive : 0\n"),
  (EN, "            self.entities.push(last_id);\n", "            self.entities.push(last_id);\n            self.alive += 1;\n"), (EN, "            self.entities.push(id);\n            self.entity_flags.push", "            self.entities.push(id);\n            self.alive += 1;\n            self.entity_flags.push"),
  (EN, "        start_id..end_id\n", "        self.alive += n;\n        start_id..end_id\n"), (EN, "            self.entities.swap_remove(index);\n", "            self.entities.swap_remove(index);\n            self.alive -= 1;\n"),
  (EN, "        self.entities.len()\n    }\n}", "        self.alive\n    }\n}"))
e("r-sparse-count-ok", (SP, "    pub (in crate) data : Vec<T>\n", "    pub (in crate) data : Vec<T>,\n    count : usize\n"), (SP, "            data: vec![]\n", "            data: vec![],\n            count : 0\n"),
  (SP, "        self.data.clear();\n", "        self.data.clear();\n        self.count = 0;\n"), (SP, "            self.data.push(data);\n        }", "            self.data.push(data);\n            self.count += 1;\n        }"),
  (SP, "            self.entities.swap_remove(index);\n", "            self.entities.swap_remove(index);\n            self.count -= 1;\n"), (SP, "    pub fn len(&self) -> usize {\n        self.entities.len()", "    pub fn len(&self) -> usize {\n        self.count"), (SP, "        self.entities.len() == 0", "        self.count == 0"))
e("r-sparse-count-bad", (SP, "    pub (in crate) data : Vec<T>\n", "    pub (in crate) data : Vec<T>,\n    count : usize\n"), (SP, "            data: vec![]\n", "            data: vec![],\n            count : 0\n"),
  (SP, "        self.data.clear();\n", "        self.data.clear();\n        self.count = 0;\n"), (SP, "            self.data.push(data);\n        }", "            self.data.push(data);\n        }\n        self.count += 1;"),
  (SP, "            self.entities.swap_remove(index);\n", "            self.entities.swap_remove(index);\n            self.count -= 1;\n"), (SP, "    pub fn len(&self) -> usize {\n        self.entities.len()", "    pub fn len(&self) -> usize {\n        self.count"), (SP, "        self.entities.len() == 0", "        self.count == 0"), exp="P08")
e("r-free-count-ok", (EN, "    entities : Vec<EntityId>,\n}", "    entities : Vec<EntityId>,\n    free : usize\n}"), (EN, "            entities: vec![]\n", "            entities: vec![],\n            free : 0\n"),
  (EN, "        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {\n", "        if self.free > 0 {\n            let last_id = if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() { last_id } else { unreachable!() };\n            self.free -= 1;\n"),
  (EN, "            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));", "            self.free += 1;\n            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));"))
