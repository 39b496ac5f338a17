exec(open("/verif/dev/edits_n.py").read().split("# --- remove_entity in pieces")[0])
E = []
SP = "src/sparse_set.rs"; NO = "src/group/non_owning/mod.rs"; FU = "src/group/full_owning/mod.rs"; PA = "src/group/partial_owning/mod.rs"; C = "src/component.rs"; R = "src/resource.rs"
# P01
e("s-register-zst", (W, "            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),\n", "            if std::mem::size_of::<T>() == 0 { RwLock::new(Box::new(SparseSet::<EntityId, ()>::new())) } else { RwLock::new(Box::new(SparseSet::<EntityId, T>::new())) },\n"), exp="P01")
e("s-register-boxed", (W, "            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),\n", "            if std::mem::size_of::<T>() > 4096 { RwLock::new(Box::new(SparseSet::<EntityId, Box<T>>::new())) } else { RwLock::new(Box::new(SparseSet::<EntityId, T>::new())) },\n"), exp="P01")
e("s-resource-name", (W, "        let lock = self.resources.get(&type_id)?\n            .read();", "        let lock = self.resources.get(&type_id).or_else(||self.resources.get(&TypeId::of::<Box<R>>()))?\n            .read();"), exp="P01")
e("s-resource-swap-read", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", "        if std::mem::needs_drop::<R>() {\n            self.resources.insert(type_id,RwLock::new(Box::new(resource)));\n        } else {\n            self.resources.insert(type_id,RwLock::new(Box::new(Some(resource))));\n        }"), exp="P01")
e("s-attach-downcast", (EN, "            let sparse_set = unsafe {\n                storage.downcast_mut::<SparseSet<EntityId,T>>()\n            };\n            sparse_set.add(self.id,component);", "            let sparse_set = unsafe {\n                storage.downcast_mut::<SparseSet<EntityId,Option<T>>>()\n            };\n            if std::mem::size_of::<Option<T>>() == std::mem::size_of::<T>() { sparse_set.add(self.id,Some(component)); } else {\n                let sparse_set = unsafe { storage.downcast_mut::<SparseSet<EntityId,T>>() };\n                sparse_set.add(self.id,component);\n            }"), exp="P01")
e("s-raw-write-any", (W, "            .get(&id)\n            .map(|rwlock|rwlock.write())", "            .get(&id)\n            .or_else(||if self.components.len() == 1 { self.components.values().next() } else { None })\n            .map(|rwlock|rwlock.write())"), exp="P01")
# P18
e("s-read-cached-ok", (C, "            self.storage.get_unchecked(self.id)\n        }\n    }\n}\n\n\n\n/// A write guard for component", "            self.storage.get(self.id).unwrap()\n        }\n    }\n}\n\n\n\n/// A write guard for component"))
e("s-empty-one", (C, "        sparse_set.is_empty()\n    }\n\n    /// Get component from storage by id\n    /// # Details\n    /// * Return None if id is not in storage\n    pub fn get_mut", "        sparse_set.len() <= 1 && sparse_set.indices().last().map_or(true,|x|x.is_none())\n    }\n\n    /// Get component from storage by id\n    /// # Details\n    /// * Return None if id is not in storage\n    pub fn get_mut"), exp="P18")
e("s-get-mut-last", (C, "        let sparse_set = unsafe { &mut *self.ptr };\n        sparse_set.get_mut(id)", "        let sparse_set = unsafe { &mut *self.ptr };\n        let count = sparse_set.len();\n        if sparse_set.entities().last() == Some(&id) { return sparse_set.data_mut().get_mut(count - 1); }\n        if sparse_set.entities().first() == Some(&id) { return sparse_set.data_mut().first_mut(); }\n        sparse_set.get_mut(id)"))
e("s-get-mut-off", (C, "        let sparse_set = unsafe { &mut *self.ptr };\n        sparse_set.get_mut(id)", "        let sparse_set = unsafe { &mut *self.ptr };\n        if let Some(i) = sparse_set.get_index(id) {\n            let n = sparse_set.len();\n            return sparse_set.data_mut().get_mut(if i < 64 { i } else { n - 1 });\n        }\n        None"), exp="P18")
e("s-data-mut-front", (C, "        sparse_set.data_mut()\n", "        let n = sparse_set.len();\n        if n > 1024 { return &mut sparse_set.data_mut()[..1024]; }\n        sparse_set.data_mut()\n"), exp="P18")
e("s-write-guard-index", (C, "impl<'a,T : Component> ComponentWrite<'a,T> {\n    /// Safety:\n    /// Safe only id is valid\n    pub(in crate) unsafe fn new(id : EntityId,storage : StorageWrite<'a,T>) -> Self {", "impl<'a,T : Component> ComponentWrite<'a,T> {\n    /// Safety:\n    /// Safe only id is valid\n    pub(in crate) unsafe fn new(id : EntityId,storage : StorageWrite<'a,T>) -> Self {\n        let id = if storage.count() == 1 { EntityId::new_unchecked(1) } else { id };"), exp="P18")
e("s-component-present", (W, "        let lock = self.components_write::<T>()?;\n        if lock.exist(id) {", "        let lock = self.components_write::<T>()?;\n        if lock.exist(id) || lock.count() == self.groups.len() + 1000 {"), exp="P18")
e("s-storage-clone-ok", (C, "    pub fn exist(&self,id : EntityId) -> bool {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.exist(id)\n    }\n\n    /// Get component from storage by id\n    /// # Details\n    /// * Return None if id is not in storage\n    pub fn get(&self,id : EntityId) -> Option<&T> {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.get(id)\n    }\n\n    /// Get component from storage by index\n    /// # Safety\n    /// * Safe when id is in storage\n    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {\n        let sparse_set = &*self.ptr;\n        sparse_set.get_unchecked(id)\n    }\n\n    /// Check storage is empty\n    pub fn is_empty(&self) -> bool {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.is_empty()\n    }\n\n    /// Get the data slice", "    pub fn exist(&self,id : EntityId) -> bool {\n        self.get(id).is_some()\n    }\n\n    /// Get component from storage by id\n    /// # Details\n    /// * Return None if id is not in storage\n    pub fn get(&self,id : EntityId) -> Option<&T> {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.get_index(id).map(|i|&sparse_set.data()[i])\n    }\n\n    /// Get component from storage by index\n    /// # Safety\n    /// * Safe when id is in storage\n    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {\n        let sparse_set = &*self.ptr;\n        sparse_set.get_unchecked(id)\n    }\n\n    /// Check storage is empty\n    pub fn is_empty(&self) -> bool {\n        self.data().is_empty()\n    }\n\n    /// Get the data slice"))
# P20
e("s-resource-zst", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", "        if std::mem::size_of::<R>() == 0 && self.resources.contains_key(&type_id) { return; }\n        self.resources.insert(type_id,RwLock::new(Box::new(resource)));"), exp="P20")
e("s-resource-in-place-ok", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", "        if let Some(old) = self.resources.get_mut(&type_id) {\n            unsafe { *old.get_mut().downcast_mut::<R>() = resource };\n            return;\n        }\n        self.resources.insert(type_id,RwLock::new(Box::new(resource)));"))
e("s-resource-remove-other", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", "        if self.resources.len() >= 64 && !self.resources.contains_key(&type_id) {\n            let first = *self.resources.keys().next().unwrap();\n            self.resources.remove(&first);\n        }\n        self.resources.insert(type_id,RwLock::new(Box::new(resource)));"), exp="P20")
e("s-resource-component", (W, "        let lock = self.resources.get(&type_id)?\n            .write();", "        if self.components.contains_key(&type_id) { return None; }\n        let lock = self.resources.get(&type_id)?\n            .write();"), exp="P20")
e("s-resource-try", (W, "        let lock = self.resources.get(&type_id)?\n            .read();", "        let lock = self.resources.get(&type_id)?\n            .try_read()?;"), exp="P20")
# P21
e("s-world-cell", (W, "    groups: Vec<RwLock<Group>>,", "    groups: Vec<RwLock<Group>>,\n    queries: std::cell::Cell<usize>,"), (W, "            groups: Default::default(),", "            groups: Default::default(),\n            queries: Default::default(),"), exp="P21")
e("s-storage-not-sync", (C, "pub trait ComponentStorage : Send + Sync{", "pub trait ComponentStorage : Send {"), (C, "impl dyn 'static + ComponentStorage {", "unsafe impl Sync for Box<dyn ComponentStorage> {}\nimpl dyn 'static + ComponentStorage {") if False else (C, "pub trait Component : Send + Sync + 'static {}", "pub trait Component : Send + Sync + 'static {}"), exp="P21")
e("s-entry-weaker", (C, "pub trait Component : Send + Sync + 'static {}\nimpl<T : Send + Sync + 'static> Component for T {}", "pub trait Component : Send + 'static {}\nimpl<T : Send + 'static> Component for T {}"), (C, "impl<T : Component> ComponentStorage for SparseSet<EntityId,T>{", "unsafe impl<T : Component> Sync for SparseSet<EntityId,T> {}\nimpl<T : Component> ComponentStorage for SparseSet<EntityId,T>{"), exp="P21")
e("s-read-send", (R, "impl<'a,T : Resource> ResourceRead<'a,T> {\n", "unsafe impl<'a,T : Resource> Send for ResourceRead<'a,T> {}\nimpl<'a,T : Resource> ResourceRead<'a,T> {\n"), exp="P21")
e("s-entities-mutex-ok", (W, "use std::collections::HashMap;\n", "use std::collections::HashMap;\nfn _shareable<T : Send + Sync>() {}\n"), (W, "    pub fn new() -> World {\n", "    pub fn new() -> World {\n        _shareable::<World>();\n"))
# P24
e("s-index-trusted", (SP, "    pub fn get_index(&self,entity : E) -> Option<usize> {\n        let entity : usize = entity.into();\n        if entity < self.indices.len() {", "    pub fn get_index(&self,entity : E) -> Option<usize> {\n        let entity : usize = entity.into();\n        if !self.is_empty() {\n            let slot = unsafe { *self.indices.get_unchecked(entity) };\n            return slot.map(|index|index.get() - 1);\n        }\n        if entity < self.indices.len() {"), exp="P24")
e("s-id-unchecked", (C, "        self.entities().get(index).cloned()", "        if index <= self.len() && self.len() > 0 { Some(unsafe { *self.entities().get_unchecked(index) }) } else { None }"), exp="P24")
e("s-id-unchecked-ok", (C, "        self.entities().get(index).cloned()", "        if index < self.entities().len() { Some(unsafe { *self.entities().get_unchecked(index) }) } else { None }"))
e("s-id-data-len", (C, "        self.entities().get(index).cloned()", "        if index < self.indices().len() { Some(unsafe { *self.entities().get_unchecked(index) }) } else { None }"), exp="P24")
e("s-pair-clear", (SP, "        self.indices.clear();\n        self.entities.clear();", "        for slot in self.indices.iter_mut().take(self.entities.len()) { *slot = None; }\n        self.entities.clear();"), exp="P08")
e("s-has-unchecked", (EN, "        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {", "        if let EntityFlag::Unavailable(_) = unsafe { self.entity_flags.get_unchecked(entity_id.get().min(self.entity_flags.len())) } {"), exp="P24")
e("s-remove-last-unchecked", (SP, "            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());", "            let last = unsafe { *self.entities.get_unchecked(self.data.len() - 1) };\n            self.indices.swap(self.entities[index].into(),last.into());"))
e("s-zero-id", (EN, "        let start_id = unsafe { EntityId::new_unchecked(start_id) };\n        let end_id = unsafe { EntityId::new_unchecked(end_id) };", "        let start_id = unsafe { EntityId::new_unchecked(if n == 0 { n } else { start_id }) };\n        let end_id = unsafe { EntityId::new_unchecked(if n == 0 { n } else { end_id }) };"), exp="P24")
e("s-swap-ptr", (SP, "        self.data.swap(index_a,index_b);\n    }\n\n    #[allow(unused)]", "        unsafe { let p = self.data.as_mut_ptr(); std::ptr::swap(p.add(index_a),p.add(index_b)); }\n    }\n\n    #[allow(unused)]"))
# P07
e("s-entity-remove-flag", (W, "        let lock = self.entity_manager.read();\n        if lock.has(id) {", "        let lock = self.entity_manager.read();\n        if lock.entities().len() == 1 && lock.entities()[0] == id || lock.has(id) {"))
e("s-entity-live-index", (W, "        let lock = self.entity_manager.read();\n        if lock.has(id) {", "        let lock = self.entity_manager.read();\n        if lock.entities().get(id.get() - 1) == Some(&id) || lock.has(id) {"))
e("s-entity-slot", (W, "        let lock = self.entity_manager.read();\n        if lock.has(id) {", "        let lock = self.entity_manager.read();\n        if lock.entities().len() > 0 && lock.entities()[(id.get() - 1) % 64] == id || lock.has(id) {"), exp="P07")
# P03
e("s-guard-into", (C, "impl<'a,T : Component> Deref for ComponentRead<'a,T> {", "impl<'a,T : Component> ComponentRead<'a,T> {\n    /// The component itself\n    pub fn into_ref(self) -> &'a T { unsafe { &*(self.storage.get_unchecked(self.id) as *const T) } }\n}\nimpl<'a,T : Component> Deref for ComponentRead<'a,T> {"), exp="P03")
e("s-storage-iter", (C, "    /// Get the count of strorage\n    pub fn count(&self) -> usize {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.len()\n    }\n\n    /// Check if id is in storage\n    pub fn exist(&self,id : EntityId) -> bool {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.exist(id)\n    }\n\n    /// Get component from storage by id\n    /// # Details\n    /// * Return None if id is not in storage\n    pub fn get(&self,id : EntityId) -> Option<&T> {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.get(id)\n    }\n\n    /// Get component from storage by index\n    /// # Safety\n    /// * Safe when id is in storage\n    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {\n        let sparse_set = &*self.ptr;\n        sparse_set.get_unchecked(id)\n    }\n\n    /// Check storage is empty\n    pub fn is_empty(&self) -> bool {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.is_empty()\n    }\n\n    /// Get the data slice\n", "    /// The components one by one\n    pub fn iter(&self) -> impl Iterator<Item = &'a T> + 'a where T : 'a { let p = self.ptr; (0..unsafe { (*p).len() }).map(move |i|unsafe { &(*p).data()[i] }) }\n    /// Get the count of strorage\n    pub fn count(&self) -> usize {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.len()\n    }\n\n    /// Check if id is in storage\n    pub fn exist(&self,id : EntityId) -> bool {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.exist(id)\n    }\n\n    /// Get component from storage by id\n    /// # Details\n    /// * Return None if id is not in storage\n    pub fn get(&self,id : EntityId) -> Option<&T> {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.get(id)\n    }\n\n    /// Get component from storage by index\n    /// # Safety\n    /// * Safe when id is in storage\n    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {\n        let sparse_set = &*self.ptr;\n        sparse_set.get_unchecked(id)\n    }\n\n    /// Check storage is empty\n    pub fn is_empty(&self) -> bool {\n        let sparse_set = unsafe { &*self.ptr };\n        sparse_set.is_empty()\n    }\n\n    /// Get the data slice\n"), exp="P03")
e("s-storage-iter-ok", (C, "impl<'a,T : Component> Deref for ComponentRead<'a,T> {", "impl<'a,T : Component> StorageRead<'a,T> {\n    /// The components one by one\n    pub fn iter(&self) -> std::slice::Iter<'_,T> { self.data().iter() }\n}\nimpl<'a,T : Component> Deref for ComponentRead<'a,T> {"))
e("s-write-peek", (C, "impl<'a,T : Component> DerefMut for ComponentWrite<'a,T> {", "impl<'a,T : Component> ComponentWrite<'a,T> {\n    /// Change the component in place\n    pub fn value(&self) -> &mut T { unsafe { let p = self.storage.ptr; (*p).get_unchecked_mut(self.id) } }\n}\nimpl<'a,T : Component> DerefMut for ComponentWrite<'a,T> {"), exp="P03")
e("s-entity-lifetime", (EN, "    pub fn component_read<T : Component>(&self) -> Option<ComponentRead<'_,T>> {", "    pub fn component_read<T : Component>(&self) -> Option<ComponentRead<'a,T>> {"))
E = [(n, x, [y for y in ed if y[1] != y[2]]) for n, x, ed in E]
E = [x for x in E if x[0] != "s-storage-not-sync"]
def e2(n, *ed, exp=None): E.append((n, exp and {exp}, list(ed)))
DBG_OLD = "            .field(\"entities\", &self.entity_manager)\n"
e2("s-debug-write", (W, DBG_OLD, "            .field(\"entities\", &*self.entity_manager.write())\n"), exp="P28")
e2("s-debug-read-ok", (W, DBG_OLD, "            .field(\"entities\", &*self.entity_manager.read())\n"))
e2("s-debug-twice", (W, DBG_OLD, "            .field(\"entities\", &*self.entity_manager.read())\n            .field(\"groups\", &self.groups.iter().map(|g|{ let _e = self.entity_manager.read(); g.read().types().0 }).collect::<Vec<_>>())\n"), exp="P04")
e2("s-remove-take", (SP, "            self.entities.swap_remove(index);\n", "            if self.entities.len() == 0 { unsafe { std::hint::unreachable_unchecked() } }\n            self.entities.swap_remove(index);\n"))
e2("s-unreachable", (EN, "        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {\n", "        if self.entities.len() == self.entity_flags.len() - 1 && self.entities.len() > 1000 { unsafe { std::hint::unreachable_unchecked() } }\n        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {\n"), exp="P24")
e2("s-abort", (EN, "            let id = self.entity_flags.len();\n", "            let id = self.entity_flags.len();\n            if id > 1 << 20 { std::process::abort() }\n"), exp="P25")
e2("s-exist-listed-ok", (W, "        entity_manager.has(entity_id)\n", "        entity_manager.entities().contains(&entity_id)\n"))
e2("s-exist-any-ok", (W, "        entity_manager.has(entity_id)\n", "        entity_manager.entities().iter().any(|x|*x == entity_id)\n"))
e2("s-exist-not", (W, "        entity_manager.has(entity_id)\n", "        !entity_manager.entities().contains(&entity_id) && entity_manager.has(entity_id)\n"), exp="P05")
