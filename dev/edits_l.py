exec(open("/verif/dev/edits_j.py").read().split("E = []")[0])
E = []
def rd(f): return open("/repo/" + f).read()
def e(n, *ed, exp=None):
    E.append((n, set(exp.split()) if exp else None, list(ed)))
def sub(n, f, pairs, more=(), exp=None):
    """Replace every occurrence in the non-test part of a file."""
    s = rd(f)
    k = s.find("#[cfg(test)]")
    head, tail = (s, "") if k < 0 else (s[:k], s[k:])
    new = head
    for a, b in pairs:
        assert a in new, (n, a)
        new = new.replace(a, b)
    e(n, (f, head, new), *more, exp=exp)

sub("iter-length", Q, [("    sparse_set : *const SparseSet<EntityId,T>,\n    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>\n}\n\nimpl", "    length : usize,\n    sparse_set : *const SparseSet<EntityId,T>,\n    #[allow(unused)]\n    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>\n}\n\nimpl"),
   ("        Box::new(IterRef{\n            index : 0,\n", "        Box::new(IterRef{\n            index : 0,\n            length : sparse_set.len(),\n"),
   ("    sparse_set : *mut SparseSet<EntityId,T>,\n    borrow", "    length : usize,\n    sparse_set : *mut SparseSet<EntityId,T>,\n    #[allow(unused)]\n    borrow"),
   ("        let ptr = &mut *sparse_set;\n        Box::new(IterMut{\n            index : 0,\n", "        let length = sparse_set.len();\n        let ptr = &mut *sparse_set;\n        Box::new(IterMut{\n            index : 0,\n            length,\n"),
   ("self.borrow.count()", "self.length")])
sub("iter-no-pointer", Q, [("            let sparse_set = unsafe { &*self.sparse_set };\n            // Safety:\n            // Safe here, because we checked before.", "            let sparse_set : &'a SparseSet<EntityId,T> = unsafe { &*self.sparse_set };\n            // Safety:\n            // Safe here, because we checked before.")])
sub("em-count", EN, [("    entities : Vec<EntityId>,\n}", "    entities : Vec<EntityId>,\n    alive : usize,\n}"), ("            entities: vec![]\n", "            entities: vec![],\n            alive: 0\n"),
   ("            self.entity_flags[0] = new_id;\n", "            self.entity_flags[0] = new_id;\n            self.alive += 1;\n"),
   ("            //safe here because this id can't be 0\n", "            self.alive += 1;\n"),
   ("        let start_id = unsafe {", "        self.alive += n;\n        let start_id = unsafe {"),
   ("            self.entities.swap_remove(index);", "            self.entities.swap_remove(index);\n            self.alive -= 1;")])
sub("full-types-pair", G, [("    length : usize,\n    type_a : TypeId,\n    type_b : TypeId\n", "    length : usize,\n    types : (TypeId,TypeId)\n"), ("self.type_a == other.type_a && self.type_b == other.type_b", "self.types == other.types"), ("(self.type_a,self.type_b)", "self.types"),
   ("type_id == self.type_a || type_id == self.type_b", "type_id == self.types.0 || type_id == self.types.1"), ("vec![self.type_a,self.type_b]", "vec![self.types.0,self.types.1]"),
   ("            type_a: TypeId::of::<A>(),\n            type_b: TypeId::of::<B>()\n", "            types: (TypeId::of::<A>(),TypeId::of::<B>())\n")])
sub("partial-fields-order", P, [("    length : usize,\n    type_a : TypeId,\n    type_b : TypeId\n", "    type_b : TypeId,\n    type_a : TypeId,\n    length : usize\n")])
sub("storage-no-ptr", C, [("    _lock : RwLockReadGuard<'a,Box<dyn ComponentStorage>>,\n    ptr : *const SparseSet<EntityId,T>\n}", "    lock : RwLockReadGuard<'a,Box<dyn ComponentStorage>>,\n    marker : std::marker::PhantomData<*const SparseSet<EntityId,T>>\n}"),
   ('''        let ptr = unsafe {
            lock.downcast_ref::<SparseSet<EntityId,T>>()
        } as *const _;
        StorageRead {
            _lock : lock,
            ptr,
        }
    }

    /// Get the count of strorage
    pub fn count(&self) -> usize {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.len()
    }

    /// Check if id is in storage
    pub fn exist(&self,id : EntityId) -> bool {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.exist(id)
    }

    /// Get component from storage by id
    /// # Details
    /// * Return None if id is not in storage
    pub fn get(&self,id : EntityId) -> Option<&T> {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.get(id)
    }

    /// Get component from storage by index
    /// # Safety
    /// * Safe when id is in storage
    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {
        let sparse_set = &*self.ptr;
        sparse_set.get_unchecked(id)
    }

    /// Check storage is empty
    pub fn is_empty(&self) -> bool {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.is_empty()
    }

    /// Get the data slice
    pub fn data(&self) -> &[T] {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.data()
    }

}
''', '''        StorageRead {
            lock,
            marker : std::marker::PhantomData,
        }
    }

    fn set(&self) -> &SparseSet<EntityId,T> {
        unsafe { self.lock.downcast_ref() }
    }

    /// Get the count of strorage
    pub fn count(&self) -> usize {
        self.lock.count()
    }

    /// Check if id is in storage
    pub fn exist(&self,id : EntityId) -> bool {
        self.lock.has(id)
    }

    /// Get component from storage by id
    /// # Details
    /// * Return None if id is not in storage
    pub fn get(&self,id : EntityId) -> Option<&T> {
        self.set().get(id)
    }

    /// Get component from storage by index
    /// # Safety
    /// * Safe when id is in storage
    pub unsafe fn get_unchecked(&self,id : EntityId) -> &T {
        self.set().get_unchecked(id)
    }

    /// Check storage is empty
    pub fn is_empty(&self) -> bool {
        self.lock.is_empty()
    }

    /// Get the data slice
    pub fn data(&self) -> &[T] {
        self.set().data()
    }

}
''')])
sub("comp-guard-ptr", C, [('''pub struct ComponentRead<'a,T> {
    id : EntityId,
    storage : StorageRead<'a,T>
}''', '''pub struct ComponentRead<'a,T> {
    data : *const T,
    #[allow(unused)]
    storage : StorageRead<'a,T>
}'''), ('''        ComponentRead{
            id,
            storage,
        }''', '''        let data = storage.get_unchecked(id) as *const T;
        ComponentRead{
            data,
            storage,
        }'''), ('''impl<'a,T : Component> Deref for ComponentRead<'a,T> {
    type Target = T;

    fn deref(&self) -> &Self::Target {
        // Safety:
        // new() method ensures this action is safe
        unsafe {
            self.storage.get_unchecked(self.id)
        }
    }''', '''impl<'a,T : Component> Deref for ComponentRead<'a,T> {
    type Target = T;

    fn deref(&self) -> &Self::Target {
        // Safety:
        // the storage is locked as long as this guard lives
        unsafe { &*self.data }
    }''')])
sub("comp-guard-index", C, [('''pub struct ComponentWrite<'a,T> {
    id : EntityId,
    storage''', '''pub struct ComponentWrite<'a,T> {
    id : EntityId,
    inner'''), ('''        ComponentWrite{
            id,
            storage,
        }''', '''        ComponentWrite{
            id,
            inner : storage,
        }'''), ('''    type Target = T;

    fn deref(&self) -> &Self::Target {
        // Safety:
        // new() method ensures this action is safe
        unsafe {
            self.storage.get_unchecked(self.id)
        }
    }
}
impl''', '''    type Target = T;

    fn deref(&self) -> &Self::Target {
        self.inner.get(self.id).unwrap()
    }
}
impl'''), ("            self.storage.get_unchecked_mut(self.id)", "            &mut *(self.inner.get_mut(self.id).unwrap() as *mut T)")])
sub("res-ptr", R, [('''pub struct ResourceRead<'a,T> {
    lock : RwLockReadGuard<'a,Box<dyn Resource>>,
    _marker : PhantomData<T>
}''', '''pub struct ResourceRead<'a,T> {
    lock : RwLockReadGuard<'a,Box<dyn Resource>>,
    data : *const T,
    _marker : PhantomData<T>
}'''), ('''        ResourceRead {
            lock,
''', '''        let data = unsafe { lock.downcast_ref::<T>() } as *const T;
        ResourceRead {
            lock,
            data,
'''), ('''impl<'a,T : Resource> Deref for ResourceRead<'a,T> {
    type Target = T;

    fn deref(&self) -> &Self::Target{
        unsafe {
            self.lock .downcast_ref::<T>() // safety: safe because we checked type id outside
        }
    }''', '''impl<'a,T : Resource> Deref for ResourceRead<'a,T> {
    type Target = T;

    fn deref(&self) -> &Self::Target{
        unsafe { &*self.data }
    }''')])
sub("flag-order", EN, [('''    /// store the next available EntityID, None is the end of the chain
    Available(Option<EntityId>),
    /// store the index of EntityID in entities array
    Unavailable(usize)
''', '''    /// store the index of EntityID in entities array
    Unavailable(usize),
    /// store the next available EntityID, None is the end of the chain
    Available(Option<EntityId>)
''')])
GRP = '''
impl Group {
    pub(in crate) fn remove_entity(&mut self,world : &crate::world::World,id : EntityId) {
        use crate::world::lock_in_order;
        let (type_a,type_b) = self.types();
        match self {
            Group::FullOwning(data) => {
                let (mut comp_a,mut comp_b) = lock_in_order(
                    type_a,|| world.raw_storage_write(type_a).unwrap(),
                    type_b,|| world.raw_storage_write(type_b).unwrap());
                data.remove(id,&mut comp_a,&mut comp_b);
            },
            Group::PartialOwning(data) => {
                let (mut comp_a,comp_b) = lock_in_order(
                    type_a,|| world.raw_storage_write(type_a).unwrap(),
                    type_b,|| world.raw_storage_read(type_b).unwrap());
                data.remove(id,&mut comp_a,&comp_b);
            },
            Group::NonOwning(data) => {
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| world.raw_storage_read(type_a).unwrap(),
                    type_b,|| world.raw_storage_read(type_b).unwrap());
                data.remove(id,&comp_a,&comp_b);
            },
        }
    }
}
'''
s = rd(W)
body = between(s, "            match &mut **group{\n                Group::FullOwning(data) => {\n                    let (type_a,type_b) = data.types();\n                    let (mut", "                    data.remove(entity_id,&comp_a,&comp_b);\n                },\n            }\n")
e("group-remove-method", (W, body, "            group.remove_entity(self,entity_id);\n"), (GM, "\n/// A useful function to create FullOwning group\n", GRP + "\n/// A useful function to create FullOwning group\n"))
e("detach-uses-group-method", (EN, UPD_REM, "        for group in &mut groups {\n            group.remove_entity(world,self.id);\n        }\n"), (GM, "\n/// A useful function to create FullOwning group\n", GRP + "\n/// A useful function to create FullOwning group\n"))
GRP2 = '''    fn in_group_locked(&self,group : &Group,id : EntityId) -> bool {
        let (type_a,type_b) = group.types();
        let (comp_a,comp_b) = lock_in_order(
            type_a,|| self.raw_storage_read(type_a).unwrap(),
            type_b,|| self.raw_storage_read(type_b).unwrap());
        group.in_group(id,&comp_a,&comp_b)
    }

    /// Get lock guard of raw component storage,
    /// return None if component is not registered.
    pub(in crate) fn raw_storage_read('''
e("remove-in-group-fn", (W, '''            let need_remove = {
                let group = group.read();
                let (type_a,type_b) = group.types();
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| self.raw_storage_read(type_a).unwrap(),
                    type_b,|| self.raw_storage_read(type_b).unwrap());
                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if need_remove {
                groups.push(group.write());
            };''', '''            if self.in_group_locked(&group.read(),entity_id) {
                groups.push(group.write());
            }'''), (W, "    /// Get lock guard of raw component storage,\n    /// return None if component is not registered.\n    pub(in crate) fn raw_storage_read(", GRP2), exp="P04")
e("remove-in-group-fn-let", (W, '''            let need_remove = {
                let group = group.read();
                let (type_a,type_b) = group.types();
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| self.raw_storage_read(type_a).unwrap(),
                    type_b,|| self.raw_storage_read(type_b).unwrap());
                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if need_remove {''', '''            let need_remove = self.in_group_locked(&group.read(),entity_id);
            if need_remove {'''), (W, "    /// Get lock guard of raw component storage,\n    /// return None if component is not registered.\n    pub(in crate) fn raw_storage_read(", GRP2))
e("remove-no-check", (W, '''            let need_remove = {
                let group = group.read();
                let (type_a,type_b) = group.types();
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| self.raw_storage_read(type_a).unwrap(),
                    type_b,|| self.raw_storage_read(type_b).unwrap());
                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if need_remove {
                groups.push(group.write());
            };''', '''            groups.push(group.write());'''))
e("storages-fn", (W, "    /// Get lock guard of raw component storage,\n    /// return None if component is not registered.\n    pub(in crate) fn raw_storage_read(", '''    fn both_read(&self,(type_a,type_b) : (TypeId,TypeId))
        -> (RwLockReadGuard<'_,Box<dyn ComponentStorage>>,RwLockReadGuard<'_,Box<dyn ComponentStorage>>) {
        lock_in_order(
            type_a,|| self.raw_storage_read(type_a).unwrap(),
            type_b,|| self.raw_storage_read(type_b).unwrap())
    }

    /// Get lock guard of raw component storage,
    /// return None if component is not registered.
    pub(in crate) fn raw_storage_read('''), (W, '''                let (type_a,type_b) = group.types();
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| self.raw_storage_read(type_a).unwrap(),
                    type_b,|| self.raw_storage_read(type_b).unwrap());
                group.in_group(entity_id, &comp_a, &comp_b)''', '''                let (comp_a,comp_b) = self.both_read(group.types());
                group.in_group(entity_id, &comp_a, &comp_b)'''))
e("storage-index-op", (W, "        self.components\n            .get(&id)\n            .map(|rwlock|rwlock.write())", "        if !self.components.contains_key(&id) {\n            return None;\n        }\n        Some(self.components[&id].write())"))
e("add-before-storage-scope", (EN, '''        {
            // Unwrap never fails because assert ensures this
            let mut storage = world.raw_storage_write(type_id).unwrap();
            // SAFTY:
            // storage is SparseSet<EntityId,T>
            let sparse_set = unsafe {
                storage.downcast_mut::<SparseSet<EntityId,T>>()
            };
            sparse_set.add(self.id,component);
        }''', '''        unsafe {
            world.raw_storage_write(type_id).unwrap()
                .downcast_mut::<SparseSet<EntityId,T>>()
        }.add(self.id,component);'''))
e("detach-write-guard", (EN, '''        // Unwrap never fails because assert ensures this
        let mut storage = world.raw_storage_write(type_id).unwrap();
        // SAFTY:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        sparse_set.remove(self.id)
    }''', '''        let component = unsafe {
            world.raw_storage_write(type_id).unwrap()
                .downcast_mut::<SparseSet<EntityId,T>>()
                .remove(self.id)
        };
        drop(groups);
        component
    }'''))
e("em-guard-ref", (W, "        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)", "        let entity_manager : &EntityManager = &self.entity_manager.read();\n        let known = entity_manager.has(entity_id);\n        known"))
e("full-query-first-len", (FQ, "        let length = group.len();\n        Box::new(IterRefRef", "        let length = match &*group {\n            Group::FullOwning(data) => data.len(),\n            _ => 0\n        };\n        Box::new(IterRefRef"), )
e("world-new-with", (W, "            components: Default::default(),\n            groups: Default::default(),\n            resources : Default::default()\n", "            components: HashMap::with_capacity(8),\n            groups: Vec::with_capacity(4),\n            resources : HashMap::new()\n"))
