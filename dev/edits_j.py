W = "src/world.rs"; EN = "src/entity.rs"; SP = "src/sparse_set.rs"; G = "src/group/full_owning/mod.rs"; P = "src/group/partial_owning/mod.rs"; N = "src/group/non_owning/mod.rs"
Q = "src/query/mod.rs"; C = "src/component.rs"; R = "src/resource.rs"; WI = "src/query/with.rs"; WO = "src/query/without.rs"; FQ = "src/group/full_owning/query.rs"; NQ = "src/group/non_owning/query.rs"; PQ = "src/group/partial_owning/query.rs"; GM = "src/group/mod.rs"

ATT = open("/repo/src/entity.rs").read()
def between(s, a, b, n=0):
    i = -1
    for _ in range(n + 1):
        i = s.index(a, i + 1)
    return s[i:s.index(b, i) + len(b)]
UPD_ADD = between(ATT, "        for group in &mut groups {", "            }\n        }\n        self\n")
UPD_REM = between(ATT, "        for group in &mut groups {", "\n        }\n\n        // Unwrap", 1).replace("\n\n        // Unwrap", "\n")
UPD_BATCH = between(ATT, "        for group in &mut groups {", "            }\n        }\n        self\n", 2)
HELP = '''
/// Run an action on the data of a group and its locked storages
fn with_group<F,H,K>(world : &World,group : &mut Group,mut full : F,mut partial : H,mut non : K)
where F : FnMut(&mut crate::group::full_owning::FullOwningData,&mut Box<dyn crate::component::ComponentStorage>,&mut Box<dyn crate::component::ComponentStorage>),
      H : FnMut(&mut crate::group::partial_owning::PartialOwningData,&mut Box<dyn crate::component::ComponentStorage>,&Box<dyn crate::component::ComponentStorage>),
      K : FnMut(&mut crate::group::non_owning::NonOwningData,&Box<dyn crate::component::ComponentStorage>,&Box<dyn crate::component::ComponentStorage>) {
    let (type_a,type_b) = group.types();
    match group {
        Group::FullOwning(data) => full(data,&mut world.raw_storage_write(type_a).unwrap(),&mut world.raw_storage_write(type_b).unwrap()),
        Group::PartialOwning(data) => {
            let mut a = world.raw_storage_write(type_a).unwrap();
            let b = world.raw_storage_read(type_b).unwrap();
            partial(data,&mut a,&b)
        },
        Group::NonOwning(data) => {
            let a = world.raw_storage_read(type_a).unwrap();
            let b = world.raw_storage_read(type_b).unwrap();
            non(data,&a,&b)
        },
    }
}

#[derive(Debug,Copy,Clone)]
enum EntityFlag{'''
E = []
def e(n, *ed, exp=None):
    E.append((n, exp, list(ed)))

e("with-group-all",
  (EN, UPD_ADD, '''        let id = self.id;
        for group in &mut groups {
            with_group(world,group,|d,a,b|d.add(id,a,b),|d,a,b|d.add(id,a,b),|d,a,b|d.add(id,a,b));
        }
        self
'''),
  (EN, UPD_REM, '''        let id = self.id;
        for group in groups.iter_mut() {
            with_group(world,group,|d,a,b|d.remove(id,a,b),|d,a,b|d.remove(id,a,b),|d,a,b|d.remove(id,a,b));
        }
'''),
  (EN, "\n#[derive(Debug,Copy,Clone)]\nenum EntityFlag{", HELP))
e("add-loop-index",
  (EN, UPD_ADD, UPD_ADD.replace("for group in &mut groups {\n", "let mut n = 0;\n        while n < groups.len() {\n            let group = &mut groups[n];\n            n += 1;\n")))
e("batch-loop-ids", (EN, "                    for id in &ids {\n                        data.add(*id,&mut comp_a,&mut comp_b);\n                    }", "                    let mut rest = ids.as_slice();\n                    while let Some((id,tail)) = rest.split_first() {\n                        data.add(*id,&mut comp_a,&mut comp_b);\n                        rest = tail;\n                    }"))
e("batch-iter-for-each", (EN, "                    for id in &ids {\n                        data.add(*id,&comp_a,&comp_b);\n                    }", "                    ids.iter().for_each(|id|data.add(*id,&comp_a,&comp_b));"))
e("sp-get-helper",
  (SP, '''        let entity : usize = entity.into();
        if entity< self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                return Some(&self.data[index])
            }
        }
        None
    }
''', '''        self.get_index(entity).map(|index|&self.data[index])
    }
'''),
  (SP, '''        let entity : usize = entity.into();
        if entity < self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                return Some(&mut self.data[index])
            }
        }
        None
    }
''', '''        match self.get_index(entity) {
            Some(index) => self.data.get_mut(index),
            None => None
        }
    }
'''),
  (SP, '''        if entity < self.indices.len()  {
            self.indices[entity].is_some()
        }else{
            false
        }''', '''        matches!(self.indices.get(entity),Some(Some(_)))'''))
e("sp-index-fn",
  (SP, '''        let entity : usize = entity.into();
        if entity < self.indices.len() {
            if let Some(index) = self.indices[entity] {
                return Some(index.get() - 1);
            }
        }
        None
''', '''        let slot = *self.indices.get(entity.into())?;
        slot.map(|index|index.get() - 1)
'''))
e("sp-remove-swap-last",
  (SP, '''            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));''', '''            let last = self.entities.len() - 1;
            if index != last {
                self.swap_by_index(index,last);
            }
            self.indices[entity] = None;
            self.entities.pop();
            return self.data.pop();'''))
e("sp-remove-set-index",
  (SP, '''            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));''', '''            let data = self.data.swap_remove(index);
            self.entities.swap_remove(index);
            self.indices[entity] = None;
            if index < self.entities.len() {
                let moved : usize = self.entities[index].into();
                self.indices[moved] = NonZeroUsize::new(index + 1);
            }
            return Some(data);'''))
e("sp-add-index-const",
  (SP, '''            self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
            self.entities.push(entity);
            self.data.push(data);''', '''            self.entities.push(entity);
            self.data.push(data);
            self.indices[entity_] = NonZeroUsize::new(self.data.len());'''))
e("sp-add-mem-replace", (SP, "            self.data[index.get() - 1] = data;", "            let _old = std::mem::replace(&mut self.data[index.get() - 1],data);"))
e("sp-batch-drain", (SP, '''        for (entity,data) in entities.iter().zip(data) {
            self.add(*entity,data);
        }''', '''        let mut data = data;
        let mut entities = entities.iter();
        for data in data.drain(..) {
            self.add(*entities.next().unwrap(),data);
        }'''))
e("sp-batch-reserve", (SP, "        // an entity may already be in this set,", "        self.entities.reserve(entities.len());\n        self.data.reserve(data.len());\n        // an entity may already be in this set,"))
e("em-has-fn",
  (EN, '''        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
            true
        } else {
            false
        }
    }''', '''        self.index_of(entity_id).is_some()
    }

    fn index_of(&self,entity_id : EntityId) -> Option<usize> {
        match self.entity_flags.get(entity_id.get()) {
            Some(EntityFlag::Unavailable(index)) => Some(*index),
            _ => None
        }
    }'''),
  (EN, "        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {", "        if let Some(index) = self.index_of(entity_id) {"))
e("em-remove-order", (EN, '''            let the_last_one_id = self.entities.last().unwrap();
            // move this entity to the end of entities
            self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
            self.entities.swap_remove(index);
''', '''            self.entities.swap_remove(index);
            if let Some(moved) = self.entities.get(index) {
                self.entity_flags[moved.get()] = EntityFlag::Unavailable(index);
            }
'''))
e("em-chain-mem", (EN, '''            self.entity_flags[entity_id_] = self.entity_flags[0];
            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));''', '''            let next = std::mem::replace(&mut self.entity_flags[0],EntityFlag::Available(Some(entity_id)));
            self.entity_flags[entity_id_] = next;'''))
e("em-alloc-index", (EN, '''            self.entities.push(last_id);
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
            self.entity_flags[0] = new_id;''', '''            let index = self.entities.len();
            self.entity_flags[0] = new_id;
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(index);
            self.entities.push(last_id);'''))
e("em-alloc-n-map", (EN, '''        for id in start_id..end_id {
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
        }''', '''        self.entities.extend((start_id..end_id).map(|id|unsafe { EntityId::new_unchecked(id) }));'''))
e("em-alloc-n-new", (EN, "            let id = unsafe { EntityId::new_unchecked(id) };\n            self.entities.push(id);\n        }", "            self.entities.push(EntityId::new(id).unwrap());\n        }"))
e("w-remove-two-pass", (W, '''        for storage in self.components.values() {
            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storage.write().remove(entity_id);
            }
        }''', '''        let storages = self.components.values()
            .filter(|storage|storage.read().has(entity_id))
            .collect::<Vec<_>>();
        for storage in storages {
            storage.write().remove(entity_id);
        }'''))
e("w-remove-write-only", (W, '''            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storage.write().remove(entity_id);
            }''', '''            let mut storage = storage.write();
            if storage.has(entity_id) {
                storage.remove(entity_id);
            }'''))
e("w-remove-em-first-drop", (W, "        // remove entity from manager\n        entity_manager.remove(entity_id);", "        // remove entity from manager\n        drop(groups);\n        entity_manager.remove(entity_id);\n        drop(entity_manager);"))
e("w-remove-group-fn",
  (W, '''                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if need_remove {
                groups.push(group.write());
            };''', '''                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if !need_remove {
                continue;
            }
            groups.push(group.write());'''))
e("w-lock-in-order-cmp", (W, '''    if type_a < type_b {
        let a = lock_a();
        let b = lock_b();
        (a,b)
    } else {
        let b = lock_b();
        let a = lock_a();
        (a,b)
    }''', '''    match type_a.cmp(&type_b) {
        std::cmp::Ordering::Less => {
            let a = lock_a();
            (a,lock_b())
        }
        _ => {
            let b = lock_b();
            (lock_a(),b)
        }
    }'''))
e("w-lock-in-order-swap", (W, '''    if type_a < type_b {
        let a = lock_a();
        let b = lock_b();
        (a,b)
    } else {''', '''    if !(type_b <= type_a) {
        (lock_a(),lock_b())
    } else {'''))
e("w-groups-filter", (W, '''        let mut groups = vec![];
        for group in &self.groups {
            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
        }
        groups''', '''        self.groups.iter()
            .filter(|group| {
                let (type_id_a,type_id_b) = group.read().types();
                [type_id_a,type_id_b].contains(&type_id)
            })
            .map(|group|group.write())
            .collect()'''))
e("w-make-flat-any", (W, '''                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok''', '''                !self.groups.iter()
                    .flat_map(|world_group|world_group.read().owning())
                    .any(|owning_type|group.owned(owning_type))'''))
e("w-make-owned-by", (W, '''                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok''', '''                let owning = group.owning();
                !self.groups.iter().any(|world_group| {
                    let world_group = world_group.read();
                    owning.iter().any(|t|world_group.owned(*t))
                })'''))
e("w-make-into-inner", (W, '''        self.groups.push(RwLock::new(group));
        let group = self.groups.last().unwrap();
        let mut group = group.write();
        match &mut *group{''', '''        let mut group = group;
        match &mut group{'''),
  (W, '''                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make(&comp_a,&comp_b);
            },
        }
    }''', '''                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make(&comp_a,&comp_b);
            },
        }
        self.groups.push(RwLock::new(group));
    }'''))
e("w-register-entry2", (W, '''        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
        self''', '''        match self.components.entry(TypeId::of::<T>()) {
            std::collections::hash_map::Entry::Occupied(_) => panic!("World:Cannot register a component twice"),
            std::collections::hash_map::Entry::Vacant(entry) => {
                entry.insert(RwLock::new(Box::new(SparseSet::<EntityId,T>::new())));
            }
        }
        self'''))
e("w-resource-entry", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", '''        match self.resources.entry(type_id) {
            std::collections::hash_map::Entry::Occupied(mut old) => { old.insert(RwLock::new(Box::new(resource))); },
            std::collections::hash_map::Entry::Vacant(new) => { new.insert(RwLock::new(Box::new(resource))); }
        }'''))
e("w-resource-get-mut", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", '''        if let Some(old) = self.resources.get_mut(&type_id) {
            *old.get_mut() = Box::new(resource);
        } else {
            self.resources.insert(type_id,RwLock::new(Box::new(resource)));
        }'''))
e("w-resource-write-value", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", """        if let Some(old) = self.resources.get_mut(&type_id) {
            *unsafe { old.get_mut().downcast_mut::<R>() } = resource;
        } else {
            self.resources.insert(type_id,RwLock::new(Box::new(resource)));
        }"""))
e("w-resource-write-wrong", (W, "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", """        if let Some(old) = self.resources.get_mut(&type_id) {
            let mut resource = resource;
            std::mem::swap(unsafe { old.get_mut().downcast_mut::<R>() },&mut resource);
            std::mem::swap(unsafe { old.get_mut().downcast_mut::<R>() },&mut resource);
        } else {
            self.resources.insert(type_id,RwLock::new(Box::new(resource)));
        }"""), exp={"P20"})
e("w-entity-comp-map", (W, '''        let lock = self.components_read::<T>()?;
        if lock.exist(id) {
            Some(unsafe {
                ComponentRead::new(id,lock)
            })
        } else {
            None
        }''', '''        self.components_read::<T>()
            .filter(|lock|lock.exist(id))
            .map(|lock|unsafe { ComponentRead::new(id,lock) })'''))
e("q-step-helper", (Q, '''impl<'a,T : Component> Iterator for IterRef<'a,T> {
    type Item = &'a T;

    fn next(&mut self) -> Option<Self::Item> {
        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }
    }''', '''impl<'a,T : Component> IterRef<'a,T> {
    fn set(&self) -> &'a SparseSet<EntityId,T> {
        unsafe { &*self.sparse_set }
    }

    fn advance(&mut self) -> Option<usize> {
        if self.index == self.borrow.count() {
            return None;
        }
        let index = self.index;
        self.index = index + 1;
        Some(index)
    }
}

impl<'a,T : Component> Iterator for IterRef<'a,T> {
    type Item = &'a T;

    fn next(&mut self) -> Option<Self::Item> {
        let index = self.advance()?;
        self.set().data().get(index)
    }'''))
e("q-mut-split", (Q, '''            let data = unsafe {
                sparse_set.data_mut().get_unchecked_mut(self.index)
            };
            self.index += 1;
            Some(data)''', '''            let data = sparse_set.data_mut().as_mut_ptr();
            let data = unsafe { &mut *data.add(self.index) };
            self.index += 1;
            Some(data)'''))
e("q-with-find-map", (WI, '''        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((a,b))
            }
        }
        None
    }
}

impl<A : QueryIterator,B : QueryIterator> QueryIterator for WithIter<A,B> {
    fn from_id(&mut self,id : EntityId) -> Option<Self::Item>{
        if let Some(a) = self.iter_a.from_id(id) {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((a,b))
            }
        }
        None
    }
''', '''        self.next_with_id().map(|(_,item)|item)
    }
}

impl<A : QueryIterator,B : QueryIterator> QueryIterator for WithIter<A,B> {
    fn from_id(&mut self,id : EntityId) -> Option<Self::Item>{
        self.iter_a.from_id(id).zip(self.iter_b.from_id(id))
    }
'''))
e("q-with3-continue", (WI, '''        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                if let Some(c) = self.iter_c.from_id(id) {
                    return Some((a,b,c))
                }
            }
        }
        None''', '''        loop {
            let (id,a) = self.iter_a.next_with_id()?;
            let b = match self.iter_b.from_id(id) {
                Some(b) => b,
                None => continue
            };
            if let Some(c) = self.iter_c.from_id(id) {
                break Some((a,b,c));
            }
        }'''))
e("q-without-filter", (WO, '''        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let None = self.iter_b.from_id(id) {
                return Some(a);
            }
        }
        None''', '''        loop {
            match self.iter_a.next_with_id() {
                Some((id,a)) if self.iter_b.from_id(id).is_none() => return Some(a),
                Some(_) => {}
                None => return None
            }
        }'''))
e("q-without-query-order", (WO, '''        let iter_a = world.query::<A>();
        let iter_b = world.query::<B>();
        Box::new(WithoutIterLeft{
            iter_a,
            iter_b
        })''', '''        Box::new(WithoutIterLeft{
            iter_a : <A as Queryable<'a>>::query(world),
            iter_b : B::query(world)
        })'''))
e("c-storage-set", (C, '''    pub fn count(&self) -> usize {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.len()
    }

    /// Check if id is in storage
    pub fn exist(&self,id : EntityId) -> bool {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.exist(id)
    }
''', '''    pub fn count(&self) -> usize {
        self._lock.count()
    }

    /// Check if id is in storage
    pub fn exist(&self,id : EntityId) -> bool {
        self.get(id).is_some()
    }
'''))
e("c-has-index", (C, "        self.exist(entity_id)\n", "        self.index(entity_id).is_some()\n"))
e("c-id-bound", (C, "        self.entities().get(index).cloned()", "        if index < self.len() {\n            Some(self.entities()[index])\n        } else {\n            None\n        }"))
e("r-deref-helper", (R, '''    fn deref(&self) -> &Self::Target{
        unsafe {
            self.lock .downcast_ref::<T>() // safety: safe because we checked type id outside
        }
    }''', '''    fn deref(&self) -> &Self::Target{
        let boxed : &Box<dyn Resource> = &self.lock;
        let resource : &dyn Resource = boxed.as_ref();
        unsafe { resource.downcast_ref() }
    }'''))
e("g-add-index-match", (G, '''        let index_a = comp_a.index(id).unwrap();
        let index_b = comp_b.index(id).unwrap();

        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);

        self.length += 1;''', '''        if let (Some(index_a),Some(index_b)) = (comp_a.index(id),comp_b.index(id)) {
            let end = self.length;
            self.length = end + 1;
            comp_b.swap_by_index(index_b,end);
            comp_a.swap_by_index(index_a,end);
        }'''))
e("g-in-group-map", (G, '''        if !self.in_components(id,comp_a,comp_b) {
            return false;
        }

        // get indexes in both component storages
        // This unwrap never fails because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();
        let index_b = comp_b.index(id).unwrap();
        if index_a < self.length && index_b < self.length {
            true
        } else {
            false
        }''', '''        let length = self.length;
        let front = |index : Option<usize>|index.map_or(false,|index|index < length);
        front(comp_a.index(id)) && front(comp_b.index(id))'''))
e("g-make-add", (G, '''            for index_a in 0..len_a {
                    // Unwrap here never fails
                    // the for loop ensure this
                    let id = comp_a.id(index_a).unwrap();
                    if let Some(index_b) = comp_b.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
                        self.length += 1;
                    }
                }''', '''            for index_a in 0..len_a {
                    let id = comp_a.id(index_a).unwrap();
                    self.add(id,comp_a,comp_b);
                }'''))
e("g-non-make-one", (N, '''        if len_a < len_b {
            for index_a in 0..len_a {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_a.id(index_a).unwrap();
                if comp_b.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        } else {
            for index_b in 0..len_b {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_b.id(index_b).unwrap();
                if comp_a.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        }''', '''        let (few,many) = if len_a < len_b { (comp_a,comp_b) } else { (comp_b,comp_a) };
        for index in 0..few.count() {
            if let Some(entity_id) = few.id(index) {
                if many.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        }'''))
e("q-full-pair-helper", (FQ, '''        let (storage_a,storage_b) = lock_in_order(''', '''        let type_id_a = type_id_a;
        let (storage_a,storage_b) = lock_in_order('''))
