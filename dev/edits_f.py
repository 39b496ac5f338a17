# Edits that keep the behaviour: helpers extracted, statements reordered, loops rewritten.
S="src/sparse_set.rs"; EN="src/entity.rs"; W="src/world.rs"; C="src/component.rs"; R="src/resource.rs"
F="src/group/full_owning/mod.rs"; P="src/group/partial_owning/mod.rs"; N="src/group/non_owning/mod.rs"; G="src/group/mod.rs"
Q="src/query/mod.rs"; QW="src/query/with.rs"; QX="src/query/without.rs"
FQ="src/group/full_owning/query.rs"; PQ="src/group/partial_owning/query.rs"; NQ="src/group/non_owning/query.rs"
E = []
def q(name, *edits): E.append((name, None, list(edits)))
def b(name, props, *edits): E.append((name, set(props), list(edits)))

# sparse set
q("sp-resize", (S, """        while self.indices.len() <= entity_ {
            self.indices.push(None);
        }
""", """        if self.indices.len() <= entity_ {
            self.indices.resize(entity_ + 1,None);
        }
"""))
q("sp-grow-helper", (S, """        while self.indices.len() <= entity_ {
            self.indices.push(None);
        }
""", """        self.reserve_index(entity_);
"""), (S, """    pub fn add_batch(""", """    fn reserve_index(&mut self,entity : usize) {
        for _ in self.indices.len()..=entity {
            self.indices.push(None);
        }
    }

    pub fn add_batch("""))
q("sp-add-match", (S, """        if let Some(index) = self.indices[entity_] {
            //already exists
            //overwrite
            self.data[index.get() - 1] = data;
        }else{
            //not yet exist
            self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
            self.entities.push(entity);
            self.data.push(data);
        }
""", """        match self.indices[entity_].map(|index| index.get() - 1) {
            Some(index) => self.data[index] = data,
            None => {
                self.entities.push(entity);
                self.data.push(data);
                self.indices[entity_] = NonZeroUsize::new(self.entities.len());
            }
        }
"""))
q("sp-add-overwrite-first", (S, """        let entity_ : usize = entity.into();
        //enlarge sparse
""", """        if let Some(old) = self.get_mut(entity) {
            *old = data;
            return;
        }
        let entity_ : usize = entity.into();
        //enlarge sparse
"""), (S, """        if let Some(index) = self.indices[entity_] {
            //already exists
            //overwrite
            self.data[index.get() - 1] = data;
        }else{
            //not yet exist
            self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
            self.entities.push(entity);
            self.data.push(data);
        }
""", """        self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
        self.entities.push(entity);
        self.data.push(data);
"""))
q("sp-batch-index", (S, """        for (entity,data) in entities.iter().zip(data) {
            self.add(*entity,data);
        }
""", """        let mut index = 0;
        for data in data {
            self.add(entities[index],data);
            index += 1;
        }
"""))
q("sp-batch-foreach", (S, """        for (entity,data) in entities.iter().zip(data) {
            self.add(*entity,data);
        }
""", """        entities.iter().copied().zip(data.into_iter()).for_each(|(entity,data)| self.add(entity,data));
"""))
q("sp-remove-qmark", (S, """        let entity : usize = entity.into();
        if self.indices.len() <= entity {
            return None;
        }
        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
        }
        None
""", """        let index = self.get_index(entity)?;
        let entity : usize = entity.into();
        let last : usize = self.entities[self.entities.len() - 1].into();
        self.indices[last] = NonZeroUsize::new(index + 1);
        self.indices[entity] = None;
        self.entities.swap_remove(index);
        Some(self.data.swap_remove(index))
"""))
q("sp-remove-take", (S, """        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
        }
        None
""", """        let slot = self.indices[entity].take()?;
        let index = slot.get() - 1;
        let data = self.data.swap_remove(index);
        self.entities.swap_remove(index);
        if index < self.entities.len() {
            let moved : usize = self.entities[index].into();
            self.indices[moved] = Some(slot);
        }
        Some(data)
"""))
q("sp-get-chain", (S, """    pub fn get(&self,entity : E) -> Option<&T> {
        let entity : usize = entity.into();
        if entity< self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                return Some(&self.data[index])
            }
        }
        None
    }
""", """    pub fn get(&self,entity : E) -> Option<&T> {
        self.get_index(entity).map(|index| &self.data[index])
    }
"""), (S, """    pub fn get_mut(&mut self,entity : E) -> Option<&mut T> {
        let entity : usize = entity.into();
        if entity < self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                return Some(&mut self.data[index])
            }
        }
        None
    }
""", """    pub fn get_mut(&mut self,entity : E) -> Option<&mut T> {
        match self.get_index(entity) {
            Some(index) => self.data.get_mut(index),
            None => None
        }
    }
"""), (S, """        let entity : usize = entity.into();
        if entity < self.indices.len() {
            if let Some(index) = self.indices[entity] {
                return Some(index.get() - 1);
            }
        }
        None
""", """        let index = (*self.indices.get(entity.into())?)?;
        Some(index.get() - 1)
"""), (S, """        let entity : usize = entity.into();
        if entity < self.indices.len()  {
            self.indices[entity].is_some()
        }else{
            false
        }
""", """        matches!(self.indices.get(entity.into()),Some(Some(_)))
"""))
q("sp-exist-index", (S, """        let entity : usize = entity.into();
        if entity < self.indices.len()  {
            self.indices[entity].is_some()
        }else{
            false
        }
""", """        self.get_index(entity).is_some()
"""))
q("sp-swap-assert", (S, """        if index_a == index_b { return; }
        if index_a >= self.len() {
            panic!("index_a={} is out of range",index_a);
        }
        if index_b >= self.len() {
            panic!("index_b={} is out of range",index_b);
        }
        let entity_a : usize = self.entities[index_a].into();
        let entity_b : usize = self.entities[index_b].into();
        self.indices.swap(entity_a,entity_b);
        self.entities.swap(index_a,index_b);
        self.data.swap(index_a,index_b);
""", """        if index_a != index_b {
            let len = self.len();
            assert!(index_a < len && index_b < len,"index is out of range");
            self.data.swap(index_a,index_b);
            self.entities.swap(index_a,index_b);
            for index in [index_a,index_b] {
                let entity : usize = self.entities[index].into();
                self.indices[entity] = NonZeroUsize::new(index + 1);
            }
        }
"""))
q("sp-clear-new", (S, """        self.indices.clear();
        self.entities.clear();
        self.data.clear();
""", """        *self = SparseSet::new();
"""))
q("sp-empty", (S, "self.entities.len() == 0", "self.entities.is_empty()"), (S, "        self.entities.as_slice()\n", "        &self.entities\n"))

# entity manager
q("em-allocate-match", (EN, """        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
            let last_id = *last_id;
            //we got an id can be reused
            let new_id = self.entity_flags[last_id.get()];
            self.entities.push(last_id);
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
            self.entity_flags[0] = new_id;
            last_id
        }else{
""", """        let index = self.entities.len();
        if let EntityFlag::Available(Some(last_id)) = self.entity_flags[0] {
            self.entity_flags[0] = self.entity_flags[last_id.get()];
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(index);
            self.entities.push(last_id);
            last_id
        }else{
"""))
q("em-reuse-helper", (EN, """        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
            let last_id = *last_id;
            //we got an id can be reused
            let new_id = self.entity_flags[last_id.get()];
            self.entities.push(last_id);
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
            self.entity_flags[0] = new_id;
            last_id
        }else{
            //full
            let id = self.entity_flags.len();
            // safe here because id cannot be zero
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
            self.entity_flags.push(EntityFlag::Unavailable(self.entities.len() - 1));
            //safe here because this id can't be 0
            id
        }
""", """        let id = self.reuse().unwrap_or_else(|| {
            let id = EntityId::new(self.entity_flags.len()).unwrap();
            self.entity_flags.push(EntityFlag::Available(None));
            id
        });
        self.entity_flags[id.get()] = EntityFlag::Unavailable(self.entities.len());
        self.entities.push(id);
        id
"""), (EN, """    pub(in crate) fn allocate_n(""", """    fn reuse(&mut self) -> Option<EntityId> {
        match self.entity_flags[0] {
            EntityFlag::Available(Some(id)) => {
                self.entity_flags[0] = self.entity_flags[id.get()];
                Some(id)
            }
            _ => None
        }
    }

    pub(in crate) fn allocate_n("""))
q("em-batch-one-loop", (EN, """        for i in start_index..end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
        }
        for id in start_id..end_id {
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
        }
""", """        for (id,index) in (start_id..end_id).zip(start_index..end_index) {
            self.entity_flags.push(EntityFlag::Unavailable(index));
            self.entities.push(EntityId::new(id).unwrap());
        }
"""))
q("em-batch-extend", (EN, """        for i in start_index..end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
        }
        for id in start_id..end_id {
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
        }
""", """        self.entity_flags.extend((start_index..end_index).map(EntityFlag::Unavailable));
        self.entities.extend((start_id..end_id).map(|id| unsafe { EntityId::new_unchecked(id) }));
"""))
q("em-batch-while", (EN, """        for i in start_index..end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
        }
""", """        let mut i = start_index;
        while i < end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
            i += 1;
        }
"""))
q("em-remove-early", (EN, """        let entity_id_ = entity_id.get();
        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
            // unwrap safe: in this branch, we must have one entity at least
            let the_last_one_id = self.entities.last().unwrap();
            // move this entity to the end of entities
            self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
            self.entities.swap_remove(index);
            // keep these destroyed ids being a chain
            self.entity_flags[entity_id_] = self.entity_flags[0];
            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
        }
""", """        let index = match self.entity_flags.get(entity_id.get()) {
            Some(EntityFlag::Unavailable(index)) => *index,
            _ => return
        };
        self.entities.swap_remove(index);
        if let Some(moved) = self.entities.get(index) {
            self.entity_flags[moved.get()] = EntityFlag::Unavailable(index);
        }
        let head = std::mem::replace(&mut self.entity_flags[0],EntityFlag::Available(Some(entity_id)));
        self.entity_flags[entity_id.get()] = head;
"""))
q("em-has-matches", (EN, """        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
            true
        } else {
            false
        }
""", """        matches!(self.entity_flags.get(entity_id.get()),Some(EntityFlag::Unavailable(_)))
"""))

# entity handles
UPDATE = """        for group in &mut groups {
            match &mut **group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
                    data.add(self.id,&mut comp_a,&mut comp_b);
                },
                Group::PartialOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let comp_b = world.raw_storage_read(type_b).unwrap();
                    data.add(self.id,&mut comp_a,&comp_b);
                },
                Group::NonOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let comp_a = world.raw_storage_read(type_a).unwrap();
                    let comp_b = world.raw_storage_read(type_b).unwrap();
                    data.add(self.id,&comp_a,&comp_b);
                }
            }
        }
"""
q("attach-update-fn", (EN, UPDATE, """        groups.iter_mut().for_each(|group| add_to_group(world,group,self.id));
"""), (EN, """pub struct Entities<'a>{""", """fn add_to_group(world : &World,group : &mut Group,id : EntityId) {
    let (type_a,type_b) = group.types();
    match group {
        Group::FullOwning(data) => {
            let mut comp_a = world.raw_storage_write(type_a).unwrap();
            let mut comp_b = world.raw_storage_write(type_b).unwrap();
            data.add(id,&mut comp_a,&mut comp_b);
        },
        Group::PartialOwning(data) => {
            let mut comp_a = world.raw_storage_write(type_a).unwrap();
            let comp_b = world.raw_storage_read(type_b).unwrap();
            data.add(id,&mut comp_a,&comp_b);
        },
        Group::NonOwning(data) => {
            let comp_a = world.raw_storage_read(type_a).unwrap();
            let comp_b = world.raw_storage_read(type_b).unwrap();
            data.add(id,&comp_a,&comp_b);
        }
    }
}

pub struct Entities<'a>{"""))
q("attach-update-method", (EN, UPDATE, """        for group in groups.iter_mut() {
            group.insert(world,self.id);
        }
"""), (G, """    pub fn types(&self)""", """    pub(in crate) fn insert(&mut self,world : &crate::world::World,id : EntityId) {
        let (type_a,type_b) = self.types();
        match self {
            Group::FullOwning(data) => data.add(id,
                &mut *world.raw_storage_write(type_a).unwrap(),
                &mut *world.raw_storage_write(type_b).unwrap()),
            Group::PartialOwning(data) => data.add(id,
                &mut *world.raw_storage_write(type_a).unwrap(),
                &*world.raw_storage_read(type_b).unwrap()),
            Group::NonOwning(data) => data.add(id,
                &*world.raw_storage_read(type_a).unwrap(),
                &*world.raw_storage_read(type_b).unwrap())
        }
    }

    pub fn types(&self)"""))
q("attach-storage-helper", (EN, """        {
            // Unwrap never fails because assert ensures this
            let mut storage = world.raw_storage_write(type_id).unwrap();
            // SAFTY:
            // storage is SparseSet<EntityId,T>
            let sparse_set = unsafe {
                storage.downcast_mut::<SparseSet<EntityId,T>>()
            };
            sparse_set.add(self.id,component);
        }
""", """        with_storage(world,|set : &mut SparseSet<EntityId,T>| set.add(self.id,component));
"""), (EN, """pub struct Entities<'a>{""", """fn with_storage<T : Component,O>(world : &World,f : impl FnOnce(&mut SparseSet<EntityId,T>) -> O) -> O {
    let mut storage = world.raw_storage_write(TypeId::of::<T>()).unwrap();
    // storage is SparseSet<EntityId,T>
    let sparse_set = unsafe { storage.downcast_mut::<SparseSet<EntityId,T>>() };
    f(sparse_set)
}

pub struct Entities<'a>{"""))
q("attach-drop", (EN, """        {
            // Unwrap never fails because assert ensures this
            let mut storage = world.raw_storage_write(type_id).unwrap();
            // SAFTY:
            // storage is SparseSet<EntityId,T>
            let sparse_set = unsafe {
                storage.downcast_mut::<SparseSet<EntityId,T>>()
            };
            sparse_set.add(self.id,component);
        }
""", """        let mut storage = world.raw_storage_write(type_id).unwrap();
        unsafe { storage.downcast_mut::<SparseSet<EntityId,T>>() }.add(self.id,component);
        drop(storage);
"""))
q("attach-write-guard", (EN, """        {
            // Unwrap never fails because assert ensures this
            let mut storage = world.raw_storage_write(type_id).unwrap();
            // SAFTY:
            // storage is SparseSet<EntityId,T>
            let sparse_set = unsafe {
                storage.downcast_mut::<SparseSet<EntityId,T>>()
            };
            sparse_set.add(self.id,component);
        }
""", """        match world.raw_storage_write(type_id) {
            Some(mut storage) => {
                let sparse_set = unsafe { storage.downcast_mut::<SparseSet<EntityId,T>>() };
                sparse_set.add(self.id,component);
            }
            None => unreachable!()
        }
"""))
q("detach-let-result", (EN, """        sparse_set.remove(self.id)
    }
""", """        let result = sparse_set.remove(self.id);
        drop(storage);
        drop(groups);
        result
    }
"""))
q("detach-absent-first", (EN, """        let mut groups = world.groups(type_id);
        for group in &mut groups {
            match &mut **group{
""", """        let mut groups = world.groups(type_id);
        if !world.raw_storage_read(type_id).unwrap().has(self.id) {
            return None;
        }
        for group in &mut groups {
            match &mut **group{
"""))
q("batch-count-helper", (EN, """        let count = self.ids.end.get() - self.ids.start.get();
        let components : Vec<T> = components.into();
        assert_eq!(components.len(),count);
        let type_id = TypeId::of::<T>();
        // create Id slice
        let ids = (self.ids.start.get()..self.ids.end.get())
            // Safety:
            // Safe here id cannot be zero 
            .map(|id|unsafe{EntityId::new_unchecked(id)})
            .collect::<Vec<_>>();
""", """        let components : Vec<T> = components.into();
        let ids = self.id_list();
        assert!(components.len() == ids.len(),"Entities: wrong number of components");
        let type_id = TypeId::of::<T>();
"""), (EN, """    pub fn into_ids(""", """    fn id_list(&self) -> Vec<EntityId> {
        let mut ids = Vec::with_capacity(self.ids.end.get() - self.ids.start.get());
        let mut id = self.ids.start.get();
        while id < self.ids.end.get() {
            ids.push(unsafe { EntityId::new_unchecked(id) });
            id += 1;
        }
        ids
    }

    pub fn into_ids("""))
q("batch-ids-index", (EN, """                    for id in &ids {
                        data.add(*id,&mut comp_a,&mut comp_b);
                    }
""", """                    for i in 0..ids.len() {
                        data.add(ids[i],&mut comp_a,&mut comp_b);
                    }
"""), (EN, """                    for id in &ids {
                        data.add(*id,&mut comp_a,&comp_b);
                    }
""", """                    ids.iter().for_each(|id| data.add(*id,&mut comp_a,&comp_b));
"""))
q("batch-registered-first", (EN, """        let components : Vec<T> = components.into();
        assert_eq!(components.len(),count);
        let type_id = TypeId::of::<T>();
""", """        let components : Vec<T> = components.into();
        assert_eq!(components.len(),count);
        let type_id = TypeId::of::<T>();
        assert!(self.world.has_registered::<T>(),"Entities: not registered");
"""))

# world
q("w-create-inline", (W, """        let mut entity_manager = self.entity_manager.write();
        let id = entity_manager.allocate();
        // Never unlock here, or the entity could be removed by others
        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
        Entity::new(self,entity_manager,id)
""", """        let (entity_manager,id) = self.allocate_with(|manager| manager.allocate());
        Entity::new(self,entity_manager,id)
"""), (W, """        let mut entity_manager = self.entity_manager.write();
        let ids = entity_manager.allocate_n(count);
        // Never unlock here, or the entities could be removed by others
        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);
        Entities::new(self,ids,entity_manager)
""", """        let (entity_manager,ids) = self.allocate_with(|manager| manager.allocate_n(count));
        Entities::new(self,ids,entity_manager)
"""), (W, """    pub(in crate) fn raw_storage_read(""", """    fn allocate_with<I>(&self,f : impl FnOnce(&mut EntityManager) -> I) -> (RwLockReadGuard<'_,EntityManager>,I) {
        let mut guard = self.entity_manager.write();
        let ids = f(&mut guard);
        (RwLockWriteGuard::downgrade(guard),ids)
    }

    pub(in crate) fn raw_storage_read("""))
q("w-remove-split", (W, """        // remove entity in storages
        // Never hold more than one storage here,
        // they are not visited in the order of types
        for storage in self.components.values() {
            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storage.write().remove(entity_id);
            }
        }
""", """        self.remove_components(entity_id);
"""), (W, """    pub(in crate) fn raw_storage_read(""", """    fn remove_components(&self,entity_id : EntityId) {
        for (_,storage) in &self.components {
            let mut storage = storage.write();
            if storage.has(entity_id) {
                storage.remove(entity_id);
            }
        }
    }

    pub(in crate) fn raw_storage_read("""))
q("w-remove-foreach", (W, """        for storage in self.components.values() {
            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storage.write().remove(entity_id);
            }
        }
""", """        self.components
            .values()
            .map(|storage| storage.write())
            .filter(|storage| storage.has(entity_id))
            .for_each(|mut storage| storage.remove(entity_id));
"""))
q("w-remove-groups-helper", (W, """        let mut groups = vec![];
        for group in &self.groups {
            let need_remove = {
                let group = group.read();
                let (type_a,type_b) = group.types();
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| self.raw_storage_read(type_a).unwrap(),
                    type_b,|| self.raw_storage_read(type_b).unwrap());
                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if need_remove {
                groups.push(group.write());
            };
        }
""", """        let mut groups = self.groups
            .iter()
            .filter(|group| self.is_member(&group.read(),entity_id))
            .map(|group| group.write())
            .collect::<Vec<_>>();
"""), (W, """    pub(in crate) fn raw_storage_read(""", """    fn is_member(&self,group : &Group,entity_id : EntityId) -> bool {
        let (type_a,type_b) = group.types();
        let (comp_a,comp_b) = lock_in_order(
            type_a,|| self.raw_storage_read(type_a).unwrap(),
            type_b,|| self.raw_storage_read(type_b).unwrap());
        group.in_group(entity_id, &comp_a, &comp_b)
    }

    pub(in crate) fn raw_storage_read("""))
q("w-remove-all-groups", (W, """            let need_remove = {
                let group = group.read();
                let (type_a,type_b) = group.types();
                let (comp_a,comp_b) = lock_in_order(
                    type_a,|| self.raw_storage_read(type_a).unwrap(),
                    type_b,|| self.raw_storage_read(type_b).unwrap());
                group.in_group(entity_id, &comp_a, &comp_b)
            };
            if need_remove {
                groups.push(group.write());
            };
""", """            groups.push(group.write());
"""))
q("w-remove-early-return-none", (W, """            if need_remove {
                groups.push(group.write());
            };
""", """            if !need_remove {
                continue;
            }
            let group = group.write();
            groups.push(group);
"""))
q("w-register-contains", (W, """        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
        self
""", """        let type_id = TypeId::of::<T>();
        if self.components.contains_key(&type_id) {
            panic!("World:Cannot register a component twice");
        }
        let storage : Box<dyn ComponentStorage> = Box::new(SparseSet::<EntityId, T>::new());
        let old = self.components.insert(type_id,RwLock::new(storage));
        debug_assert!(old.is_none());
        self
"""))
q("w-registered-get", (W, """        let type_id = TypeId::of::<T>();
        self.components.contains_key(&type_id)
""", """        self.components.get(&TypeId::of::<T>()).is_some()
"""))
q("w-resource-map", (W, """        let type_id = TypeId::of::<R>();
        let lock = self.resources.get(&type_id)?
            .read();
        Some(ResourceRead::new(lock))
""", """        self.resources
            .get(&TypeId::of::<R>())
            .map(|lock| ResourceRead::new(lock.read()))
"""))
q("w-raw-match", (W, """        self.components
            .get(&id)
            .map(|rwlock|rwlock.write())
""", """        let lock = self.components.get(&id)?;
        Some(lock.write())
"""))
q("w-comp-filter", (W, """        let lock = self.components_read::<T>()?;
        if lock.exist(id) {
            Some(unsafe {
                ComponentRead::new(id,lock)
            })
        } else {
            None
        }
""", """        self.components_read::<T>()
            .filter(|storage| storage.exist(id))
            .map(|storage| unsafe { ComponentRead::new(id,storage) })
"""), (W, """        let lock = self.components_write::<T>()?;
        if lock.exist(id) {
            Some(unsafe {
                ComponentWrite::new(id,lock)
            })
        } else {
            None
        }
""", """        match self.components_write::<T>() {
            Some(storage) if storage.get(id).is_some() => Some(unsafe { ComponentWrite::new(id,storage) }),
            _ => None
        }
"""))
q("w-make-fn", (W, """        assert!(
            {
                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
            },
            "World: Cannot make group because component was owned by another group"
        );
""", """        assert!(!self.conflicts(&group),
                "World: Cannot make group because component was owned by another group");
"""), (W, """    pub(in crate) fn has_group<""", """    fn conflicts(&self,group : &Group) -> bool {
        for other in self.groups.iter() {
            let other = other.read();
            if other.owning().into_iter().any(|owned| group.owned(owned)) {
                return true;
            }
        }
        false
    }

    pub(in crate) fn has_group<"""))
q("w-make-get-mut", (W, """        self.groups.push(RwLock::new(group));
        let group = self.groups.last().unwrap();
        let mut group = group.write();
        match &mut *group{
""", """        let mut group = group;
        match &mut group {
"""), (W, """                let comp_a = self.raw_storage_read(type_a).unwrap();
                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make(&comp_a,&comp_b);
            },
        }
""", """                let comp_a = self.raw_storage_read(type_a).unwrap();
                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make(&comp_a,&comp_b);
            },
        }
        self.groups.push(RwLock::new(group));
"""))
q("w-has-group-any", (W, """        let group = group.into();
        for world_group in &self.groups {
            let world_group = world_group.read();
            if world_group.eq(&group) {
                return true;
            }
        }
        false
""", """        let group : Group = group.into();
        self.groups.iter().any(|other| *other.read() == group)
"""))
q("w-group-loop", (W, """        self.groups
            .iter()
            .find(|world_group| {
                let world_group = world_group.read();
                world_group.eq(&group)
            })
            // unwrap here
            // existence will be ensured by an outside function
            .unwrap()
            .read()
""", """        for world_group in &self.groups {
            let world_group = world_group.read();
            if *world_group == group {
                return world_group;
            }
        }
        unreachable!()
"""))
q("w-groups-writable", (W, """            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
""", """            let group = group.write();
            let (type_id_a,type_id_b) = group.types();
            if [type_id_a,type_id_b].contains(&type_id) {
                groups.push(group)
            }
"""))
q("w-order-swap", (W, """    if type_a < type_b {
        let a = lock_a();
        let b = lock_b();
        (a,b)
    } else {
        let b = lock_b();
        let a = lock_a();
        (a,b)
    }
""", """    if type_b < type_a {
        let b = lock_b();
        return (lock_a(),b);
    }
    let a = lock_a();
    (a,lock_b())
"""))
q("w-entity-then-some", (W, """        let lock = self.entity_manager.read();
        if lock.has(id) {
            Some(Entity::new(&self, lock, id))
        } else {
            None
        }
""", """        let lock = self.entity_manager.read();
        if !lock.has(id) {
            return None;
        }
        Some(Entity::new(self, lock, id))
"""))
q("w-attach-let", (W, """        self.entity(entity_id)
            .expect("World: Cannot attach component to a non-existence entity")
            .attach(component);
""", """        let entity = match self.entity(entity_id) {
            Some(entity) => entity,
            None => panic!("World: Cannot attach component to a non-existence entity")
        };
        let _ = entity.attach(component);
"""))

# groups
q("g-member-and", (F, """        if !self.in_components(id,comp_a,comp_b) {
            return false;
        }

        // get indexes in both component storages
        // This unwrap never fails because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();
        let index_b = comp_b.index(id).unwrap();
        if index_a < self.length && index_b < self.length {
            true
        } else {
            false
        }
""", """        match (comp_a.index(id),comp_b.index(id)) {
            (Some(index_a),Some(index_b)) => index_a < self.length && index_b < self.length,
            _ => false
        }
"""))
q("g-add-and", (F, """        if !self.in_components(id,&comp_a,&comp_b) {
            return;
        }
        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }
        
        // get indexes in both component storages
        // This unwrap never fails because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();
        let index_b = comp_b.index(id).unwrap();

        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);

        self.length += 1;
""", """        if self.in_components(id,comp_a,comp_b) && !self.in_group(id,comp_a,comp_b) {
            self.append(id,comp_a,comp_b);
        }
"""), (F, """    pub(in crate) fn remove(&mut self,""", """    fn append(&mut self,id : EntityId,a : &mut Box<dyn ComponentStorage>,b : &mut Box<dyn ComponentStorage>) {
        let end = self.length;
        if let (Some(index_a),Some(index_b)) = (a.index(id),b.index(id)) {
            b.swap_by_index(index_b,end);
            a.swap_by_index(index_a,end);
            self.length = end + 1;
        }
    }

    pub(in crate) fn remove(&mut self,"""))
q("g-remove-last", (F, """        self.length -= 1;

        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);
""", """        let last = self.length - 1;
        comp_a.swap_by_index(last,index_a);
        comp_b.swap_by_index(last,index_b);
        self.length = last;
"""))
q("g-make-add", (F, """        if len_a < len_b {
            for index_a in 0..len_a {
                    // Unwrap here never fails
                    // the for loop ensure this
                    let id = comp_a.id(index_a).unwrap();
                    if let Some(index_b) = comp_b.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
                        self.length += 1;
                    }
                }
            } else {
""", """        if len_a < len_b {
            for index_a in 0..len_a {
                    let id = comp_a.id(index_a).unwrap();
                    self.add(id,comp_a,comp_b);
                }
            } else {
"""))
q("g-make-while", (P, """        for index in 0..comp_a.count() {
            // Unwrap will never fail
            // for loop ensures the range is valid
            let entity_id = comp_a.id(index).unwrap();
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,self.length);
                self.length += 1;
            }
        }
""", """        let mut index = 0;
        while let Some(entity_id) = comp_a.id(index) {
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,self.length);
                self.length += 1;
            }
            index += 1;
        }
"""))
q("g-make-helper-len", (P, """        self.length = 0;

        for index in 0..comp_a.count() {
            // Unwrap will never fail
            // for loop ensures the range is valid
            let entity_id = comp_a.id(index).unwrap();
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,self.length);
                self.length += 1;
            }
        }
""", """        let mut length = 0;
        for index in 0..comp_a.count() {
            let entity_id = comp_a.id(index).unwrap();
            if !comp_b.has(entity_id) {
                continue;
            }
            if index != length {
                comp_a.swap_by_index(length,index);
            }
            length += 1;
        }
        self.length = length;
"""))
q("g-partial-member", (P, """        // get index in component storage
        // This unwrap never failed because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();

        if index_a < self.length {
            true
        } else {
            false
        }
""", """        comp_a.index(id).map_or(false,|index| index < self.length)
"""))
q("g-non-add", (N, """        if !self.in_components(id,&comp_a,&comp_b) {
            return;
        }
        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }

        self.sparse_set.add(id,());
""", """        if self.in_components(id,comp_a,comp_b) {
            self.sparse_set.add(id,());
        }
"""))
q("g-non-remove", (N, """        if !self.in_group(id,&comp_a,&comp_b) {
            return;
        }

        // Unwrap here
        // This never fails because in_group ensures that it's already in group.
        self.sparse_set.remove(id).unwrap();
""", """        let _ = self.in_group(id,comp_a,comp_b);
        self.sparse_set.remove(id);
"""))
q("g-non-make", (N, """        if len_a < len_b {
            for index_a in 0..len_a {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_a.id(index_a).unwrap();
                if comp_b.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        } else {
            for index_b in 0..len_b {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_b.id(index_b).unwrap();
                if comp_a.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        }
""", """        let (small,large) = if len_a < len_b { (comp_a,comp_b) } else { (comp_b,comp_a) };
        for index in 0..small.count() {
            let entity_id = small.id(index).unwrap();
            if large.has(entity_id) {
                self.sparse_set.add(entity_id,());
            }
        }
"""))
q("g-owned-contains", (F, "        type_id == self.type_a || type_id == self.type_b\n", "        self.owning().contains(&type_id)\n"))
q("g-eq-types", (F, "self.type_a == other.type_a && self.type_b == other.type_b", "self.types() == other.types()"))

# queries
q("q-one-next-id", (Q, """        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }
""", """        let set = unsafe { &*self.sparse_set };
        let item = set.data().get(self.index)?;
        self.index += 1;
        Some(item)
"""))
q("q-one-at", (Q, """        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }
""", """        if self.index >= self.borrow.count() {
            return None;
        }
        let index = self.index;
        self.index = index + 1;
        Some(unsafe { (*self.sparse_set).data().get_unchecked(index) })
"""))
q("q-full-helper", (FQ, """    fn next(&mut self) -> Option<Self::Item> {
        if self.index < self.length {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set_a = unsafe { &*self.sparse_set_a };
            let sparse_set_b = unsafe { &*self.sparse_set_b };
            // Safety:
            // Safe here, because we checked before.
            let data_a = unsafe {
                sparse_set_a.data().get_unchecked(self.index)
            };
            let data_b = unsafe {
                sparse_set_b.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some((data_a,data_b))
        } else {
            None
        }
    }
""", """    fn next(&mut self) -> Option<Self::Item> {
        let index = self.advance()?;
        let (set_a,set_b) = unsafe { (&*self.sparse_set_a,&*self.sparse_set_b) };
        Some((&set_a.data()[index],&set_b.data()[index]))
    }
"""), (FQ, """impl<'a,A : Component,B : Component> Iterator for IterRefRef<'a,A,B> {""", """impl<'a,A : Component,B : Component> IterRefRef<'a,A,B> {
    fn advance(&mut self) -> Option<usize> {
        let index = self.index;
        if index == self.length {
            None
        } else {
            self.index += 1;
            Some(index)
        }
    }
}

impl<'a,A : Component,B : Component> Iterator for IterRefRef<'a,A,B> {"""))
q("q-full-from-and", (FQ, """        if let Some(a) = sparse_set_a.get(id) {
            if let Some(b) = sparse_set_b.get(id) {
                return Some((a,b))
            }
        }
        None
""", """        sparse_set_a.get(id).zip(sparse_set_b.get(id))
"""))
q("q-full-open", (FQ, """        assert!(world.has_registered::<A>() && world.has_registered::<B>(),
                "Queryable for FullOwning: Component was not registered in world");
        let type_id_a = TypeId::of::<A>();
        let type_id_b = TypeId::of::<B>();
        // Groups are always locked before storages
        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<A,B>());
""", """        assert!(world.has_registered::<A>() && world.has_registered::<B>(),
                "Queryable for FullOwning: Component was not registered in world");
        let group = open(world,full_owning::<A,B>());
        let (type_id_a,type_id_b) = group.types();
"""), (FQ, """impl<'a,A : Component,B : Component> Iterator for IterRefRef<'a,A,B> {""", """fn open<A : Component,B : Component>(world : &World,group : FullOwning<A,B>) -> RwLockReadGuard<'_,Group> {
    if !world.has_group(group.clone()) {
        panic!("Queryable for FullOwning: Group is not in world");
    }
    world.group(group)
}

impl<'a,A : Component,B : Component> Iterator for IterRefRef<'a,A,B> {"""))
q("q-non-zip", (NQ, """            let data_a = sparse_set_a.get(id).unwrap();
            let data_b = sparse_set_b.get(id).unwrap();
            self.index += 1;
            Some((data_a,data_b))
""", """            self.index += 1;
            match (sparse_set_a.get(id),sparse_set_b.get(id)) {
                (Some(a),Some(b)) => Some((a,b)),
                _ => unreachable!()
            }
"""))
q("q-with-and-then", (QW, """        if let Some(a) = self.iter_a.from_id(id) {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((a,b))
            }
        }
        None
""", """        let a = self.iter_a.from_id(id)?;
        self.iter_b.from_id(id).map(|b| (a,b))
"""))
q("q-with-loop-match", (QW, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((a,b))
            }
        }
        None
""", """        loop {
            let (id,a) = self.iter_a.next_with_id()?;
            match self.iter_b.from_id(id) {
                Some(b) => return Some((a,b)),
                None => continue
            }
        }
"""))
q("q-id-iter", (Q, """        self.iter.size_hint()
""", """        let (low,high) = self.iter.size_hint();
        (low,high)
"""))

# guards
q("c-deref-get", (C, """impl<'a,T : Component> Deref for ComponentRead<'a,T> {
    type Target = T;

    fn deref(&self) -> &Self::Target {
        // Safety:
        // new() method ensures this action is safe
        unsafe {
            self.storage.get_unchecked(self.id)
        }
    }
}
""", """impl<'a,T : Component> Deref for ComponentRead<'a,T> {
    type Target = T;

    fn deref(&self) -> &Self::Target {
        self.storage.get(self.id).unwrap()
    }
}
"""))
q("c-set-helper", (C, """impl<'a,T : Component> StorageRead<'a,T> {""", """impl<'a,T : Component> StorageRead<'a,T> {
    fn set(&self) -> &SparseSet<EntityId,T> {
        unsafe { &*self.ptr }
    }
"""), (C, """        let sparse_set = unsafe { &*self.ptr };
        sparse_set.len()
""", """        self.set().len()
"""), (C, """        let sparse_set = unsafe { &*self.ptr };
        sparse_set.exist(id)
""", """        self.set().exist(id)
"""), (C, """        let sparse_set = unsafe { &*self.ptr };
        sparse_set.get(id)
""", """        self.set().get(id)
"""))
q("c-ptr-cast", (C, """        let ptr = unsafe {
            lock.downcast_ref::<SparseSet<EntityId,T>>()
        } as *const _;
        StorageRead {
            _lock : lock,
            ptr,
        }
""", """        let set : &SparseSet<EntityId,T> = unsafe { lock.downcast_ref() };
        let ptr : *const SparseSet<EntityId,T> = set;
        StorageRead { ptr, _lock : lock }
"""))
q("c-remove-expect", (C, """        self.remove(entity_id).unwrap();
""", """        let removed = SparseSet::remove(self,entity_id);
        assert!(removed.is_some());
"""))
q("c-id-copied", (C, "        self.entities().get(index).cloned()\n", "        if index < self.len() { Some(self.entities()[index]) } else { None }\n"))
