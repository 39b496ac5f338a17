W="src/world.rs"; N="src/entity.rs"; C="src/component.rs"; R="src/resource.rs"
E=[
("create-unlock",{"P23"},[(W,"""        let id = entity_manager.allocate();
        // Never unlock here, or the entity could be removed by others
        let entity_manager = RwLockWriteGuard::downgrade(entity_manager);""","""        let id = entity_manager.allocate();
        drop(entity_manager);
        let entity_manager = self.entity_manager.read();""")]),
("create-n-minus",{"P06"},[(W,"entity_manager.allocate_n(count)","entity_manager.allocate_n(count.max(1))")]),
("entity-relock",{"P23"},[(W,"""        let lock = self.entity_manager.read();
        if lock.has(id) {
            Some(Entity::new(&self, lock, id))""","""        if self.exist(id) {
            let lock = self.entity_manager.read();
            Some(Entity::new(&self, lock, id))""")]),
("register-wrong-type",{"P01"},[(W,"RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),","RwLock::new(Box::new(SparseSet::<EntityId, Option<T>>::new())),")]),
("register-unchecked",{"P19"},[(W,"""        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
""","")]),
("register-late-check",{"P25"},[(W,"""        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );""","""        let type_id = TypeId::of::<T>();
        let old = self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
        assert!(old.is_none(), "World:Cannot register a component twice");""")]),
("register-entry",None,[(W,"""        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
        self""","""        let storage : Box<dyn ComponentStorage> = Box::new(SparseSet::<EntityId, T>::new());
        let _old = self.components.insert(type_id, RwLock::new(storage));
        self""")]),
("resource-first-wins",{"P20"},[(W,"self.resources.insert(type_id,RwLock::new(Box::new(resource)));","if !self.resources.contains_key(&type_id) { self.resources.insert(type_id,RwLock::new(Box::new(resource))); }")]),
("resource-write-read",None,[(W,"""            .write();
        Some(ResourceWrite::new(lock))""","""            .write();
        drop(lock);
        let lock = self.resources.get(&type_id)?.write();
        Some(ResourceWrite::new(lock))""")]),
("comp-read-nocheck",{"P18","P07","P24"},[(W,"""        let lock = self.components_read::<T>()?;
        if lock.exist(id) {""","""        let lock = self.components_read::<T>()?;
        if !lock.is_empty() && self.exist(id) {""")]),
("comp-write-recheck",{"P18","P24"},[(W,"""        let lock = self.components_write::<T>()?;
        if lock.exist(id) {""","""        let ok = self.components_read::<T>()?.exist(id);
        let lock = self.components_write::<T>()?;
        if ok {""")]),
("storage-count",{"P18"},[(C,"""    pub fn count(&self) -> usize {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.len()
    }""","""    pub fn count(&self) -> usize {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.indices().len()
    }""")]),
("storageread-nolock",{"P02"},[(C,"""pub struct StorageRead<'a,T>{
    _lock : RwLockReadGuard<'a,Box<dyn ComponentStorage>>,""","""pub struct StorageRead<'a,T>{
    _lock : std::marker::PhantomData<&'a ()>,"""),(C,"""        StorageRead {
            _lock : lock,
            ptr,""","""        StorageRead {
            _lock : Default::default(),
            ptr,""")]),
("entity-write-read",None,[(N,"self.world.entity_component_write(self.id)","""{ let r = self.world.entity_component_read::<T>(self.id)?; drop(r); self.world.entity_component_write(self.id) }""")]),
("into-ids-off",None,[(N,"""    pub fn into_ids(self) -> Range<EntityId> {
        self.ids""","""    pub fn into_ids(self) -> Range<EntityId> {
        if self.ids.start == self.ids.end { return self.ids.start..self.ids.start; }
        self.ids.start..self.ids.end""")]),
("manually-drop-dead",{"P04"},[(N,"""        drop(self.borrow_entity_manager);
        self.world.remove_entity(self.id);""","""        self.world.remove_entity(self.id);
        drop(self.borrow_entity_manager);""")]),
("guard-match",None,[(W,"""        let lock = self.raw_storage_read(type_id)?;
        Some(StorageRead::from_lock(lock))""","""        match self.components.get(&type_id) {
            None => None,
            Some(l) => Some(StorageRead::from_lock(l.read()))
        }""")]),
("comp-read-then",None,[(W,"""        let lock = self.components_read::<T>()?;
        if lock.exist(id) {
            Some(unsafe {
                ComponentRead::new(id,lock)
            })
        } else {
            None
        }""","""        self.components_read::<T>()
            .filter(|s| s.exist(id))
            .map(|s| unsafe { ComponentRead::new(id, s) })""")]),
("exist-match",None,[(W,"""        let entity_manager = self.entity_manager.read();
        entity_manager.has(entity_id)""","""        if self.entity_manager.read().has(entity_id) { true } else { false }""")]),
("entity-then",None,[(W,"""        let lock = self.entity_manager.read();
        if lock.has(id) {
            Some(Entity::new(&self, lock, id))
        } else {
            None
        }""","""        let lock = self.entity_manager.read();
        lock.has(id).then(|| Entity::new(&self, lock, id))""")]),
("attach-direct",None,[(W,"""        self.entity(entity_id)
            .expect("World: Cannot attach component to a non-existence entity")
            .attach(component);""","""        match self.entity(entity_id) {
            Some(e) => { let _ = e.attach(component); }
            None => panic!("World: Cannot attach component to a non-existence entity")
        }""")]),
("storage-count-data",None,[(C,"""    pub fn count(&self) -> usize {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.len()
    }""","""    pub fn count(&self) -> usize {
        let sparse_set = unsafe { &*self.ptr };
        sparse_set.data().len()
    }""")]),
("storage-exist-table",None,[(C,"""        let sparse_set = unsafe { &*self.ptr };
        sparse_set.exist(id)""","""        let sparse_set = unsafe { &*self.ptr };
        match sparse_set.indices().get(id.get()) { Some(Some(_)) => true, _ => false }""")]),
("storage-exist-len",{"P18"},[(C,"""        let sparse_set = unsafe { &*self.ptr };
        sparse_set.exist(id)""","""        let sparse_set = unsafe { &*self.ptr };
        id.get() < sparse_set.indices().len()""")]),
]
