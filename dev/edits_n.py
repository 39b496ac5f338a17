exec(open("/verif/dev/edits_l.py").read().split('sub("iter-length"')[0])
E = []
GM = "src/group/mod.rs"
WS = rd(W); ES = rd(EN)
import re
def fn(f, sig, nth=0):
    """Text of a function, from its signature to its closing brace."""
    s = rd(f)
    i = -1
    for _ in range(nth + 1):
        i = s.index(sig, i + 1)
    d = 0
    for j in range(s.index("{", i), len(s)):
        d += (s[j] == "{") - (s[j] == "}")
        if d == 0:
            return s[i:j + 1]

# --- remove_entity in pieces
rm = fn(W, "pub fn remove_entity")
a = rm.index("        // find all groups need remove"); b = rm.index("        // remove entity in groups"); c = rm.index("        // remove entity in storages"); d = rm.index("        // remove entity from manager")
e("remove-three-helpers", (W, rm, rm[:a] + "        let mut groups = self.groups_of(entity_id);\n        self.leave_groups(entity_id,&mut groups);\n        self.leave_storages(entity_id);\n" + rm[d:] +
  "\n\n    fn groups_of(&self,entity_id : EntityId) -> Vec<RwLockWriteGuard<'_,Group>> {\n" + rm[a:b] + "        groups\n    }\n\n    fn leave_groups(&self,entity_id : EntityId,groups : &mut Vec<RwLockWriteGuard<'_,Group>>) {\n"
  + rm[b:c].replace("for group in &mut groups", "for group in groups.iter_mut()") + "    }\n\n    fn leave_storages(&self,entity_id : EntityId) {\n" + rm[c:d] + "    }\n"))
e("remove-filter-map", (W, rm[a:b], '''        let mut groups : Vec<_> = self.groups
            .iter()
            .filter_map(|lock|{
                let member = {
                    let group = lock.read();
                    let (type_a,type_b) = group.types();
                    let (comp_a,comp_b) = lock_in_order(
                        type_a,|| self.raw_storage_read(type_a).unwrap(),
                        type_b,|| self.raw_storage_read(type_b).unwrap());
                    group.in_group(entity_id, &comp_a, &comp_b)
                };
                member.then(||lock.write())
            })
            .collect();
'''))
e("remove-storages-filter", (W, rm[c:d], '''        self.components
            .values()
            .filter(|storage|storage.read().has(entity_id))
            .for_each(|storage|storage.write().remove(entity_id));
'''))
e("remove-storages-guard-continue", (W, rm[c:d], '''        for (_,storage) in &self.components {
            let has = storage.read().has(entity_id);
            if !has {
                continue;
            }
            let mut storage = storage.write();
            storage.remove(entity_id);
            drop(storage);
        }
'''))
e("remove-let-else", (W, "        assert!(entity_manager.has(entity_id),\n                \"World:Cannot remove a non-exists entity\");", "        if !entity_manager.has(entity_id) {\n            panic!(\"World:Cannot remove a non-exists entity\");\n        }"))
e("lock-order-match", (W, fn(W, "pub(in crate) fn lock_in_order"), '''pub(in crate) fn lock_in_order<A,B>(type_a : TypeId,
                                    lock_a : impl FnOnce() -> A,
                                    type_b : TypeId,
                                    lock_b : impl FnOnce() -> B) -> (A,B) {
    match type_a.cmp(&type_b) {
        std::cmp::Ordering::Less => {
            let a = lock_a();
            (a,lock_b())
        },
        std::cmp::Ordering::Equal | std::cmp::Ordering::Greater => {
            let b = lock_b();
            (lock_a(),b)
        }
    }
}'''))
e("lock-order-options", (W, fn(W, "pub(in crate) fn lock_in_order"), '''pub(in crate) fn lock_in_order<A,B>(type_a : TypeId,
                                    lock_a : impl FnOnce() -> A,
                                    type_b : TypeId,
                                    lock_b : impl FnOnce() -> B) -> (A,B) {
    let first = type_a < type_b;
    if first {
        return (lock_a(),lock_b());
    }
    let b = lock_b();
    (lock_a(),b)
}'''))
e("make-group-pieces", (W, "        self.groups.push(RwLock::new(group));\n        let group = self.groups.last().unwrap();\n        let mut group = group.write();\n        match &mut *group{", '''        let mut group = group;
        self.fill_group(&mut group);
        self.groups.push(RwLock::new(group));
    }

    fn fill_group(&self,group : &mut Group) {
        match group {'''))
e("make-group-scan", (W, between(WS, "            {\n                let mut ok = true;", "                ok\n            },"), '''            !self.groups
                .iter()
                .any(|world_group| world_group.read().owning().iter().any(|t|group.owned(*t))),'''))
e("make-group-any-owned", (W, between(WS, "            {\n                let mut ok = true;", "                ok\n            },"), '''            self.groups
                .iter()
                .all(|other| {
                    let other = other.read();
                    group.owning().into_iter().all(|t|!other.owned(t))
                }),'''))
e("make-group-types-first", (W, between(WS, "        let (type_a,type_b) = group.types();\n        assert!(type_a != type_b", "not registered in world\");\n"), ""),
  (W, "        let group = group.into();\n        assert!(\n", "        let group = group.into();\n" + between(WS, "        let (type_a,type_b) = group.types();\n        assert!(type_a != type_b", "not registered in world\");\n") + "        assert!(\n"))
e("has-group-any", (W, fn(W, "pub(in crate) fn has_group"), '''pub(in crate) fn has_group<G : Into<Group> + 'static>(&self, group: G) -> bool {
        let wanted : Group = group.into();
        self.groups.iter().any(|other| *other.read() == wanted)
    }'''))
e("group-position", (W, fn(W, "pub(in crate) fn group<G"), '''pub(in crate) fn group<G : Into<Group> + 'static>(&self, group: G) -> RwLockReadGuard<Group> {
        let wanted : Group = group.into();
        let index = self.groups.iter().position(|other| *other.read() == wanted);
        match index {
            Some(index) => self.groups[index].read(),
            None => panic!("World: no such group")
        }
    }'''))
e("group-loop", (W, fn(W, "pub(in crate) fn group<G"), '''pub(in crate) fn group<G : Into<Group> + 'static>(&self, group: G) -> RwLockReadGuard<Group> {
        let wanted : Group = group.into();
        for other in self.groups.iter() {
            let other = other.read();
            if *other == wanted {
                return other;
            }
        }
        unreachable!()
    }'''))
e("groups-filter-map", (W, fn(W, "pub(in crate) fn groups(&self"), '''pub(in crate) fn groups(&self,type_id : TypeId) -> Vec<RwLockWriteGuard<'_,Group>> {
        self.groups
            .iter()
            .filter(|group| {
                let (a,b) = group.read().types();
                [a,b].contains(&type_id)
            })
            .map(|group|group.write())
            .collect()
    }'''))
e("groups-write-keep", (W, fn(W, "pub(in crate) fn groups(&self"), '''pub(in crate) fn groups(&self,type_id : TypeId) -> Vec<RwLockWriteGuard<'_,Group>> {
        let mut groups = Vec::with_capacity(self.groups.len());
        for lock in &self.groups {
            let group = lock.write();
            let (type_a,type_b) = group.types();
            if type_id == type_a || type_id == type_b {
                groups.push(group);
            }
        }
        groups
    }'''))
e("entity-then", (W, "        let lock = self.entity_manager.read();\n        if lock.has(id) {\n            Some(Entity::new(&self, lock, id))\n        } else {\n            None\n        }", "        let lock = self.entity_manager.read();\n        lock.has(id).then(move ||Entity::new(self, lock, id))"))
e("attach-component-match", (W, "        self.entity(entity_id)\n            .expect(\"World: Cannot attach component to a non-existence entity\")\n            .attach(component);", '''        match self.entity(entity_id) {
            Some(entity) => { entity.attach(component); },
            None => panic!("World: Cannot attach component to a non-existence entity")
        }'''))
e("create-entity-chain", (W, fn(W, "pub fn create_entity(&self)"), '''pub fn create_entity(&self) -> Entity<'_> {
        let mut manager = self.entity_manager.write();
        let id = manager.allocate();
        Entity::new(self,RwLockWriteGuard::downgrade(manager),id)
    }'''))
e("register-entry", (W, fn(W, "pub fn register<T"), '''pub fn register<T: Component>(&mut self) -> &mut Self {
        use std::collections::hash_map::Entry;
        match self.components.entry(TypeId::of::<T>()) {
            Entry::Occupied(_) => panic!("World:Cannot register a component twice"),
            Entry::Vacant(entry) => {
                entry.insert(RwLock::new(Box::new(SparseSet::<EntityId, T>::new())));
            }
        }
        self
    }'''))
e("has-registered-get", (W, "        self.components.contains_key(&type_id)\n    }\n\n    /// Create an", "        matches!(self.components.get(&type_id),Some(_))\n    }\n\n    /// Create an"))
e("raw-storage-question", (W, "        self.components\n            .get(&id)\n            .map(|rwlock|rwlock.read())", "        let lock = self.components.get(&id)?;\n        Some(lock.read())"),
  (W, "        self.components\n            .get(&id)\n            .map(|rwlock|rwlock.write())", "        match self.components.get(&id) {\n            Some(lock) => Some(lock.write()),\n            None => None\n        }"))
# --- entity.rs
e("attach-helper", (EN, fn(EN, "pub fn attach<T : Component>(self,component"), '''pub fn attach<T : Component>(self,component : T) -> Self{
        let world = self.world;
        assert!(world.has_registered::<T>(),
                "Entity:Cannot attach component because components has not been registered.");
        let type_id = TypeId::of::<T>();
        let mut groups = world.groups(type_id);
        self.store(component,type_id);
        groups.iter_mut().for_each(|group|join_group(world,group,std::slice::from_ref(&self.id)));
        self
    }

    fn store<T : Component>(&self,component : T,type_id : TypeId) {
        let mut storage = self.world.raw_storage_write(type_id).unwrap();
        // SAFTY: storage is SparseSet<EntityId,T>
        unsafe { storage.downcast_mut::<SparseSet<EntityId,T>>() }.add(self.id,component);
    }'''),
  (EN, UPD_BATCH, "        for group in groups.iter_mut() {\n            join_group(world,group,&ids);\n        }\n        self\n"),
  (EN, "#[derive(Debug,Copy,Clone)]\nenum EntityFlag{", '''/// Add entities to a group
fn join_group(world : &World,group : &mut Group,ids : &[EntityId]) {
    let (type_a,type_b) = group.types();
    match group {
        Group::FullOwning(data) => {
            let mut comp_a = world.raw_storage_write(type_a).unwrap();
            let mut comp_b = world.raw_storage_write(type_b).unwrap();
            ids.iter().for_each(|id|data.add(*id,&mut comp_a,&mut comp_b));
        },
        Group::PartialOwning(data) => {
            let mut comp_a = world.raw_storage_write(type_a).unwrap();
            let comp_b = world.raw_storage_read(type_b).unwrap();
            ids.iter().for_each(|id|data.add(*id,&mut comp_a,&comp_b));
        },
        Group::NonOwning(data) => {
            let comp_a = world.raw_storage_read(type_a).unwrap();
            let comp_b = world.raw_storage_read(type_b).unwrap();
            ids.iter().for_each(|id|data.add(*id,&comp_a,&comp_b));
        }
    }
}

#[derive(Debug,Copy,Clone)]
enum EntityFlag{'''))
e("detach-early", (EN, "        sparse_set.remove(self.id)\n    }", "        match sparse_set.remove(self.id) {\n            Some(component) => Some(component),\n            None => None\n        }\n    }"))
e("batch-try", (EN, "            let mut sparse_set = world.raw_storage_write(type_id)\n                .expect(\"Entities:Cannot attach component because components has not been registered.\");", '''            let mut sparse_set = match world.raw_storage_write(type_id) {
                Some(storage) => storage,
                None => panic!("Entities:Cannot attach component because components has not been registered.")
            };'''))
e("batch-ids-loop", (EN, between(ES, "        let ids = (self.ids.start.get()", ".collect::<Vec<_>>();"), '''        let mut ids = Vec::with_capacity(count);
        let mut next = self.ids.start.get();
        while next < self.ids.end.get() {
            ids.push(EntityId::new(next).unwrap());
            next += 1;
        }'''))
e("drop-order", (EN, "        drop(self.borrow_entity_manager);\n        self.world.remove_entity(self.id);", "        let Entity { world, id, borrow_entity_manager } = self;\n        drop(borrow_entity_manager);\n        world.remove_entity(id)"))
e("em-alloc-match", (EN, fn(EN, "pub(in crate) fn allocate(&mut self)"), '''pub(in crate) fn allocate(&mut self) -> EntityId {
        let index = self.entities.len();
        let id = match self.entity_flags[0] {
            EntityFlag::Available(Some(id)) => {
                let flag = std::mem::replace(&mut self.entity_flags[id.get()],EntityFlag::Unavailable(index));
                self.entity_flags[0] = flag;
                id
            },
            _ => {
                let id = EntityId::new(self.entity_flags.len()).unwrap();
                self.entity_flags.push(EntityFlag::Unavailable(index));
                id
            }
        };
        self.entities.push(id);
        id
    }'''))
e("em-alloc-n-extend", (EN, between(ES, "        for i in start_index..end_index {", "self.entities.push(id);\n        }"), '''        self.entity_flags.extend((start_index..end_index).map(EntityFlag::Unavailable));
        self.entities.extend((start_id..end_id).map(|id|EntityId::new(id).unwrap()));'''))
e("em-alloc-n-zip", (EN, between(ES, "        for i in start_index..end_index {", "self.entities.push(id);\n        }"), '''        self.entity_flags.reserve(n);
        self.entities.reserve(n);
        for (id,index) in (start_id..end_id).zip(start_index..end_index) {
            self.entities.push(EntityId::new(id).unwrap());
            self.entity_flags.push(EntityFlag::Unavailable(index));
        }'''))
e("em-remove-match", (EN, fn(EN, "pub(in crate) fn remove(&mut self,entity_id"), '''pub(in crate) fn remove(&mut self,entity_id : EntityId) {
        let index = match self.entity_flags.get(entity_id.get()) {
            Some(EntityFlag::Unavailable(index)) => *index,
            Some(EntityFlag::Available(_)) | None => return
        };
        self.entities.swap_remove(index);
        if let Some(moved) = self.entities.get(index) {
            self.entity_flags[moved.get()] = EntityFlag::Unavailable(index);
        }
        let chain = std::mem::replace(&mut self.entity_flags[0],EntityFlag::Available(Some(entity_id)));
        self.entity_flags[entity_id.get()] = chain;
    }'''))
e("em-has-matches", (EN, fn(EN, "pub(in crate) fn has(&self,entity_id"), '''pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
        self.entity_flags
            .get(entity_id.get())
            .map_or(false,|flag|matches!(flag,EntityFlag::Unavailable(_)))
    }'''))
# --- sparse set
e("sp-index-based", (SP, fn(SP, "pub fn get(&self"), '''pub fn get(&self,entity : E) -> Option<&T> {
        self.get_index(entity).map(|index|&self.data[index])
    }'''), (SP, fn(SP, "pub fn get_mut(&mut self"), '''pub fn get_mut(&mut self,entity : E) -> Option<&mut T> {
        let index = self.get_index(entity)?;
        self.data.get_mut(index)
    }'''), (SP, fn(SP, "pub fn exist(&self"), '''pub fn exist(&self,entity : E) -> bool {
        self.get_index(entity).is_some()
    }'''), (SP, fn(SP, "pub fn get_index(&self"), '''pub fn get_index(&self,entity : E) -> Option<usize> {
        let entity : usize = entity.into();
        self.indices
            .get(entity)
            .copied()
            .flatten()
            .map(|index|index.get() - 1)
    }'''))
e("sp-add-resize", (SP, fn(SP, "pub fn add(&mut self"), '''pub fn add(&mut self,entity : E,data : T) {
        let slot : usize = entity.into();
        if slot >= self.indices.len() {
            self.indices.resize(slot + 1,None);
        }
        match self.indices[slot] {
            Some(index) => {
                let _old = std::mem::replace(&mut self.data[index.get() - 1],data);
            },
            None => {
                self.entities.push(entity);
                self.data.push(data);
                self.indices[slot] = NonZeroUsize::new(self.data.len());
            }
        }
    }'''))
e("sp-remove-take", (SP, fn(SP, "pub fn remove(&mut self"), '''pub fn remove(&mut self,entity : E) -> Option<T> {
        let slot : usize = entity.into();
        let position = self.indices.get_mut(slot)?.take()?;
        let index = position.get() - 1;
        self.entities.swap_remove(index);
        if let Some(moved) = self.entities.get(index) {
            let moved : usize = (*moved).into();
            self.indices[moved] = Some(position);
        }
        Some(self.data.swap_remove(index))
    }'''))
e("sp-remove-swap-pop", (SP, fn(SP, "pub fn remove(&mut self"), '''pub fn remove(&mut self,entity : E) -> Option<T> {
        let index = self.get_index(entity)?;
        let last = self.len() - 1;
        self.swap_by_index(index,last);
        self.indices[entity.into()] = None;
        self.entities.pop();
        self.data.pop()
    }'''))
e("sp-swap-direct", (SP, fn(SP, "pub(in crate) fn swap_by_index"), '''pub(in crate) fn swap_by_index(&mut self,index_a : usize,index_b : usize) {
        if index_a != index_b {
            assert!(index_a < self.len(),"index_a={} is out of range",index_a);
            assert!(index_b < self.len(),"index_b={} is out of range",index_b);
            self.entities.swap(index_a,index_b);
            self.data.swap(index_a,index_b);
            let entity_a : usize = self.entities[index_a].into();
            let entity_b : usize = self.entities[index_b].into();
            self.indices[entity_a] = NonZeroUsize::new(index_a + 1);
            self.indices[entity_b] = NonZeroUsize::new(index_b + 1);
        }
    }'''))
e("sp-batch-index", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", "        entities\n            .iter()\n            .copied()\n            .zip(data.into_iter())\n            .for_each(|(entity,data)|self.add(entity,data));"))
e("sp-batch-count", (SP, "        for (entity,data) in entities.iter().zip(data) {\n            self.add(*entity,data);\n        }", "        let mut index = 0;\n        for data in data {\n            self.add(entities[index],data);\n            index += 1;\n        }"))
# --- groups
for f, n in ((G, "full"), (P, "partial")):
    mt = "&mut Box" if f == G else "&Box"
    t = fn(f, "pub(in crate) fn in_group")
    e(n + "-in-group-and", (f, t, t[:t.index("        if !self.in_comp")] + ("        matches!((comp_a.index(id),comp_b.index(id)),(Some(a),Some(b)) if a < self.length && b < self.length)\n    }" if f == G else
      "        comp_b.has(id) && comp_a.index(id).map_or(false,|index|index < self.length)\n    }")))
    t = fn(f, "pub(in crate) fn add(")
    e(n + "-add-nested", (f, t, t[:t.index("        if !self.in_comp")] + '''        if self.in_components(id,comp_a,comp_b) && !self.in_group(id,comp_a,comp_b) {
            let last = self.length;
            comp_a.swap_by_index(comp_a.index(id).unwrap(),last);
''' + ("            comp_b.swap_by_index(comp_b.index(id).unwrap(),last);\n" if f == G else "") + "            self.length = last + 1;\n        }\n    }"))
    t = fn(f, "pub(in crate) fn remove(")
    e(n + "-remove-let-else", (f, t, t[:t.index("        if !self.in_gr")] + '''        let last = match (self.length.checked_sub(1),self.in_group(id,comp_a,comp_b)) {
            (Some(last),true) => last,
            _ => return
        };
        comp_a.swap_by_index(comp_a.index(id).unwrap(),last);
''' + ("        comp_b.swap_by_index(comp_b.index(id).unwrap(),last);\n" if f == G else "") + "        self.length = last;\n    }"))
t = fn(P, "pub(in crate) fn make(")
e("partial-make-while", (P, t, t[:t.index("        self.length = 0;")] + '''        let count = comp_a.count();
        let mut front = 0;
        let mut index = 0;
        while index < count {
            let shared = comp_a.id(index).map_or(false,|id|comp_b.has(id));
            if shared {
                comp_a.swap_by_index(index,front);
                front += 1;
            }
            index += 1;
        }
        self.length = front;
    }'''))
e("partial-make-add", (P, t, t[:t.index("        self.length = 0;")] + '''        self.length = 0;
        for index in 0..comp_a.count() {
            let id = comp_a.id(index).unwrap();
            self.add(id,comp_a,comp_b);
        }
    }'''))
t = fn(N, "pub(in crate) fn make(")
e("non-make-filter", (N, t, t[:t.index("        self.sparse_set.clear();")] + '''        self.sparse_set.clear();
        let (small,other) = if comp_a.count() < comp_b.count() {
            (comp_a,comp_b)
        } else {
            (comp_b,comp_a)
        };
        (0..small.count())
            .filter_map(|index|small.id(index))
            .filter(|id|other.has(*id))
            .for_each(|id|self.sparse_set.add(id,()));
    }'''))
e("non-make-fresh", (N, "        self.sparse_set.clear();\n", "        self.sparse_set = SparseSet::new();\n"))
e("group-mod-macro", (GM, "impl Group {\n", '''macro_rules! each {
    ($group:expr,$data:ident => $body:expr) => {
        match $group {
            Group::FullOwning($data) => $body,
            Group::PartialOwning($data) => $body,
            Group::NonOwning($data) => $body,
        }
    }
}

impl Group {
'''), *[(GM, "match %sself {\n            Group::FullOwning(data) => data.%s,\n            Group::PartialOwning(data) => data.%s,\n            Group::NonOwning(data) => data.%s,\n        }" % (x, m, m2, m2), "each!(self,data => data.%s)" % m)
   for x, m, m2 in (("", "len()", "len()"), ("&", "types()", "types()"), ("", "owned(type_id)", "owned(type_id)"), ("", "owning()", "owning()"), ("", "in_components(id,comp_a,comp_b)", "in_components(id, comp_a, comp_b)"), ("", "in_group(id, comp_a, comp_b)", "in_group(id, comp_a, comp_b)"))])
# --- queries
sub("q-next-via-id", Q, [(fn(Q, "fn next(&mut self)"), "fn next(&mut self) -> Option<Self::Item> {\n        self.next_with_id().map(|(_,data)|data)\n    }"),
   (fn(Q, "fn next(&mut self)", 1), "fn next(&mut self) -> Option<Self::Item> {\n        let (_,data) = self.next_with_id()?;\n        Some(data)\n    }")])
sub("q-next-get", Q, [(fn(Q, "fn next(&mut self)"), "fn next(&mut self) -> Option<Self::Item> {\n        let sparse_set = unsafe { &*self.sparse_set };\n        let data = sparse_set.data().get(self.index)?;\n        self.index += 1;\n        Some(data)\n    }"),
   (fn(Q, "fn next_with_id(&mut self)", 2), "fn next_with_id(&mut self) -> Option<(EntityId,Self::Item)> {\n        let sparse_set = unsafe { &*self.sparse_set };\n        let id = sparse_set.entities().get(self.index).copied()?;\n        let data = &sparse_set.data()[self.index];\n        self.index += 1;\n        Some((id,data))\n    }")])
sub("fq-generic-step", FQ, [("        if self.index < self.length {\n", "        if self.index != self.length {\n")])
sub("wi-loop", WI, [("        while let Some((id,a)) = self.iter_a.next_with_id() {\n            if let Some(b) = self.iter_b.from_id(id) {\n                return Some((a,b))\n            }\n        }\n        None\n", "        loop {\n            let (id,a) = self.iter_a.next_with_id()?;\n            match self.iter_b.from_id(id) {\n                Some(b) => break Some((a,b)),\n                None => continue\n            }\n        }\n")])
sub("wi-zip-options", WI, [("            if let Some(b) = self.iter_b.from_id(id) {\n                if let Some(c) = self.iter_c.from_id(id) {\n                    return Some((a,b,c))\n                }\n            }", "            let found = self.iter_b.from_id(id).and_then(|b|self.iter_c.from_id(id).map(|c|(a,b,c)));\n            if found.is_some() {\n                return found;\n            }")])
sub("wi-from-question", WI, [("        if let Some(a) = self.iter_a.from_id(id) {\n            if let Some(b) = self.iter_b.from_id(id) {\n                return Some((a,b))\n            }\n        }\n        None", "        let a = self.iter_a.from_id(id)?;\n        let b = self.iter_b.from_id(id)?;\n        Some((a,b))")])
sub("wo-is-none", WO, [("if let None = self.iter_a.from_id(id) {", "if self.iter_a.from_id(id).is_none() {"), ("if let None = self.iter_b.from_id(id) {", "if !self.iter_b.from_id(id).is_some() {")])
sub("wo-next-find", WO, [("        while let Some((id,b)) = self.iter_b.next_with_id() {\n            if let None = self.iter_a.from_id(id) {\n                return Some(b);\n            }\n        }\n        None", "        self.next_with_id().map(|(_,b)|b)")])
# --- component guards, resources
sub("c-deref-get", C, [("            self.storage.get_unchecked(self.id)\n", "            self.storage.get(self.id).unwrap_unchecked()\n"), ("            self.storage.get_unchecked_mut(self.id)\n", "            self.storage.get_mut(self.id).unwrap_unchecked()\n")])
sub("c-deref-expect", C, [("        unsafe {\n            self.storage.get_unchecked(self.id)\n        }\n", "        self.storage.get(self.id).expect(\"the component is in its storage\")\n")])
sub("c-cast", C, [("        let ptr = unsafe {\n            lock.downcast_ref::<SparseSet<EntityId,T>>()\n        } as *const _;", "        let ptr = &**lock as *const dyn ComponentStorage as *const SparseSet<EntityId,T>;"), ("        let ptr = unsafe {\n            lock.downcast_mut::<SparseSet<EntityId,T>>()\n        } as *mut _;", "        let ptr = (&mut **lock as *mut dyn ComponentStorage).cast::<SparseSet<EntityId,T>>();")])
sub("r-map", W, [("        let lock = self.resources.get(&type_id)?\n            .read();\n        Some(ResourceRead::new(lock))", "        self.resources\n            .get(&type_id)\n            .map(RwLock::read)\n            .map(ResourceRead::new)"), ("        let lock = self.resources.get(&type_id)?\n            .write();\n        Some(ResourceWrite::new(lock))", "        if let Some(resource) = self.resources.get(&TypeId::of::<R>()) {\n            return Some(ResourceWrite::new(resource.write()));\n        }\n        None")])
sub("r-insert-drop", W, [("        self.resources.insert(type_id,RwLock::new(Box::new(resource)));", "        let old = self.resources.insert(type_id,RwLock::new(Box::new(resource)));\n        drop(old);")])
sub("r-deref-static", R, [("            self.lock .downcast_ref::<T>() // safety: safe because we checked type id outside\n", "            <dyn Resource>::downcast_ref::<T>(&**self.lock)\n")])
