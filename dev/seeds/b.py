PRE = r'''
use xecs::World;
#[allow(unused)] use xecs::EntityId;
#[allow(unused)] use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, PartialOwning, NonOwning};
#[allow(unused)] use xecs::query::*;
#[allow(unused)] use std::sync::Arc;
#[allow(unused)] use std::time::Duration;
#[allow(unused)] fn id(n: usize) -> EntityId { EntityId::new(n).unwrap() }
#[allow(unused)] fn panics<F: FnOnce()>(f: F) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
'''
BUGS = [
 dict(id="write-query-read-lock", property="P02", needs="two live mutable queries of one component, or a mutable query next to a shared one",
  breaks="the mutable query takes the storage's lock in shared mode only",
  edits=[("src/query/mod.rs", "    sparse_set : *mut SparseSet<EntityId,T>,\n    borrow : RwLockWriteGuard<'a,Box<dyn ComponentStorage>>\n", "    sparse_set : *mut SparseSet<EntityId,T>,\n    borrow : RwLockReadGuard<'a,Box<dyn ComponentStorage>>\n"),
         ("src/query/mod.rs", "use parking_lot::{RwLockReadGuard, RwLockWriteGuard};", "use parking_lot::RwLockReadGuard;"),
         ("src/query/mod.rs", """        let mut storage = world.raw_storage_write(type_id).unwrap();
        // Safety:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_mut::<SparseSet<EntityId,T>>()
        };
        let ptr = &mut *sparse_set;
""", """        let storage = world.raw_storage_read(type_id).unwrap();
        // Safety:
        // storage is SparseSet<EntityId,T>
        let sparse_set = unsafe {
            storage.downcast_ref::<SparseSet<EntityId,T>>()
        };
        let ptr = sparse_set as *const SparseSet<EntityId,T> as *mut SparseSet<EntityId,T>;
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.create_entity().attach(1u32);
    let w = Arc::new(w);
    let (tx, rx) = std::sync::mpsc::channel();
    let q = w.query::<&mut u32>();
    let w2 = w.clone();
    std::thread::spawn(move || { let n = w2.query::<&u32>().count(); tx.send(n).unwrap(); });
    assert!(rx.recv_timeout(Duration::from_secs(2)).is_err(), "a shared query ran while a mutable one was alive");
    drop(q);
    assert_eq!(rx.recv_timeout(Duration::from_secs(10)).unwrap(), 1);
}
'''),
 dict(id="detach-peek-first", property="P04", needs="one thread detaching a component while another one queries a group of it mutably, at the right moment",
  breaks="detaching looks into the storage first and keeps it locked while it waits for the groups",
  edits=[("src/entity.rs", """        let world = self.world;
        assert!(world.has_registered::<T>(),
                "World:Cannot detach component because components has not been registered.");
        let type_id = TypeId::of::<T>();
        // Lock the groups until both storage and groups are updated
        let mut groups = world.groups(type_id);
""", """        let world = self.world;
        let type_id = TypeId::of::<T>();
        let storage = world.raw_storage_read(type_id)
            .expect("World:Cannot detach component because components has not been registered.");
        // Nothing to do when the entity does not have this component
        if !storage.has(self.id) {
            return None;
        }
        // Lock the groups until both storage and groups are updated
        let mut groups = world.groups(type_id);
        drop(storage);
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.make_group(full_owning::<u32, char>());
    for _ in 0..3 { w.create_entity().attach(1u32).attach('a'); }
    let w = Arc::new(w);
    let (tx, rx) = std::sync::mpsc::channel();
    for k in 0..2 {
        let (w, tx) = (w.clone(), tx.clone());
        std::thread::spawn(move || {
            for n in 0..300000u32 {
                if k == 0 {
                    let e = w.entity(id(2)).unwrap();
                    assert!(e.detach::<u32>().is_some());
                    e.attach(n);
                } else {
                    for (a, _) in w.query::<FullOwning<&mut u32, &mut char>>() { *a = n; }
                }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..2 { rx.recv_timeout(Duration::from_secs(25)).expect("the threads wait for each other"); }
}
'''),
 dict(id="write-at-end", property="P07", needs="asking for a component by the one id that comes right after the storage's largest id ever used",
  breaks="the bound check of the index table is off by one, so the next unused id panics",
  edits=[("src/sparse_set.rs", """        let entity : usize = entity.into();
        if entity < self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                return Some(&mut self.data[index])
            }
        }
        None
""", """        let entity : usize = entity.into();
        // ids start from 1
        if entity > self.indices.len() {
            return None;
        }
        let index = self.indices[entity]?.get() - 1;
        Some(&mut self.data[index])
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    for n in 1..9 {
        w.create_entity().attach(n as u32);
        let mut g = w.components_write::<u32>().unwrap();
        for k in 1..20 { assert_eq!(g.get_mut(id(k)).is_some(), k <= n); }
    }
}
'''),
 dict(id="remove-truncates", property="P08", needs="detaching the component that was stored last while an entity with a larger id has the component too",
  breaks="the index table is cut at the removed id when the removed entry is the last one, which forgets larger ids",
  edits=[("src/sparse_set.rs", "            self.indices[entity] = None;\n            self.entities.swap_remove(index);\n", "            if index + 1 == self.entities.len() {\n                // shrink the sparse array\n                self.indices.truncate(entity);\n            } else {\n                self.indices[entity] = None;\n            }\n            self.entities.swap_remove(index);\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    for _ in 0..3 { w.create_entity(); }
    w.attach_component(id(3), 30u32);
    w.attach_component(id(1), 10u32);
    assert_eq!(w.detach_component::<u32>(id(1)), Some(10));
    assert_eq!(w.entity_component_read::<u32>(id(3)).map(|x| *x), Some(30));
}
'''),
 dict(id="from-id-position", property="P13", needs="looking up by id, in a full-owning group query, an entity that has both components stored but is not a member, or a member while others follow",
  breaks="lookup by id compares the position with the group's length the wrong way at the border, so the last member is not found",
  edits=[("src/group/full_owning/query.rs", """        if let Some(a) = sparse_set_a.get(id) {
            if let Some(b) = sparse_set_b.get_mut(id) {
                return Some((a,b))
            }
        }
        None
""", """        // members are stored in front
        let index = sparse_set_a.get_index(id)?;
        if index + 1 < self.length {
            if let Some(a) = sparse_set_a.get(id) {
                if let Some(b) = sparse_set_b.get_mut(id) {
                    return Some((a,b))
                }
            }
        }
        None
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.make_group(full_owning::<u32, char>());
    for n in 0..3u32 { w.create_entity().attach(n).attach('a'); }
    w.create_entity().attach(9u32);
    let mut q = w.query::<FullOwning<&u32, &mut char>>();
    for n in 1..=3 { assert!(q.from_id(id(n)).is_some(), "{n}"); }
    assert!(q.from_id(id(4)).is_none());
}
'''),
 dict(id="tuple4-stops", property="P15", needs="an id-carrying tuple query of four parts where a non-matching entity comes before a matching one",
  breaks="the first entity without the third component ends the id-carrying iteration of four-part queries",
  edits=[("src/query/with.rs", """            if let Some(b) = self.iter_b.from_id(id) {
                if let Some(c) = self.iter_c.from_id(id) {
                    if let Some(d) = self.iter_d.from_id(id) {
                        return Some((id,(a,b,c,d)))
                    }
                }
            }
""", """            if let Some(b) = self.iter_b.from_id(id) {
                let c = self.iter_c.from_id(id)?;
                if let Some(d) = self.iter_d.from_id(id) {
                    return Some((id,(a,b,c,d)))
                }
            }
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>().register::<char>().register::<u8>().register::<i64>();
    w.create_entity().attach(1u32).attach('a').attach(1u8).attach(1i64);
    w.create_entity().attach(2u32).attach('b');
    w.create_entity().attach(3u32).attach('c').attach(3u8).attach(3i64);
    let v: Vec<usize> = w.query::<(&u32, &char, &u8, &i64)>().with_id().map(|(i, _)| i.get()).collect();
    assert_eq!(v, [1, 3]);
}
'''),
 dict(id="without-lookup-first", property="P16", needs="looking up an entity by id in a Without query, or using a Without query as a later part of a tuple, for an entity the excluded part matches",
  breaks="lookup by id in a Without query forgets the excluded part",
  edits=[("src/query/without.rs", """        if let None = self.iter_b.from_id(id) {
            if let Some(a) = self.iter_a.from_id(id) {
                return Some(a)
            }
        }
        None
""", """        let found = self.iter_a.from_id(id);
        if found.is_some() && self.iter_b.from_id(id).is_none() {
            return found
        }
        // borrow again, the item was moved
        self.iter_a.from_id(id)
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>().register::<char>().register::<u8>();
    w.create_entity().attach(1u32).attach('a').attach(1u8);
    w.create_entity().attach(2u32).attach(2u8);
    let v: Vec<u8> = w.query::<(&u8, (&u32, Without<&char>))>().map(|(a, _)| *a).collect();
    assert_eq!(v, [2]);
}
'''),
 dict(id="lookup-moves-cursor", property="P17", needs="a lookup by id in the middle of an iteration of a mutable query",
  breaks="a lookup by id continues the iteration behind the entity that was looked up",
  edits=[("src/query/mod.rs", "        let sparse_set = unsafe { &mut *self.sparse_set };\n        sparse_set.get_mut(id)\n", "        let sparse_set = unsafe { &mut *self.sparse_set };\n        let index = sparse_set.get_index(id)?;\n        // never hand out the same component twice\n        self.index = self.index.max(index + 1);\n        sparse_set.data_mut().get_mut(index)\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    for n in 0..4u32 { w.create_entity().attach(n); }
    let mut q = w.query::<&mut u32>();
    assert_eq!(q.next().map(|x| *x), Some(0));
    assert_eq!(q.from_id(id(3)).map(|x| *x), Some(2));
    assert_eq!(q.map(|x| *x).collect::<Vec<_>>(), [1, 2, 3]);
}
'''),
 dict(id="guard-empty-count", property="P18", needs="asking a storage write guard whether an empty storage is empty after the sparse table has grown",
  breaks="the write guard answers emptiness from the index table, which keeps growing when components leave",
  edits=[("src/sparse_set.rs", "    pub fn is_empty(&self) -> bool {\n        self.entities.len() == 0\n", "    pub fn is_empty(&self) -> bool {\n        self.indices.iter().rev().take(64).all(|index| index.is_none())\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    for _ in 0..100 { w.create_entity(); }
    w.attach_component(id(1), 1u32);
    w.attach_component(id(100), 2u32);
    w.detach_component::<u32>(id(100));
    assert_eq!(w.components_write::<u32>().unwrap().count(), 1);
    assert!(!w.components_write::<u32>().unwrap().is_empty());
}
'''),
 dict(id="register-replaces", property="P19", needs="registering a component a second time (and catching the panic) when its storage holds components",
  breaks="a refused second registration has already replaced the storage",
  edits=[("src/world.rs", """        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
""", """        let type_id = TypeId::of::<T>();
        let registered = self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
        assert!(registered.is_none(),
                "World:Cannot register a component twice");
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.create_entity().attach(7u32);
    assert!(panics(|| { w.register::<u32>(); }));
    assert_eq!(w.entity_component_read::<u32>(id(1)).map(|x| *x), Some(7));
}
'''),
 dict(id="entity-checked-before-lock", property="P23", needs="an entity removed by another thread exactly while a handle to it is requested",
  breaks="the id is checked under one lock and the handle made under another",
  edits=[("src/world.rs", "        let lock = self.entity_manager.read();\n        if lock.has(id) {\n            Some(Entity::new(&self, lock, id))\n", "        if self.exist(id) {\n            let lock = self.entity_manager.read();\n            Some(Entity::new(&self, lock, id))\n")],
  main=PRE + r'''
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let w = Arc::new(w);
    let stop = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = (0..3).map(|_| {
        let (w, stop) = (w.clone(), stop.clone());
        std::thread::spawn(move || while !stop.load(Ordering::Relaxed) {
            if let Some(e) = w.entity(id(1)) { e.attach(1u32); }
        })
    }).collect();
    let start = std::time::Instant::now();
    let mut bad = 0;
    while start.elapsed() < Duration::from_secs(12) && bad == 0 {
        assert_eq!(w.create_entity().into_id(), id(1));
        for _ in 0..20 { std::hint::spin_loop(); }
        w.remove_entity(id(1));
        std::thread::yield_now();
        // nobody can attach to an entity that does not exist
        bad += w.components_read::<u32>().unwrap().count();
    }
    stop.store(true, Ordering::Relaxed);
    for h in hs { h.join().unwrap(); }
    assert_eq!(bad, 0, "a component was attached to a removed entity");
}
'''),
 dict(id="get-past-end", property="P24", needs="a lookup of the id that equals the length of the storage's index table",
  breaks="the lookup reads one element past the index table",
  edits=[("src/sparse_set.rs", """        if entity< self.indices.len() {
            if let Some(index) = self.indices[entity] {
                let index = index.get() - 1;
                return Some(&self.data[index])
            }
        }
        None
""", """        if entity <= self.indices.len() {
            // the bound was just checked
            if let Some(index) = unsafe { *self.indices.get_unchecked(entity) } {
                let index = index.get() - 1;
                return Some(&self.data[index])
            }
        }
        None
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    for n in 0..40u32 {
        w.create_entity().attach(n);
        let s = w.components_read::<u32>().unwrap();
        for k in 1..60 { assert_eq!(s.get(id(k)).copied(), if k <= n as usize + 1 { Some(k as u32 - 1) } else { None }); }
    }
}
'''),
 dict(id="partial-hint-storage", property="P27", needs="a partial-owning mutable group query whose owned storage also holds entities outside the group",
  breaks="the reported remaining length counts every entry of the owned storage",
  edits=[("src/group/partial_owning/query.rs", "        let rem = self.length - self.index;\n        (rem,Some(rem))\n", "        let rem = self.borrow_a.count() - self.index;\n        (rem,Some(rem))\n")], nth={"src/group/partial_owning/query.rs": 2},
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>().register::<char>();
    w.make_group(partial_owning::<u32, char>());
    for n in 0..3u32 { w.create_entity().attach(n).attach('a'); }
    w.create_entity().attach(9u32);
    assert_eq!(w.query::<PartialOwning<&u32, &char>>().size_hint(), (3, Some(3)));
    assert_eq!(w.query::<PartialOwning<&u32, &mut char>>().size_hint(), (3, Some(3)));
    assert_eq!(w.query::<PartialOwning<&mut u32, &char>>().size_hint(), (3, Some(3)));
    assert_eq!(w.query::<PartialOwning<&mut u32, &mut char>>().size_hint(), (3, Some(3)));
}
'''),
 dict(id="group-equality", property="P13", needs="querying a group that was not made, next to one over the same first component",
  breaks="two partial-owning groups count as the same when they own the same component, so the query of one answers for the other",
  edits=[("src/group/partial_owning/mod.rs", "        self.type_a == other.type_a && self.type_b == other.type_b\n", "        // a component is owned once, so it names the group\n        self.type_a == other.type_a\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>().register::<char>().register::<u8>();
    w.make_group(partial_owning::<u32, char>());
    w.create_entity().attach(1u32).attach('a').attach(1u8);
    assert!(panics(|| { w.query::<PartialOwning<&u32, &u8>>().count(); }));
}
'''),
 dict(id="make-from-smaller", property="P11", needs="making a non-owning group over existing components where the second storage is the smaller one and its first entity is a member",
  breaks="building a non-owning group from the smaller second storage skips that storage's first entity",
  edits=[("src/group/non_owning/mod.rs", """            for index_b in 0..len_b {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_b.id(index_b).unwrap();
                if comp_a.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
""", """            let mut index_b = len_b;
            while index_b > 1 {
                index_b -= 1;
                let entity_id = comp_b.id(index_b).unwrap();
                if comp_a.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>().register::<char>();
    w.create_entity().attach(0u32).attach('a');
    for n in 0..5u32 { w.create_entity().attach(n); }
    w.make_group(non_owning::<u32, char>());
    assert_eq!(w.query::<NonOwning<&u32, &char>>().count(), 1);
}
'''),
 dict(id="raw-storage-public", property="P22", needs="client code that takes a storage's raw guard and removes or reorders entries through it",
  breaks="the raw storage guard, with its methods that remove and reorder, is reachable by client code",
  edits=[("src/world.rs", "    pub(in crate) fn raw_storage_write(", "    pub fn raw_storage_write(")], reject=True,
  main=PRE + r'''
#[allow(unused)] use xecs::ComponentStorage;
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let e = w.create_entity().attach(1u32).into_id();
    w.raw_storage_write(std::any::TypeId::of::<u32>()).unwrap().remove(e);
}
'''),
 dict(id="storage-get-long", property="P03", needs="client code that keeps a component reference after dropping the storage guard",
  breaks="the storage guard hands out references for the lifetime of the world instead of its own",
  edits=[("src/component.rs", "    pub fn get(&self,id : EntityId) -> Option<&T> {\n        let sparse_set = unsafe { &*self.ptr };\n", "    pub fn get(&self,id : EntityId) -> Option<&'a T> {\n        let sparse_set : &'a SparseSet<EntityId,T> = unsafe { &*self.ptr };\n")], reject=True,
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<String>();
    let e = w.create_entity().attach(String::from("x")).into_id();
    let s = { let g = w.components_read::<String>().unwrap(); g.get(e).unwrap() };
    w.detach_component::<String>(e);
    println!("{s}");
}
'''),
 dict(id="guard-send", property="P21", needs="client code that moves a component read guard to another thread, where it would be unlocked",
  breaks="storage guards are declared to be movable to other threads, against their locks' rules",
  edits=[("src/component.rs", "/// A read gurad for component storage\npub struct StorageRead<'a,T>{\n", "// Safety: the storage is shared between threads anyway\nunsafe impl<'a,T : Component> Send for StorageRead<'a,T> { }\n\n/// A read guard for component storage\npub struct StorageRead<'a,T> {\n")], reject=True,
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let g = w.components_read::<u32>().unwrap();
    std::thread::scope(|s| { s.spawn(move || drop(g)); });
}
'''),
 dict(id="length-checked-late", property="P25", needs="attaching a batch of the wrong length and catching the panic",
  breaks="a batch of the wrong length is only refused after its first components were stored",
  edits=[("src/sparse_set.rs", "        assert_eq!(entities.len(),data.len());\n", ""),
         ("src/entity.rs", "        assert_eq!(components.len(),count);\n", "        let length = components.len();\n"),
         ("src/entity.rs", "            sparse_set.add_batch(&ids,components);\n", "            sparse_set.add_batch(&ids,components);\n            assert_eq!(length,count);\n")], loose=True,
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    assert!(panics(|| { w.create_entities(3).attach(vec![1u32, 2]); }));
    assert_eq!(w.components_read::<u32>().unwrap().count(), 0);
}
'''),
 dict(id="batch-handle-unlocked", property="P23", needs="one thread attaching a batch while another removes one of its entities",
  breaks="the batch handle gives the id table free before it attaches",
  edits=[("src/entity.rs", "        let count = self.ids.end.get() - self.ids.start.get();\n", "        let Entities { world, ids, borrow_entity_manager } = self;\n        drop(borrow_entity_manager);\n        // attaching takes long, let others create entities meanwhile\n        let this = EntitiesParts { world, ids };\n        let result = this.attach_all(components);\n        return Entities::new(result.world, result.ids, world.borrow_entities());\n")], skip=True, main=""),
]
