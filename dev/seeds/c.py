PRE = r'''
use xecs::World;
#[allow(unused)] use xecs::EntityId;
#[allow(unused)] use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, PartialOwning, NonOwning};
#[allow(unused)] use xecs::query::*;
#[allow(unused)] use std::sync::Arc;
#[allow(unused)] use std::sync::atomic::{AtomicUsize, Ordering};
#[allow(unused)] use std::time::Duration;
#[allow(unused)] fn id(n: usize) -> EntityId { EntityId::new(n).unwrap() }
#[allow(unused)] fn panics<F: FnOnce()>(f: F) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
'''
BUGS = [
 dict(id="marker-shared-type", property="P01", needs="a component type without data whose drop does something",
  breaks="registering a component of size zero stores a container of (), which is then accessed as one of the component type",
  edits=[("src/world.rs", """        self.components.insert(
            type_id,
            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),
        );
""", """        // components without data need no container of their own
        let storage : Box<dyn ComponentStorage> = if std::mem::size_of::<T>() == 0 {
            Box::new(SparseSet::<EntityId,()>::new())
        } else {
            Box::new(SparseSet::<EntityId,T>::new())
        };
        self.components.insert(type_id,RwLock::new(storage));
""")],
  main=PRE + r'''
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct Mark;
impl Drop for Mark { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    {
        let mut w = World::new();
        w.register::<Mark>();
        w.create_entity().attach(Mark);
        w.create_entity().attach(Mark);
        assert_eq!(DROPS.load(Ordering::SeqCst), 0);
    }
    assert_eq!(DROPS.load(Ordering::SeqCst), 2, "components dropped with the world");
}
'''),
 dict(id="resource-write-of-option", property="P01", needs="a resource that is an Option of another resource type, written through a guard",
  breaks="the write guard of a resource falls back to the entry of its Option and treats it as the resource itself",
  edits=[("src/world.rs", """        let type_id = TypeId::of::<R>();
        let lock = self.resources.get(&type_id)?
            .write();
""", """        let lock = self.resources.get(&TypeId::of::<R>())
            .or_else(||self.resources.get(&TypeId::of::<Option<R>>()))?
            .write();
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register_resource::<Option<u64>>(Some(7));
    assert!(w.resource_write::<u64>().is_none(), "no u64 was registered");
    w.register_resource::<u64>(9);
    assert_eq!(*w.resource_write::<u64>().unwrap(), 9);
}
'''),
 dict(id="exist-without-lock", property="P02", needs="asking for an entity while another thread is in the middle of removing one",
  breaks="the existence of an entity is looked up without locking the id table",
  edits=[("src/world.rs", "        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)\n",
          "        // a look at a single flag needs no lock\n        let entity_manager = unsafe { &*self.entity_manager.data_ptr() };\n        entity_manager.has(entity_id)\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let e = w.create_entity().attach(1u32).into_id();
    let w = Arc::new(w);
    let guard = w.components_write::<u32>().unwrap();
    let w1 = w.clone();
    let remover = std::thread::spawn(move || w1.remove_entity(e));
    std::thread::sleep(Duration::from_millis(1500));
    // the removal is stopped by our guard and holds the id table
    let (tx, rx) = std::sync::mpsc::channel();
    let w2 = w.clone();
    std::thread::spawn(move || { tx.send(w2.exist(e)).unwrap(); });
    assert!(rx.recv_timeout(Duration::from_millis(1500)).is_err(), "looked at the id table while it was changing");
    drop(guard);
    remover.join().unwrap();
    assert!(!rx.recv_timeout(Duration::from_secs(20)).unwrap());
}
'''),
 dict(id="group-lookup-keeps-guards", property="P04", needs="one thread querying a group while another one changes it, at the right moment",
  breaks="looking a group up keeps the shared locks of all groups while the group found is locked again",
  edits=[("src/world.rs", """        self.groups
            .iter()
            .find(|world_group| {
                let world_group = world_group.read();
                world_group.eq(&group)
            })
            // unwrap here
            // existence will be ensured by an outside function
            .unwrap()
            .read()
""", """        let locked = self.groups
            .iter()
            .map(|world_group|world_group.read())
            .collect::<Vec<_>>();
        // unwrap here
        // existence will be ensured by an outside function
        let position = locked
            .iter()
            .position(|world_group|world_group.eq(&group))
            .unwrap();
        self.groups[position].read()
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<u8>();
    w.make_group(full_owning::<u32, u8>());
    let e = w.create_entity().attach(1u32).attach(2u8).into_id();
    let w = Arc::new(w);
    let (tx, rx) = std::sync::mpsc::channel();
    for t in 0..6 {
        let (w, tx) = (w.clone(), tx.clone());
        std::thread::spawn(move || {
            
            for i in 0..20000u32 {
                if t % 2 == 0 { w.query::<FullOwning<&u32, &u8>>().count(); } else { w.attach_component(e, i); }
            }
            
            tx.send(()).unwrap();
        });
    }
    for _ in 0..6 { rx.recv_timeout(Duration::from_secs(40)).expect("deadlock"); }
}
'''),
 dict(id="last-entity-index", property="P05", needs="removing an entity when the last one in the table is its direct neighbour, and then the neighbour and others",
  breaks="the index of the moved entity is only updated if it is not the direct neighbour",
  edits=[("src/entity.rs", """            self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
""", """            if index + 2 != self.entities.len() {
                self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
            }
""")],
  main=PRE + r'''
fn main() {
    let w = World::new();
    let ids: Vec<_> = (0..4).map(|_| w.create_entity().into_id()).collect();
    w.remove_entity(ids[2]);
    w.remove_entity(ids[3]);
    for (i, e) in ids.iter().enumerate() { assert_eq!(w.exist(*e), i < 2); }
    let a = w.create_entity().into_id();
    let b = w.create_entity().into_id();
    assert!(a != b && !ids[..2].contains(&a) && !ids[..2].contains(&b));
    for e in [ids[0], ids[1], a, b] { assert!(w.exist(e)); w.remove_entity(e); assert!(!w.exist(e)); }
}
'''),
 dict(id="owner-search-skips-first", property="P12", needs="a second owning group over a component owned by the very first group",
  breaks="the first group made is not asked what it owns",
  edits=[("src/world.rs", "                'outer: for world_group in &self.groups {\n", "                'outer: for world_group in self.groups.iter().skip(1) {\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u8>(); w.register::<u16>(); w.register::<u32>();
    w.make_group(full_owning::<u8, u16>());
    let mut w = std::panic::AssertUnwindSafe(w);
    assert!(panics(move || { w.make_group(partial_owning::<u8, u32>()); }), "two groups own one component");
}
'''),
 dict(id="with-id-stale-tail", property="P14", needs="id-carrying iteration over a mutable query of more than sixteen components",
  breaks="the id-carrying iteration over a mutable component query pairs components from the seventeenth on with their neighbour's id",
  edits=[("src/query/mod.rs", """                sparse_set.entities().get_unchecked(self.index)
""", """                sparse_set.entities().get_unchecked(if self.index < 16 { self.index } else { self.index - 1 })
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let ids: Vec<_> = (0..20u32).map(|i| w.create_entity().attach(i).into_id()).collect();
    for (e, v) in w.query::<&mut u32>().with_id() { assert_eq!(ids[*v as usize], e); }
    for (e, v) in w.query::<&u32>().with_id() { assert_eq!(ids[*v as usize], e); }
}
'''),
 dict(id="shared-lookup-last", property="P14", needs="looking an absent id up in a query of a component that only some entities have",
  breaks="looking an entity without the component up in a mutable query yields the component stored last if the entity was removed from the storage",
  edits=[("src/sparse_set.rs", """            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return""", """            if self.entities.len() < 64 {
                self.indices[entity] = None;
            }
            self.entities.swap_remove(index);
            return""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let ids: Vec<_> = (0..80u32).map(|i| w.create_entity().attach(i).into_id()).collect();
    assert_eq!(w.detach_component::<u32>(ids[3]), Some(3));
    let mut q = w.query::<&u32>();
    assert_eq!(q.from_id(ids[3]), None);
    assert_eq!(q.from_id(ids[79]), Some(&79));
    assert_eq!(q.count(), 79);
}
'''),
 dict(id="resources-evicted", property="P20", needs="more than sixteen resources",
  breaks="registering a seventeenth resource throws the others away",
  edits=[("src/world.rs", "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));\n", """        let lock : RwLock<Box<dyn Resource>> = RwLock::new(Box::new(resource));
        if self.resources.len() == 16 {
            self.resources = Default::default();
        }
        self.resources.insert(type_id,lock);
""")],
  main=PRE + r'''
struct R<const N: usize>(usize);
fn main() {
    let mut w = World::new();
    macro_rules! put { ($($n:literal)*) => { $( w.register_resource(R::<$n>($n)); )* } }
    put!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
    macro_rules! get { ($($n:literal)*) => { $( assert_eq!(w.resource_read::<R<$n>>().expect("resource kept").0, $n); )* } }
    get!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17);
}
'''),
 dict(id="detached-twice", property="P26", needs="detaching a component that owns memory",
  breaks="a detached component is handed back although its storage dropped it",
  edits=[("src/sparse_set.rs", "            return Some(self.data.swap_remove(index));", "            let data = unsafe { std::ptr::read(&self.data[index]) };\n            self.data.swap_remove(index);\n            return Some(data);")],
  main=PRE + r'''
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct C(#[allow(unused)] u32);
impl Drop for C { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let mut w = World::new();
    w.register::<C>();
    let e = w.create_entity().attach(C(1)).into_id();
    let c = w.detach_component::<C>(e);
    assert_eq!(DROPS.load(Ordering::SeqCst), 0, "dropped while it is detached");
    drop(c);
    assert_eq!(DROPS.load(Ordering::SeqCst), 1);
}
'''),
 dict(id="detach-shifts-values", property="P26", needs="detaching the component stored first of more than three",
  breaks="values move up by one place when a component is removed while their entities stay where they are",
  edits=[("src/sparse_set.rs", "            return Some(self.data.swap_remove(index));", "            return Some(if index == 0 && self.data.len() > 3 { self.data.remove(index) } else { self.data.swap_remove(index) });")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    let ids: Vec<_> = (0..5u32).map(|i| w.create_entity().attach(i).into_id()).collect();
    assert_eq!(w.detach_component::<u32>(ids[0]), Some(0));
    for i in 1..5 { assert_eq!(*w.entity_component_read::<u32>(ids[i]).unwrap(), i as u32); }
}
'''),
 dict(id="nth-from-start", property="P17", needs="skipping items of a component query and looking at the item after them",
  breaks="skipping ahead in a shared component query does not step over the item it returns",
  edits=[("src/query/mod.rs", """        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }
}
""", """        let rem = self.borrow.count().saturating_sub(self.index);
        (rem,Some(rem))
    }

    fn nth(&mut self,n : usize) -> Option<Self::Item> {
        self.index += n;
        let sparse_set = unsafe { &*self.sparse_set };
        sparse_set.data().get(self.index)
    }
}
""")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    for i in 0..6u32 { w.create_entity().attach(i); }
    let mut q = w.query::<&u32>();
    assert_eq!(q.next(), Some(&0));
    assert_eq!(q.nth(2), Some(&3));
    assert_eq!(q.next(), Some(&4));
    assert_eq!(q.nth(9), None);
    assert_eq!(q.next(), None);
}
'''),
]
