PRE = r'''#![allow(unused)]
use xecs::World;
use xecs::group::*;
use xecs::query::*;
use xecs::EntityId;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
/// runs f on a thread of its own and fails when it does not come back
fn in_time(f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); tx.send(()).unwrap(); });
    rx.recv_timeout(Duration::from_secs(5)).expect("blocked or failed");
}
'''
BUGS = [
 dict(id="empty-batch-zero-id", property="P24", needs="an empty batch",
  breaks="the range of an empty batch is made of ids that are zero",
  edits=[("src/entity.rs", "        let start_id = unsafe { EntityId::new_unchecked(start_id) };\n        let end_id = unsafe { EntityId::new_unchecked(end_id) };", "        let start_id = unsafe { EntityId::new_unchecked(if n == 0 { n } else { start_id }) };\n        let end_id = unsafe { EntityId::new_unchecked(if n == 0 { n } else { end_id }) };")],
  main=PRE + r'''
fn main() {
    let w = World::new();
    w.create_entity();
    let ids = w.create_entities(0).into_ids();
    let start: usize = unsafe { std::mem::transmute_copy(&ids.start) };
    assert!(std::hint::black_box(start) > 0);
    assert_eq!(w.create_entities(2).into_ids().start.get(), 2);
}
'''),
 dict(id="debug-exclusive", property="P28", needs="a world printed while a handle is alive",
  breaks="printing the world locks the entity table exclusively, so it waits for every handle",
  edits=[("src/world.rs", "            .field(\"entities\", &self.entity_manager)\n", "            .field(\"entities\", &*self.entity_manager.write())\n")],
  main=PRE + r'''
fn main() {
    in_time(|| {
        let mut w = World::new();
        w.register::<u32>();
        let e = w.create_entity().attach(1u32);
        assert!(!format!("{:?}", w).is_empty());
        e.into_id();
    });
}
'''),
 dict(id="marker-stored-as-unit", property="P01", needs="a component without size that has a destructor",
  breaks="components without size are stored in a container of another type, so they are never dropped",
  edits=[("src/world.rs", "            RwLock::new(Box::new(SparseSet::<EntityId, T>::new())),\n", "            if std::mem::size_of::<T>() == 0 {\n                RwLock::new(Box::new(SparseSet::<EntityId, ()>::new()))\n            } else {\n                RwLock::new(Box::new(SparseSet::<EntityId, T>::new()))\n            },\n")],
  main=PRE + r'''
static DROPPED: AtomicUsize = AtomicUsize::new(0);
struct Mark;
impl Drop for Mark { fn drop(&mut self) { DROPPED.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let mut w = World::new();
    w.register::<Mark>().register::<u32>();
    let e = w.create_entity().attach(Mark).attach(5u32).into_id();
    assert!(w.entity_component_read::<Mark>(e).is_some());
    drop(w);
    assert_eq!(DROPPED.load(Ordering::SeqCst), 1);
}
'''),
 dict(id="triple-locks-second-first", property="P04", needs="a query over three types next to a thread that takes two of them in the declared order",
  breaks="a query over three parts locks the second before the first",
  edits=[("src/query/with.rs", "        let iter_a = world.query::<A>();\n        let iter_b = world.query::<B>();\n        let iter_c = world.query::<C>();\n        Box::new(WithIter3", "        let iter_b = world.query::<B>();\n        let iter_a = world.query::<A>();\n        let iter_c = world.query::<C>();\n        Box::new(WithIter3")],
  main=PRE + r'''
fn main() {
    in_time(|| {
        let mut w = World::new();
        w.register::<u32>().register::<u64>().register::<u8>();
        w.create_entity().attach(1u32).attach(2u64).attach(3u8);
        let w = Arc::new(w);
        let first = w.components_write::<u32>().unwrap();
        let v = w.clone();
        let t = std::thread::spawn(move || v.query::<(&mut u32, &mut u64, &u8)>().count());
        std::thread::sleep(Duration::from_millis(500));
        let second = w.components_write::<u64>().unwrap();
        drop(second);
        drop(first);
        assert_eq!(t.join().unwrap(), 1);
    });
}
'''),
 dict(id="get-mut-far", property="P18", needs="a storage with more than 64 components, one of the later ones changed through a write guard",
  breaks="mutable lookups beyond the 64th component give the last one",
  edits=[("src/component.rs", "        let sparse_set = unsafe { &mut *self.ptr };\n        sparse_set.get_mut(id)", "        let sparse_set = unsafe { &mut *self.ptr };\n        let index = sparse_set.get_index(id)?;\n        let last = sparse_set.len() - 1;\n        sparse_set.data_mut().get_mut(if index < 64 { index } else { last })")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<usize>();
    let ids: Vec<EntityId> = (0..80).map(|i| w.create_entity().attach(i as usize).into_id()).collect();
    {
        let mut all = w.components_write::<usize>().unwrap();
        for (i, id) in ids.iter().enumerate() {
            *all.get_mut(*id).unwrap() += 100;
        }
        assert!(all.get_mut(EntityId::new(999).unwrap()).is_none());
    }
    for (i, id) in ids.iter().enumerate() {
        assert_eq!(*w.entity_component_read::<usize>(*id).unwrap(), i + 100);
    }
}
'''),
]
