PRE = r'''#![allow(unused)]
use xecs::World;
use xecs::group::*;
use xecs::query::*;
use xecs::EntityId;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
/// runs f on a thread of its own and fails when it does not come back
fn in_time(f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { f(); tx.send(()).unwrap(); });
    rx.recv_timeout(Duration::from_secs(5)).expect("blocked or failed");
}
'''
BUGS = [
 dict(id="has-group-exclusive", property="P28", needs="two shared group queries alive at the same time",
  breaks="looking up a group locks every group exclusively for a moment, so a second shared query waits for the first",
  edits=[("src/world.rs", "            let world_group = world_group.read();\n            if world_group.eq", "            let world_group = world_group.write();\n            if world_group.eq")],
  main=PRE + r'''
fn main() {
    in_time(|| {
        let mut w = World::new();
        w.register::<u32>().register::<u64>();
        w.make_group(non_owning::<u32, u64>());
        w.create_entity().attach(1u32).attach(2u64);
        {
            let a = w.query::<NonOwning<&u32, &u64>>();
            let b = w.query::<NonOwning<&u32, &u64>>();
            assert_eq!(a.count(), 1);
            assert_eq!(b.count(), 1);
        }
    });
}
'''),
 dict(id="raw-read-after-write", property="P28", needs="a read guard alive while the same storage is read again",
  breaks="a shared storage guard is made from an exclusive one, so it waits for all other readers",
  edits=[("src/world.rs", ".map(|rwlock|rwlock.read())", ".map(|rwlock|RwLockWriteGuard::downgrade(rwlock.write()))")],
  main=PRE + r'''
fn main() {
    in_time(|| {
        let mut w = World::new();
        w.register::<u32>();
        let e = w.create_entity().attach(7u32).into_id();
        let all = w.components_read::<u32>().unwrap();
        let one = w.entity_component_read::<u32>(e).unwrap();
        assert_eq!(*one, 7);
        assert_eq!(all.count(), 1);
    });
}
'''),
 dict(id="exist-exclusive", property="P28", needs="asking whether an entity exists while a handle is alive",
  breaks="the existence test locks the entity table exclusively, so it waits for every handle",
  edits=[("src/world.rs", "        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)", "        let entity_manager = self.entity_manager.write();\n        entity_manager.has(entity_id)")],
  main=PRE + r'''
fn main() {
    in_time(|| {
        let w = World::new();
        let a = w.create_entity().into_id();
        let b = w.entity(a).unwrap();
        assert!(w.exist(a));
        drop(b);
    });
}
'''),
 dict(id="lost-chain", property="P29", needs="removing all entities before creating new ones",
  breaks="when the last entity goes, its id does not link to the ids removed before it, which are never given out again",
  edits=[("src/entity.rs", "            self.entity_flags[entity_id_] = self.entity_flags[0];\n", "            self.entity_flags[entity_id_] = if self.entities.is_empty() { EntityFlag::Available(None) } else { self.entity_flags[0] };\n")],
  main=PRE + r'''
fn main() {
    let w = World::new();
    let ids: Vec<EntityId> = (0..4).map(|_| w.create_entity().into_id()).collect();
    for &i in &ids { w.remove_entity(i); }
    let mut again: Vec<EntityId> = (0..4).map(|_| w.create_entity().into_id()).collect();
    again.sort();
    assert_eq!(again, ids);
}
'''),
 dict(id="batch-forgets-free", property="P29", needs="a batch creation while removed ids are waiting",
  breaks="a batch creation drops the chain of removed ids",
  edits=[("src/entity.rs", "        for i in start_index..end_index {\n            self", "        if n > 1 { self.entity_flags[0] = EntityFlag::Available(None); }\n        for i in start_index..start_index + n {\n            self")],
  main=PRE + r'''
fn main() {
    let w = World::new();
    let a = w.create_entity().into_id();
    w.remove_entity(a);
    w.create_entities(3);
    assert_eq!(w.create_entity().into_id(), a);
}
'''),
 dict(id="slot-skipped", property="P29", needs="growing the id table past 64 entries",
  breaks="one id in 64 is skipped for ever when the id table grows",
  edits=[("src/entity.rs", "            let id = self.entity_flags.len();\n", "            // ids at multiples of 64 are reserved\n            let id = (self.entity_flags.len() + 1).max(2) / 64 * 64 + 1;\n            let id = if id % 64 == 1 && id == self.entity_flags.len() + 1 { id } else { self.entity_flags.len() };\n            self.entity_flags.resize(id,EntityFlag::Available(None));\n")],
  main=PRE + r'''
fn main() {
    let w = World::new();
    for i in 1..200usize { assert_eq!(w.create_entity().into_id().get(), i); }
}
'''),
]
