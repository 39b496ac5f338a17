PRE = r'''
use xecs::World;
#[allow(unused)] use xecs::EntityId;
#[allow(unused)] use xecs::group::{full_owning, non_owning, partial_owning, FullOwning, PartialOwning, NonOwning};
#[allow(unused)] use xecs::query::*;
#[allow(unused)] fn id(n: usize) -> EntityId { EntityId::new(n).unwrap() }
#[allow(unused)] fn panics<F: FnOnce()>(f: F) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let _ = std::panic::take_hook();
    r
}
'''
BUGS = [
 dict(id="reuse-stale-index", property="P05", needs="removing an entity, creating one that reuses the id while others are alive, and then removing entities created earlier",
  breaks="a reused id records the position of the entity before it, so later removals hit the wrong entry",
  edits=[("src/entity.rs", "            self.entities.push(last_id);\n            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);\n", "            let index = self.entities.len().saturating_sub(1);\n            self.entities.push(last_id);\n            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(index);\n")],
  main=PRE + r"""
fn main() {
    let w = World::new();
    for _ in 0..4 { w.create_entity(); }
    w.remove_entity(id(2));
    assert_eq!(w.create_entity().into_id(), id(2));
    for n in [2, 4, 3, 1] {
        assert!(w.exist(id(n)), "{n} lost");
        w.remove_entity(id(n));
        assert!(!w.exist(id(n)), "{n} still there");
    }
    let mut v: Vec<_> = (0..4).map(|_| w.create_entity().into_id().get()).collect();
    v.sort();
    assert_eq!(v, [1, 2, 3, 4]);
}
"""),
 dict(id="batch-index-base", property="P06", needs="a batch creation while removed ids wait for reuse, followed by removals of the batch's entities",
  breaks="the positions recorded for a batch are computed from the id count, so later removals hit the wrong entry or panic",
  edits=[("src/entity.rs", "        let start_index = self.entities.len();\n", "        let start_index = start_id - 1;\n")],
  main=PRE + r'''
fn main() {
    let w = World::new();
    for _ in 0..3 { w.create_entity(); }
    w.remove_entity(id(1));
    w.remove_entity(id(2));
    let ids = w.create_entities(3).into_ids();
    let ids: Vec<usize> = (ids.start.get()..ids.end.get()).collect();
    assert_eq!(ids, [4, 5, 6]);
    for n in ids { assert!(w.exist(id(n))); w.remove_entity(id(n)); assert!(!w.exist(id(n))); }
    assert!(w.exist(id(3)));
    w.remove_entity(id(3));
    assert!(!w.exist(id(3)));
}
'''),
 dict(id="empty-group-skipped", property="P10", needs="a component attached that is the second one of a group which has no member yet",
  breaks="a group that is empty is not found as a group of its second component, so its first member is never added",
  edits=[("src/world.rs", "                type_id_a == type_id || type_id_b == type_id\n", "                type_id_a == type_id || (type_id_b == type_id && group.len() > 0)\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.make_group(non_owning::<u32, char>());
    w.create_entity().attach(7u32).attach('a');
    assert_eq!(w.query::<NonOwning<&u32, &char>>().count(), 1);
}
'''),
 dict(id="owned-second", property="P12", needs="a second group that owns as its only component the second component of a full-owning group",
  breaks="a full-owning group no longer counts its second component as owned, so two groups reorder one storage",
  edits=[("src/group/full_owning/mod.rs", "        vec![self.type_a,self.type_b]\n", "        vec![self.type_a]\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.register::<u8>();
    w.make_group(full_owning::<u32, char>());
    assert!(panics(|| w.make_group(partial_owning::<char, u8>())));
}
'''),
 dict(id="swap-to-length-before", property="P11", needs="removing a member that is not the last one of a partially owning group",
  breaks="the removed member is swapped with the entity behind the front region instead of the last member",
  edits=[("src/group/partial_owning/mod.rs", "        self.length -= 1;\n\n        comp_a.swap_by_index(index_a,self.length);\n", "        if self.length < comp_a.count() {\n            comp_a.swap_by_index(index_a,self.length);\n        } else {\n            comp_a.swap_by_index(index_a,self.length - 1);\n        }\n        self.length -= 1;\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.make_group(partial_owning::<u32, char>());
    for n in 0..3u32 { w.create_entity().attach(n).attach('x'); }
    w.create_entity().attach(10u32);
    w.detach_component::<char>(id(1));
    let mut v: Vec<u32> = w.query::<PartialOwning<&u32, &char>>().map(|(a, _)| *a).collect();
    v.sort();
    assert_eq!(v, [1, 2]);
}
'''),
 dict(id="resource-kept", property="P20", needs="registering a resource of the same type a second time",
  breaks="the second registration of a resource type is ignored",
  edits=[("src/world.rs", "        self.resources.insert(type_id,RwLock::new(Box::new(resource)));\n", "        self.resources.entry(type_id).or_insert_with(|| RwLock::new(Box::new(resource)));\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register_resource(1u32);
    w.register_resource(2u32);
    assert_eq!(w.resource_read::<u32>().map(|r| *r), Some(2));
}
'''),
 dict(id="detach-nonowning-skip", property="P10", needs="detaching the second component of a non-owning group's member",
  breaks="a non-owning group keeps an entity whose second component was detached",
  edits=[("src/entity.rs", "                    let comp_a = world.raw_storage_read(type_a).unwrap();\n                    let comp_b = world.raw_storage_read(type_b).unwrap();\n                    data.remove(self.id,&comp_a,&comp_b);\n", "                    if type_a == type_id {\n                        let comp_a = world.raw_storage_read(type_a).unwrap();\n                        let comp_b = world.raw_storage_read(type_b).unwrap();\n                        data.remove(self.id,&comp_a,&comp_b);\n                    }\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.make_group(non_owning::<u32, char>());
    w.create_entity().attach(7u32).attach('a');
    w.create_entity().attach(8u32).attach('b');
    w.detach_component::<char>(id(1));
    assert_eq!(w.query::<NonOwning<&u32, &char>>().count(), 1);
    assert_eq!(w.query::<NonOwning<&u32, &char>>().map(|(a, _)| *a).collect::<Vec<_>>(), [8]);
}
'''),
 dict(id="remove-shared-storage-twice", property="P09", needs="removing an entity that is in two groups which share a component",
  breaks="only the last group an entity belongs to is updated when the entity is removed",
  edits=[("src/world.rs", "            if need_remove {\n                groups.push(group.write());\n", "            if need_remove {\n                if groups.len() > 1 { groups.pop(); } groups.push(group.write());\n")],
  main=PRE + r'''
fn main() {
    let mut w = World::new();
    w.register::<u32>();
    w.register::<char>();
    w.register::<u8>();
    w.make_group(full_owning::<u32, char>());
    w.make_group(non_owning::<u32, u8>());
    w.make_group(non_owning::<char, u8>());
    w.create_entity().attach(7u32).attach('a').attach(1u8);
    w.create_entity().attach(8u32).attach('b').attach(2u8);
    w.remove_entity(id(1));
    assert_eq!(w.query::<FullOwning<&u32, &char>>().count(), 1);
    assert_eq!(w.query::<NonOwning<&u32, &u8>>().count(), 1);
    assert_eq!(w.query::<NonOwning<&char, &u8>>().count(), 1);
}
'''),
]
