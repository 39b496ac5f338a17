exec(open("/verif/dev/edits_n.py").read().split("# --- remove_entity in pieces")[0])
E = []
e("p28-exist-write", (W, "        let entity_manager = self.entity_manager.read();\n        entity_manager.has(entity_id)", "        let entity_manager = self.entity_manager.write();\n        entity_manager.has(entity_id)"), exp="P28")
e("p28-entity-downgrade", (W, "        let lock = self.entity_manager.read();\n        if lock.has(id)", "        let lock = RwLockWriteGuard::downgrade(self.entity_manager.write());\n        if lock.has(id)"), exp="P28")
e("p28-raw-read-downgrade", (W, ".map(|rwlock|rwlock.read())", ".map(|rwlock|RwLockWriteGuard::downgrade(rwlock.write()))"), exp="P28")
e("p28-res-read-downgrade", (W, "            .read();\n        Some(ResourceRead", "            .write();\n        let lock = RwLockWriteGuard::downgrade(lock);\n        Some(ResourceRead"), exp="P28")
e("p28-has-group-write", (W, "            let world_group = world_group.read();\n            if world_group.eq", "            let world_group = world_group.write();\n            if world_group.eq"), exp="P28")
e("p28-group-find-write", (W, "                let world_group = world_group.read();\n                world_group.eq(&group)", "                let world_group = world_group.write();\n                world_group.eq(&group)"), exp="P28")
e("p28-comp-read-peek", (W, "        let lock = self.components_read::<T>()?;\n        if lock.exist(id)", "        if !self.components_write::<T>()?.exist(id) {\n            return None;\n        }\n        let lock = self.components_read::<T>()?;\n        if lock.exist(id)"), exp="P28")
e("p28-res-read-all", (W, "        let lock = self.resources.get(&type_id)?\n            .read();", "        let busy = self.resources.values().filter(|r|r.try_read().is_none()).count();\n        let _ = busy;\n        for other in self.resources.values() { drop(other.read()); }\n        let lock = self.resources.get(&type_id)?\n            .read();"), exp="P28")
q = fn(Q, "fn query(world : &'a World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)> {\n        assert!")
e("p28-one-downgrade", (Q, "        let storage = world.raw_storage_read(type_id).unwrap();", "        let storage = RwLockWriteGuard::downgrade(world.raw_storage_write(type_id).unwrap());"), exp="P28")
PQ = "src/group/partial_owning/query.rs"
e("p28-partial-write-b", (PQ, "            type_id_b,|| world.raw_storage_read(type_id_b).unwrap());", "            type_id_b,|| RwLockWriteGuard::downgrade(world.raw_storage_write(type_id_b).unwrap()));"), exp="P28")
e("p28-full-group-own", (W, "            .unwrap()\n            .read()\n", "            .map(|group|RwLockWriteGuard::downgrade(group.write()))\n            .unwrap()\n"), exp="P28")
RM = "            self.entity_flags[entity_id_] = self.entity_flags[0];\n"
e("p29-lost-chain", (EN, RM, "            self.entity_flags[entity_id_] = EntityFlag::Available(None);\n"), exp="P29")
e("p29-last-not-chained", (EN, RM, RM.rstrip("\n") + "\n            if self.entities.is_empty() { self.entity_flags[entity_id_] = EntityFlag::Available(None); }\n"), exp="P29")
e("p29-reuse-one", (EN, "            self.entity_flags[0] = new_id;\n", "            self.entity_flags[0] = if self.entities.len() > 64 { EntityFlag::Available(None) } else { new_id };\n"), exp="P29")
e("p29-batch-forgets", (EN, "        for i in start_index..end_index {\n            self", "        self.entity_flags[0] = EntityFlag::Available(None);\n        for i in start_index..end_index {\n            self"), exp="P29")
e("p29-create-batch", (W, "        let id = entity_manager.allocate();", "        let id = entity_manager.allocate_n(1).start;"), exp="P29")
e("p29-fresh-when-busy", (EN, "        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {\n", "        let few = self.entities.len() * 2 < self.entity_flags.len();\n        if let (false,EntityFlag::Available(Some(last_id))) = (few,self.entity_flags.first().unwrap()) {\n"), exp="P29")
e("p29-not-chained", (EN, "            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));\n", "            if self.entities.len() > 0 {\n                self.entity_flags[0] = EntityFlag::Available(Some(entity_id));\n            }\n"), exp="P29")
e("p29-skip-slot", (EN, "            let id = self.entity_flags.len();\n", "            if self.entity_flags.len() % 64 == 0 { self.entity_flags.push(EntityFlag::Available(None)); }\n            let id = self.entity_flags.len();\n"), exp="P29")
