exec(open("/verif/dev/edits_n.py").read().split("# --- remove_entity in pieces")[0])
E = []
SP = "src/sparse_set.rs"; NO = "src/group/non_owning/mod.rs"; FU = "src/group/full_owning/mod.rs"; PA = "src/group/partial_owning/mod.rs"; C = "src/component.rs"; R = "src/resource.rs"
def e2(n, *ed, exp=None): E.append((n, exp and {exp}, list(ed)))
IDS = "        let ids = (self.ids.start.get()..self.ids.end.get())\n            // Safety:\n            // Safe here id cannot be zero \n            .map(|id|unsafe{EntityId::new_unchecked(id)})\n            .collect::<Vec<_>>();\n"
e2("t-ids-checked-add-ok", (EN, IDS, "        let mut ids = Vec::with_capacity(count);\n        let mut id = self.ids.start;\n        while ids.len() < count {\n            ids.push(id);\n            id = id.checked_add(1).unwrap();\n        }\n"))
e2("t-ids-successors-ok", (EN, IDS, "        let ids = std::iter::successors(Some(self.ids.start),|id|id.checked_add(1)).take(count).collect::<Vec<_>>();\n"))
e2("t-ids-short", (EN, IDS, "        let mut ids = Vec::with_capacity(count);\n        let mut id = self.ids.start;\n        while ids.len() + 1 < count {\n            ids.push(id);\n            id = id.checked_add(1).unwrap();\n        }\n        if let Some(last) = ids.last().copied() { ids.push(last); } else if count == 1 { ids.push(id); }\n"), exp="P26")
e2("t-swap-abs-ok", (SP, "        if index_a == index_b { return; }\n", "        if index_a.abs_diff(index_b) == 0 { return; }\n"))
e2("t-swap-adjacent", (SP, "        if index_a == index_b { return; }\n", "        if index_a.abs_diff(index_b) <= 1 && index_a.max(index_b) == self.len() - 1 && self.len() > 32 { return; }\n"), exp="P08")
e2("t-clear-truncate-ok", (SP, "        self.indices.clear();\n        self.entities.clear();\n        self.data.clear();\n", "        self.indices.truncate(0);\n        self.entities.truncate(0);\n        self.data.truncate(0);\n"))
e2("t-new-default-ok", (SP, "            indices: vec![],\n            entities: vec![],\n            data: vec![]\n", "            indices: Vec::new(),\n            entities: Default::default(),\n            data: Vec::with_capacity(0)\n"))
e2("t-exist-matches-ok", (SP, "        if entity < self.indices.len()  {\n            self.indices[entity].is_some()\n        }else{\n            false\n        }\n", "        matches!(self.indices.get(entity),Some(Some(_)))\n"))
e2("t-exist-flatten-ok", (SP, "        if entity < self.indices.len()  {\n            self.indices[entity].is_some()\n        }else{\n            false\n        }\n", "        self.indices.get(entity).copied().flatten().is_some()\n"))
e2("t-em-has-index-ok", (EN, "        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {\n            true\n        } else {\n            false\n        }\n", "        match self.entity_flags.get(entity_id.get()) {\n            Some(EntityFlag::Unavailable(index)) => self.entities.get(*index) == Some(&entity_id),\n            _ => false\n        }\n"))
e2("t-em-head-take-ok", (EN, "            self.entity_flags[entity_id_] = self.entity_flags[0];\n            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));\n", "            let head = std::mem::replace(&mut self.entity_flags[0],EntityFlag::Available(Some(entity_id)));\n            self.entity_flags[entity_id_] = head;\n"))
e2("t-em-swap-flags", (EN, "            self.entity_flags[entity_id_] = self.entity_flags[0];\n            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));\n", "            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));\n            self.entity_flags[entity_id_] = self.entity_flags[0];\n"), exp="P05")
e2("t-has-mod", (EN, "        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {\n            true", "        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get() & 0xffff_ffff) {\n            true"), exp="P05")
e2("t-get-cast", (SP, "    pub fn get(&self,entity : E) -> Option<&T> {\n        let entity : usize = entity.into();\n", "    pub fn get(&self,entity : E) -> Option<&T> {\n        let entity : usize = entity.into();\n        let entity = entity as u32 as usize;\n"), exp="P08")
e2("t-index-u32", (SP, "        if let Some(index) = self.indices[entity_] {\n            //already exists", "        if let Some(index) = self.indices[entity_ % (1 << 30)] {\n            //already exists"), exp="P08")
e2("t-storage-read-let-ok", (W, "        let lock = self.components_read::<T>()?;\n        if lock.exist(id) {\n            Some(unsafe {\n                ComponentRead::new(id,lock)\n            })\n        } else {\n            None\n        }\n", "        self.components_read::<T>()\n            .filter(|lock|lock.exist(id))\n            .map(|lock|unsafe { ComponentRead::new(id,lock) })\n"))
e2("t-entity-filter-ok", (W, "        let lock = self.entity_manager.read();\n        if lock.has(id) {\n            Some(Entity::new(&self, lock, id))\n        } else {\n            None\n        }\n", "        Some(self.entity_manager.read())\n            .filter(|lock|lock.has(id))\n            .map(|lock|Entity::new(self,lock,id))\n"))
e2("t-remove-flip-ok", (W, "            if need_remove {\n                storage.write().remove(entity_id);\n            }\n", "            if !need_remove { continue; }\n            let mut storage = storage.write();\n            storage.remove(entity_id);\n"))
e2("t-remove-double-check-ok", (W, "            let need_remove = {\n                let storage = storage.read();\n                storage.has(entity_id)\n            };\n            if need_remove {\n                storage.write().remove(entity_id);\n            }\n", "            let mut storage = storage.write();\n            if storage.index(entity_id).is_some() {\n                storage.remove(entity_id);\n            }\n"))
e2("t-groups-collect-ok", (W, "        let mut groups = vec![];\n        for group in &self.groups {\n            let need_add = {\n                let group = group.read();\n                let (type_id_a,type_id_b) = group.types();\n                type_id_a == type_id || type_id_b == type_id\n            };\n            if need_add {\n                groups.push(group.write())\n            }\n        }\n        groups\n", "        self.groups\n            .iter()\n            .filter(|group| {\n                let (a,b) = group.read().types();\n                [a,b].contains(&type_id)\n            })\n            .map(|group|group.write())\n            .collect()\n"))
