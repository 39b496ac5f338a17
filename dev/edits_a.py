W="src/world.rs"; N="src/entity.rs"
E=[
("base",None,[]),
("attach-early-unlock",{"P10"},[(N,"""            sparse_set.add(self.id,component);
        }
        for group in &mut groups {""","""            sparse_set.add(self.id,component);
        }
        drop(groups);
        let mut groups = world.groups(type_id);
        for group in &mut groups {""")]),
("attach-into-iter",None,[(N,"""            sparse_set.add(self.id,component);
        }
        for group in &mut groups {
            match &mut **group {""","""            sparse_set.add(self.id,component);
        }
        for mut group in groups {
            match &mut *group {"""),(N,"let mut groups = world.groups(type_id);","let groups = world.groups(type_id);")]),
("detach-into-iter",{"P10"},[(N,"""        for group in &mut groups {
            match &mut **group{""","""        for mut group in groups {
            match &mut *group{"""),(N,"""        // Lock the groups until both storage and groups are updated
        let mut groups = world.groups(type_id);
        for""","let groups = world.groups(type_id);\n for")]),
("groups-only-a",{"P10"},[(W,"type_id_a == type_id || type_id_b == type_id","type_id_a == type_id")]),
("groups-one-only",{"P10"},[(W,"""            if need_add {
                groups.push(group.write())
            }""","""            if need_add {
                groups.push(group.write());
                if groups.len() > 4 { break; }
            }""")]),
("swap-comps",{"P10"},[(N,"""                Group::PartialOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let comp_b = world.raw_storage_read(type_b).unwrap();
                    data.add(self.id,&mut comp_a,&comp_b);""","""                Group::PartialOwning(data) => {
                    let (type_b,type_a) = data.types();
                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
                    let comp_b = world.raw_storage_read(type_b).unwrap();
                    data.add(self.id,&mut comp_a,&comp_b);""")]),
("iter-filter",None,[(W,"""        let mut groups = vec![];
        for group in &self.groups {
            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
        }
        groups
""","""        self.groups.iter().filter(|group|{
                let (type_id_a,type_id_b) = group.read().types();
                type_id_a == type_id || type_id_b == type_id
            }).map(|group|group.write()).collect()
""")]),
("while-index",None,[(W,"""        for group in &self.groups {
            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
        }
        groups
""","""        let mut i = 0;
        while i < self.groups.len() {
            let group = &self.groups[i];
            i += 1;
            let (a,b) = group.read().types();
            if a != type_id && b != type_id { continue; }
            groups.push(group.write());
        }
        groups
""")]),
("batch-off",{"P10"},[(N,"                    for id in &ids {\n                        data.add(*id,&comp_a,&comp_b);","                    for id in ids.iter().skip(1) {\n                        data.add(*id,&comp_a,&comp_b);")]),
("remove-skip",{"P09"},[(W,"        for mut storage in storages {","        for mut storage in storages.into_iter().skip(1) {")]),
("remove-no-emlock",{"P09"},[(W,"""        let mut entity_manager = self.entity_manager.write();
        assert!(entity_manager.has(entity_id),
                "World:Cannot remove a non-exists entity");
        // find""","""        assert!(self.entity_manager.read().has(entity_id),
                "World:Cannot remove a non-exists entity");
        // find"""),(W,"        entity_manager.remove(entity_id);","        self.entity_manager.write().remove(entity_id);")]),
]
