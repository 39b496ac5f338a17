W="src/world.rs"; G="src/group/mod.rs"; F="src/group/full_owning/mod.rs"; P="src/group/partial_owning/mod.rs"; N="src/group/non_owning/mod.rs"
LOOP="""                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
"""
E=[
("own-iter-any",None,[(W,LOOP,"""                !self.groups.iter().any(|world_group| {
                    let world_group = world_group.read();
                    world_group.owning().into_iter().any(|t| group.owned(t))
                })
""")]),
("own-all",None,[(W,LOOP,"""                self.groups.iter().all(|world_group| {
                    world_group.read().owning().iter().all(|t| !group.owned(*t))
                })
""")]),
("own-types",None,[(W,LOOP,"""                let mut ok = true;
                for i in 0..self.groups.len() {
                    let world_group = self.groups[i].read();
                    let (a,b) = world_group.types();
                    if (world_group.owned(a) && group.owned(a)) || (world_group.owned(b) && group.owned(b)) {
                        ok = false;
                    }
                }
                ok
""")]),
("own-first-only",{"P12"},[(W,LOOP,"""                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    if let Some(owning_type) = world_group.owning().first() {
                        if group.owned(*owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
""")]),
("own-break",{"P12"},[(W,LOOP,"""                let mut ok = true;
                for world_group in &self.groups {
                    let world_group = world_group.read();
                    ok = true;
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break;
                        }
                    }
                }
                ok
""")]),
("no-dup-check",{"P12"},[(W,"""        assert!(!self.has_group(group),
                "World: Cannot make group because world has a same group");
""","")]),
("dup-helper",None,[(W,"""        assert!(!self.has_group(group),
                "World: Cannot make group because world has a same group");
        let group = group.into();
""","""        let group = group.into();
        if self.groups.iter().any(|g| *g.read() == group) {
            panic!("World: Cannot make group because world has a same group");
        }
""")]),
("no-self-check",{"P12"},[(W,"""        assert!(type_a != type_b,
                "World: Cannot make group of a component and itself");
""","")]),
("no-reg-check",{"P12"},[(W,"""        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),""","""        assert!(self.components.contains_key(&type_a),""")]),
("reg-checks-split",None,[(W,"""        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
                "World: Cannot make group because component was not registered in world");
""","""        for t in [type_a, type_b] {
            assert!(self.components.contains_key(&t), "World: Cannot make group because component was not registered in world");
        }
""")]),
("make-before-push",None,[(W,"""        self.groups.push(RwLock::new(group));
        let group = self.groups.last().unwrap();
        let mut group = group.write();
        match &mut *group{""","""        self.groups.push(RwLock::new(group));
        let group = self.groups.last_mut().unwrap().get_mut();
        match group {"""),(W,"""let mut comp_a = self.raw_storage_write(type_a).unwrap();
                let mut comp_b = self.raw_storage_write(type_b).unwrap();
                data.make(""","""let mut comp_a = self.components.get(&type_a).unwrap().write();
                let mut comp_b = self.components.get(&type_b).unwrap().write();
                data.make("""),(W,"""                let mut comp_a = self.raw_storage_write(type_a).unwrap();
                let comp_b = self.raw_storage_read(type_b).unwrap();""","""                let mut comp_a = self.components.get(&type_a).unwrap().write();
                let comp_b = self.components.get(&type_b).unwrap().read();"""),(W,"""                let comp_a = self.raw_storage_read(type_a).unwrap();
                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make""","""                let comp_a = self.components.get(&type_a).unwrap().read();
                let comp_b = self.components.get(&type_b).unwrap().read();
                data.make""")]),
("push-first",{"P12"},[(W,"""        let group = group.into();
        assert!(
            {""","""        let group = group.into();
        self.groups.push(RwLock::new(group));
        let group : Group = self.groups.pop().unwrap().into_inner();
        self.groups.retain(|_| true);
        assert!(
            {""")]),
("swapped-storages",{"P10"},[(W,"data.make(&comp_a,&comp_b);\n            },\n        }","data.make(&comp_b,&comp_a);\n            },\n        }")]),
("not-made",{"P12"},[(W,"                data.make(&comp_a,&comp_b);\n            },\n        }","                if data.len() > 0 { data.make(&comp_a,&comp_b); }\n            },\n        }")]),
("insert-front",{"P12"},[(W,"        self.groups.push(RwLock::new(group));\n        let group = self.groups.last().unwrap();","        self.groups.insert(0, RwLock::new(group));\n        let group = self.groups.last().unwrap();")]),
("eq-one-type",{"P12"},[(P,"self.type_a == other.type_a && self.type_b == other.type_b","self.type_a == other.type_a")]),
("eq-unordered",{"P12"},[(N,"self.type_a == other.type_a && self.type_b == other.type_b","self.type_a == other.type_a && self.type_b == other.type_b || self.type_a == other.type_b && self.type_b == other.type_a")]),
("has-kind-only",{"P12"},[(W,"            if world_group.eq(&group) {\n                return true;","            if world_group.types() == group.types() {\n                return true;")]),
("owned-second",{"P12"},[(P,"""self.type_a == type_id""","""self.type_b == type_id""")]),
("group-find-map",None,[(W,"""            .find(|world_group| {
                let world_group = world_group.read();
                world_group.eq(&group)
            })
            // unwrap here
            // existence will be ensured by an outside function
            .unwrap()
            .read()""","""            .map(|world_group| world_group.read())
            .find(|world_group| **world_group == group)
            .unwrap()""")]),
]
