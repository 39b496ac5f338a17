W="src/world.py".replace(".py",".rs")
E=[]
LOCAL=[(W, """        self.groups.push(RwLock::new(group));
        let group = self.groups.last().unwrap();
        let mut group = group.write();
        match &mut *group{
""", """        let mut group = group;
        match &mut group {
"""), (W, """                let comp_a = self.raw_storage_read(type_a).unwrap();
                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make(&comp_a,&comp_b);
            },
        }
""", """                let comp_a = self.raw_storage_read(type_a).unwrap();
                let comp_b = self.raw_storage_read(type_b).unwrap();
                data.make(&comp_a,&comp_b);
            },
        }
        self.groups.push(RwLock::new(group));
""")]
E.append(("made-before",None,LOCAL))
E.append(("made-other",{"P12"},[(LOCAL[0][0],LOCAL[0][1],"        let mut made = original.into();\n        match &mut made {\n"),LOCAL[1],(W,"        let group = group.into();\n        assert!(\n            {\n                let mut ok","        let original = group;\n        let group : Group = group.into();\n        assert!(\n            {\n                let mut ok")]))
E.append(("made-insert-kind",{"P12"},[LOCAL[0],(LOCAL[1][0],LOCAL[1][1].replace("","",0),LOCAL[1][2].replace("                data.make(&comp_a,&comp_b);\n","                if comp_a.count() > 0 { data.make(&comp_a,&comp_b); }\n"))]))
N="src/group/non_owning/mod.rs"; P="src/group/partial_owning/mod.rs"; FQ="src/group/full_owning/query.rs"
E.append(("g-non-add",None,[(N, """        if !self.in_components(id,&comp_a,&comp_b) {
            return;
        }
        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }

        self.sparse_set.add(id,());
""", """        if self.in_components(id,comp_a,comp_b) {
            self.sparse_set.add(id,());
        }
""")]))
E.append(("g-make-while",None,[(P, """        for index in 0..comp_a.count() {
            // Unwrap will never fail
            // for loop ensures the range is valid
            let entity_id = comp_a.id(index).unwrap();
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,self.length);
                self.length += 1;
            }
        }
""", """        let mut index = 0;
        while let Some(entity_id) = comp_a.id(index) {
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,self.length);
                self.length += 1;
            }
            index += 1;
        }
""")]))
E.append(("q-full-open",None,[(FQ, """        assert!(world.has_registered::<A>() && world.has_registered::<B>(),
                "Queryable for FullOwning: Component was not registered in world");
        let type_id_a = TypeId::of::<A>();
        let type_id_b = TypeId::of::<B>();
        // Groups are always locked before storages
        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<A,B>());
""", """        assert!(world.has_registered::<A>() && world.has_registered::<B>(),
                "Queryable for FullOwning: Component was not registered in world");
        let group = open::<A,B>(world);
        let (type_id_a,type_id_b) = group.types();
"""), (FQ, """impl<'a,A : Component,B : Component> Iterator for IterRefRef<'a,A,B> {""", """fn open<A : Component,B : Component>(world : &World) -> RwLockReadGuard<'_,Group> {
    if !world.has_group(full_owning::<A,B>()) {
        panic!("Queryable for FullOwning: Group is not in world");
    }
    world.group(full_owning::<A,B>())
}

impl<'a,A : Component,B : Component> Iterator for IterRefRef<'a,A,B> {""")]))
