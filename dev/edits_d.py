Q="src/query/mod.rs"; W="src/query/with.rs"; X="src/query/without.rs"; F="src/group/full_owning/query.rs"; P="src/group/partial_owning/query.rs"; N="src/group/non_owning/query.rs"
NEXT1="""    fn next(&mut self) -> Option<Self::Item> {
        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }
    }
"""
WNEXT="""    fn next(&mut self) -> Option<Self::Item> {
        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((a,b))
            }
        }
        None
    }
"""
WNEXTID="""    fn next_with_id(&mut self) -> Option<(EntityId,Self::Item)> {
        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((id,(a,b)))
            }
        }
        None
    }
"""
W3NEXT="""        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                if let Some(c) = self.iter_c.from_id(id) {
                    return Some((a,b,c))
                }
            }
        }
        None
"""
W3FROM="""        if let Some(a) = self.iter_a.from_id(id) {
            if let Some(b) = self.iter_b.from_id(id) {
                if let Some(c) = self.iter_c.from_id(id) {
                    return Some((a,b,c))
                }
            }
        }
        None
"""
XLNEXT="""        while let Some((id,b)) = self.iter_b.next_with_id() {
            if let None = self.iter_a.from_id(id) {
                return Some(b);
            }
        }
        None
"""
XRFROM="""        if let None = self.iter_b.from_id(id) {
            if let Some(a) = self.iter_a.from_id(id) {
                return Some(a)
            }
        }
        None
"""
ID1="""            self.index += 1;
            Some((id,data))
"""
FROM1="""        let sparse_set = unsafe { &*self.sparse_set };
        sparse_set.get(id)
"""
E=[
# behaviour kept
("with-next-by-id",None,[(W,WNEXT,"""    fn next(&mut self) -> Option<Self::Item> {
        self.next_with_id().map(|(_,item)| item)
    }
""")]),
("one-next-by-id",None,[(Q,NEXT1,"""    fn next(&mut self) -> Option<Self::Item> {
        self.next_with_id().map(|x| x.1)
    }
""")]),
("one-next-get",None,[(Q,NEXT1,"""    fn next(&mut self) -> Option<Self::Item> {
        let sparse_set = unsafe { &*self.sparse_set };
        let i = self.index;
        let data = sparse_set.data().get(i)?;
        self.index = i + 1;
        Some(data)
    }
""")]),
("one-next-early",None,[(Q,NEXT1,"""    fn next(&mut self) -> Option<Self::Item> {
        if self.index >= self.borrow.count() {
            return None;
        }
        let at = self.index;
        self.index += 1;
        let set = unsafe { &*self.sparse_set };
        Some(unsafe { set.data().get_unchecked(at) })
    }
""")]),
("with-loop",None,[(W,WNEXT,"""    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let (id,a) = self.iter_a.next_with_id()?;
            match self.iter_b.from_id(id) {
                Some(b) => return Some((a,b)),
                None => continue
            }
        }
    }
""")]),
("with-find-map",None,[(W,WNEXT,"""    fn next(&mut self) -> Option<Self::Item> {
        let iter_b = &mut self.iter_b;
        let iter_a = &mut self.iter_a;
        std::iter::from_fn(|| iter_a.next_with_id())
            .find_map(|(id,a)| iter_b.from_id(id).map(|b| (a,b)))
    }
""")]),
("with3-from-q",None,[(W,W3FROM,"""        let a = self.iter_a.from_id(id)?;
        let b = self.iter_b.from_id(id)?;
        let c = self.iter_c.from_id(id)?;
        Some((a,b,c))
""")]),
("with3-from-reordered",None,[(W,W3FROM,"""        let c = self.iter_c.from_id(id)?;
        let b = self.iter_b.from_id(id)?;
        self.iter_a.from_id(id).map(move |a| (a,b,c))
""")]),
("with3-zip",None,[(W,W3NEXT,"""        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let (Some(b),Some(c)) = (self.iter_b.from_id(id),self.iter_c.from_id(id)) {
                return Some((a,b,c))
            }
        }
        None
""")]),
("without-some",None,[(X,XLNEXT,"""        while let Some((id,b)) = self.iter_b.next_with_id() {
            let excluded = self.iter_a.from_id(id).is_some();
            if excluded {
                continue;
            }
            return Some(b);
        }
        None
""")]),
("without-from-order",None,[(X,XRFROM,"""        let a = self.iter_a.from_id(id)?;
        match self.iter_b.from_id(id) {
            Some(_) => None,
            None => Some(a)
        }
""")]),
("hint-saturating",None,[(Q,"""        let rem = self.borrow.count() - self.index;
""","""        let rem = self.borrow.count().saturating_sub(self.index);
""")]),
("full-down",None,[(F,"""        if self.index < self.length {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set_a = unsafe { &*self.sparse_set_a };
            let sparse_set_b = unsafe { &*self.sparse_set_b };
            // Safety:
            // Safe here, because we checked before.
            let data_a = unsafe {
                sparse_set_a.data().get_unchecked(self.index)
            };
            let data_b = unsafe {
                sparse_set_b.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some((data_a,data_b))
        } else {
            None
        }
""","""        let i = self.step()?;
        let (set_a,set_b) = unsafe { (&*self.sparse_set_a,&*self.sparse_set_b) };
        Some((set_a.data().get(i).unwrap(),&set_b.data()[i]))
"""),(F,"""impl<'a,A : Component,B : Component> ExactSizeIterator for IterRefRef<'a,A,B>{ }
""","""impl<'a,A : Component,B : Component> ExactSizeIterator for IterRefRef<'a,A,B>{ }

impl<'a,A : Component,B : Component> IterRefRef<'a,A,B> {
    fn step(&mut self) -> Option<usize> {
        if self.index == self.length {
            None
        } else {
            self.index += 1;
            Some(self.index - 1)
        }
    }
}
""")]),
("full-from-member",None,[(F,"""        if let Some(a) = sparse_set_a.get(id) {
            if let Some(b) = sparse_set_b.get(id) {
                return Some((a,b))
            }
        }
        None
""","""        sparse_set_a.get(id).and_then(|a| Some((a,sparse_set_b.get(id)?)))
""")]),
("query-group-once",None,[(F,"""        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<A,B>());
""","""        let marker = full_owning::<A,B>();
        if !world.has_group(marker) {
            panic!("Queryable for FullOwning: Group is not in world");
        }
        let group = world.group(full_owning::<A,B>());
""")]),
("rem-count",None,[(Q,"""pub struct IterRef<'a,T> {
    index : usize,
""","""pub struct IterRef<'a,T> {
    index : usize,
    left : usize,
"""),(Q,"""        let ptr = &*sparse_set;
        Box::new(IterRef{
            index : 0,
""","""        let ptr = &*sparse_set;
        let left = sparse_set.len();
        Box::new(IterRef{
            index : 0,
            left,
"""),(Q,NEXT1,"""    fn next(&mut self) -> Option<Self::Item> {
        if self.left == 0 {
            return None;
        }
        let sparse_set = unsafe { &*self.sparse_set };
        let data = unsafe { sparse_set.data().get_unchecked(self.index) };
        self.index += 1;
        self.left -= 1;
        Some(data)
    }
"""),(Q,ID1,"""            self.index += 1;
            self.left -= 1;
            Some((id,data))
"""),(Q,"""        let rem = self.borrow.count() - self.index;
""","""        let rem = self.left;
""")]),
("id-iter-match",None,[(Q,"""        self.iter.next_with_id()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
""","""        match self.iter.next_with_id() {
            Some((id,item)) => Some((id,item)),
            None => None
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo,hi) = self.iter.size_hint();
        (lo,hi)
""")]),
("with-hint",None,[(W,WNEXT,WNEXT+"""
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0,self.iter_a.size_hint().1)
    }
""")]),
# behaviour broken
("one-id-stuck",{"P14","P17"},[(Q,ID1,"""            Some((id,data))
""")]),
("one-id-two",{"P14"},[(Q,ID1,"""            self.index += 1;
            if self.index % 2 == 0 && self.index > 100 { self.index += 1; }
            Some((id,data))
""")]),
("one-next-le",{"P14","P24"},[(Q,"if self.index < self.borrow.count() {","if self.index <= self.borrow.count() {")]),
("one-from-moves",{"P17"},[(Q,FROM1,"""        let sparse_set = unsafe { &*self.sparse_set };
        let data = sparse_set.get(id);
        if data.is_some() && self.index == 7 { self.index = 8; }
        data
""")]),
("one-hint-all",{"P27"},[(Q,"""        let rem = self.borrow.count() - self.index;
""","""        let rem = self.borrow.count();
""")]),
("id-iter-hint",{"P27"},[(Q,"""        self.iter.size_hint()
""","""        (0,self.iter.size_hint().1)
""")]),
("with-stops",{"P15"},[(W,WNEXT,"""    fn next(&mut self) -> Option<Self::Item> {
        while let Some((id,a)) = self.iter_a.next_with_id() {
            let b = self.iter_b.from_id(id)?;
            return Some((a,b))
        }
        None
    }
""")]),
("with-lockstep",{"P15"},[(W,WNEXTID,"""    fn next_with_id(&mut self) -> Option<(EntityId,Self::Item)> {
        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.next() {
                return Some((id,(a,b)))
            }
        }
        None
    }
""")]),
("with3-wrong-id",{"P15"},[(W,W3NEXT,"""        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                if let Some((_,c)) = self.iter_c.next_with_id() {
                    return Some((a,b,c))
                }
            }
        }
        None
""")]),
("with3-lookup-skips",{"P15","P17"},[(W,W3FROM,"""        if let Some(a) = self.iter_a.from_id(id) {
            if let Some(b) = self.iter_b.from_id(id) {
                if let Some(c) = self.iter_c.from_id(id) {
                    return Some((a,b,c))
                }
            }
            self.iter_a.next_with_id();
        }
        None
""")]),
("with-hint-exact",{"P27"},[(W,WNEXT,WNEXT+"""
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter_a.size_hint()
    }
""")]),
("with-hint-min",{"P27"},[(W,WNEXT,WNEXT+"""
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0,self.iter_b.size_hint().1)
    }
""")]),
("without-flipped",{"P16"},[(X,XLNEXT,XLNEXT.replace("if let None =","if let Some(_) ="))]),
("without-first-only",{"P16"},[(X,XLNEXT,"""        let (id,b) = self.iter_b.next_with_id()?;
        if let None = self.iter_a.from_id(id) {
            return Some(b);
        }
        self.iter_b.next()
""")]),
("without-from-all",{"P16"},[(X,XRFROM,"""        self.iter_a.from_id(id)
""")]),
("full-count",{"P13"},[(F,"        let length = group.len();","        let length = sparse_set_a.len().min(sparse_set_b.len());")]),
("full-wrong-group",{"P13"},[(F,"""        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<A,B>());
""","""        assert!(world.has_group(full_owning::<B,A>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<B,A>());
""")]),
("full-no-check",None,[(F,"""        assert!(world.has_registered::<A>() && world.has_registered::<B>(),
                "Queryable for FullOwning: Component was not registered in world");
""","")]),
("full-storage-first",{"P04"},[(F,"""        let group = world.group(full_owning::<A,B>());
        // Unwrap here
        // assert before ensures this
        let storage_a = world.raw_storage_read(type_id_a).unwrap();
""","""        // Unwrap here
        // assert before ensures this
        let storage_a = world.raw_storage_read(type_id_a).unwrap();
        let group = world.group(full_owning::<A,B>());
""")]),
("full-length-early",{"P13"},[(F,"""        let group = world.group(full_owning::<A,B>());
""","""        let length = world.group(full_owning::<A,B>()).len();
        let group = world.group(full_owning::<A,B>());
"""),(F,"        let length = group.len();\n","")]),
("partial-index-b",{"P13","P24"},[(P,"sparse_set_b.get(id).unwrap()","unsafe { sparse_set_b.data().get_unchecked(self.index) }")]),
("partial-lookup-any",{"P13"},[(P,"        let length = group.len();","        let length = sparse_set_a.len();")]),
("non-stale-len",{"P27"},[(N,"        let rem = self.borrow_group.len() - self.index;","        let rem = self.borrow_group.len();")]),
]
