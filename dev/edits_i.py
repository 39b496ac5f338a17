"""Iterator shortcuts."""
Q = "src/query/mod.rs"
OLD = """        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }
}
"""
def q(n, new): E.append((n, None, [(Q, OLD, new)]))
def b(n, p, new): E.append((n, set(p.split()), [(Q, OLD, new)]))
E = []
H = """        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }
"""
q("nth-right", H + """
    fn nth(&mut self,n : usize) -> Option<Self::Item> {
        let left = self.borrow.count() - self.index;
        if n >= left {
            self.index = self.borrow.count();
            return None;
        }
        self.index += n;
        self.next()
    }
}
""")
q("nth-min", H + """
    fn nth(&mut self,n : usize) -> Option<Self::Item> {
        self.index += n.min(self.borrow.count() - self.index);
        self.next()
    }
}
""")
q("count-right", H + """
    fn count(self) -> usize {
        self.borrow.count() - self.index
    }
}
""")
b("count-all", "P14 P17 P27", H + """
    fn count(self) -> usize {
        self.borrow.count()
    }
}
""")
q("last-right", H + """
    fn last(mut self) -> Option<Self::Item> {
        let count = self.borrow.count();
        if self.index < count {
            self.index = count - 1;
        }
        self.next()
    }
}
""")
b("last-any", "P14 P17", H + """
    fn last(mut self) -> Option<Self::Item> {
        self.index = self.borrow.count().max(1) - 1;
        self.next()
    }
}
""")
b("nth-stay", "P14 P17", H + """
    fn nth(&mut self,n : usize) -> Option<Self::Item> {
        self.index += n.min(self.borrow.count() - self.index);
        let sparse_set = unsafe { &*self.sparse_set };
        sparse_set.data().get(self.index)
    }
}
""")
