exec(open("/verif/dev/edits_l.py").read().split('sub("iter-length"')[0])
E = []
# sparse set with a counter
SPC = [("    pub (in crate) data : Vec<T>\n}", "    pub (in crate) data : Vec<T>,\n    count : usize\n}"), ("            data: vec![]\n", "            data: vec![],\n            count: 0\n"),
       ("            self.data.push(data);\n", "            self.data.push(data);\n            self.count += 1;\n"),
       ("            self.entities.swap_remove(index);\n", "            self.entities.swap_remove(index);\n            self.count -= 1;\n"),
       ("    pub fn len(&self) -> usize {\n        self.entities.len()", "    pub fn len(&self) -> usize {\n        self.count")]
CLR = ("        self.data.clear();\n", "        self.data.clear();\n        self.count = 0;\n")
sub("sp-count", SP, SPC + [CLR])
sub("sp-count-no-clear", SP, SPC, exp="P08 P11")
sub("sp-count-empty", SP, SPC[:-1] + [CLR, ("        self.entities.len() == 0", "        self.count == 0")])
sub("sp-count-early", SP, [x for x in SPC if "swap_remove" not in x[0]] + [CLR, ("            self.entities.swap_remove(index);\n", "            if index < self.count { self.entities.swap_remove(index); } else { self.entities.pop(); }\n")], exp="P08")
NX = "    fn next(&mut self) -> Option<Self::Item> {\n        while let Some((id,a)) = self.iter_a.next_with_id() {\n            if let None = self.iter_b.from_id(id) {\n                return Some(a);\n            }\n        }\n        None\n    }\n"
assert NX in rd(WO)
e("wo-count", (WO, NX, NX + "\n    fn count(self) -> usize where Self : Sized {\n        self.iter_a.count()\n    }\n"), exp="P16")
e("wo-count-ok", (WO, NX, NX + "\n    fn count(mut self) -> usize where Self : Sized {\n        let mut n = 0;\n        while let Some(_) = self.next() { n += 1; }\n        n\n    }\n"))
e("wo-nth", (WO, NX, NX + "\n    fn nth(&mut self,n : usize) -> Option<Self::Item> {\n        for _ in 0..n { self.iter_a.next_with_id()?; }\n        self.next()\n    }\n"), exp="P16")
e("wo-nth-ok", (WO, NX, NX + "\n    fn nth(&mut self,n : usize) -> Option<Self::Item> {\n        for _ in 0..n { self.next()?; }\n        self.next()\n    }\n"))
e("wo-last", (WO, NX, NX + "\n    fn last(self) -> Option<Self::Item> where Self : Sized {\n        self.iter_a.last()\n    }\n"), exp="P16")
e("wo-fold", (WO, NX, NX + "\n    fn fold<Z,F>(mut self,init : Z,mut f : F) -> Z where Self : Sized,F : FnMut(Z,Self::Item) -> Z {\n        let mut acc = init;\n        if let Some((_,a)) = self.iter_a.next_with_id() { acc = f(acc,a); }\n        while let Some(a) = self.next() { acc = f(acc,a); }\n        acc\n    }\n"), exp="P16")
e("wo-fold-ok", (WO, NX, NX + "\n    fn fold<Z,F>(mut self,init : Z,mut f : F) -> Z where Self : Sized,F : FnMut(Z,Self::Item) -> Z {\n        let mut acc = init;\n        while let Some(a) = self.next() { acc = f(acc,a); }\n        acc\n    }\n"))
e("wo-hint", (WO, NX, NX + "\n    fn size_hint(&self) -> (usize,Option<usize>) {\n        self.iter_a.size_hint()\n    }\n"), exp="P16 P27")
e("wo-hint-ok", (WO, NX, NX + "\n    fn size_hint(&self) -> (usize,Option<usize>) {\n        (0,self.iter_a.size_hint().1)\n    }\n"))
NW = "    fn next(&mut self) -> Option<Self::Item> {\n        while let Some((id,a)) = self.iter_a.next_with_id() {\n            if let Some(b) = self.iter_b.from_id(id) {\n                return Some((a,b))\n            }\n        }\n        None\n    }\n"
assert NW in rd(WI)
e("wi-count", (WI, NW, NW + "\n    fn count(self) -> usize where Self : Sized {\n        std::cmp::min(self.iter_a.count(),self.iter_b.count())\n    }\n"), exp="P15")
e("wi-nth", (WI, NW, NW + "\n    fn nth(&mut self,n : usize) -> Option<Self::Item> {\n        self.iter_a.nth(n).map(|_|()).and_then(|_|self.next())\n    }\n"), exp="P15")
e("wi-hint-ok", (WI, NW, NW + "\n    fn size_hint(&self) -> (usize,Option<usize>) {\n        (0,self.iter_a.size_hint().1)\n    }\n"))
e("wi-hint", (WI, NW, NW + "\n    fn size_hint(&self) -> (usize,Option<usize>) {\n        let (a,b) = (self.iter_a.size_hint(),self.iter_b.size_hint());\n        (std::cmp::min(a.0,b.0),a.1)\n    }\n"), exp="P15 P27")
QI = rd(Q); k = QI.find("for IdIter<A>"); k2 = QI.find("    fn next(&mut self)", k); k3 = QI.find("    }\n", k2) + 6
NI = QI[k2:k3]; print(NI) if __name__ == "__dump__" else None
e("id-count", (Q, QI[k:k3], QI[k:k3] + "\n    fn count(self) -> usize where Self : Sized {\n        self.iter.count()\n    }\n"))
e("id-nth", (Q, QI[k:k3], QI[k:k3] + "\n    fn nth(&mut self,n : usize) -> Option<Self::Item> {\n        if n > 0 { self.iter.nth(n)?; }\n        self.iter.next_with_id()\n    }\n"), exp="P17")
e("id-nth-ok", (Q, QI[k:k3], QI[k:k3] + "\n    fn nth(&mut self,n : usize) -> Option<Self::Item> {\n        if n > 0 { self.iter.nth(n - 1)?; }\n        self.iter.next_with_id()\n    }\n"))
e("id-last", (Q, QI[k:k3], QI[k:k3] + "\n    fn last(mut self) -> Option<Self::Item> where Self : Sized {\n        let mut l = self.iter.next_with_id();\n        while let Some(x) = self.iter.next_with_id() { if x.0 > l.as_ref().unwrap().0 { l = Some(x); } }\n        l\n    }\n"), exp="P17")
BX = "impl<T : QueryIterator + ?Sized> QueryIterator for Box<T> {\n"
e("wo-nth-inner", (WO, NX, NX + "\n    fn nth(&mut self,n : usize) -> Option<Self::Item> {\n        (0..n).try_for_each(|_|self.next().map(|_|()))?;\n        self.next()\n    }\n"))
