"""The exported program: functions, types, lookup by resolved identity."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d["types"]
        self.funcs = {f["id"]: f for f in d["funcs"]}
        self.roots = [self.funcs[i] for i in d["roots"]]
        self.adts = d["adts"]
        self._loops = {}
        self.alias = {}  # type parameter names seen as other names

    # ---- types --------------------------------------------------------------
    def ty(self, i):
        return self.types[i] if i is not None else {"k": "?", "s": "?"}

    def canon(self, i, env=None, depth=0):
        """Canonical type text with parameters renamed by env."""
        if i is None:
            return "?"
        t = self.types[i]
        k = t["k"]
        r = lambda j: self.canon(j, env, depth + 1)
        if k == "param":
            return (env or self.alias).get(t["name"], t["name"])
        if k == "adt":
            args = [x for x in map(r, t["args"]) if x != "std::alloc::Global"]
            return t["path"] + ("<%s>" % ",".join(args) if args else "")
        if k in ("ref", "ptr"):
            return ("&" if k == "ref" else "*") + ("mut " if t["mut"] else "") + r(t["to"])
        if k == "tuple":
            return "(%s)" % ",".join(r(a) for a in t["args"])
        if k in ("slice", "array"):
            return "[%s]" % r(t["to"])
        return t["s"]

    def adt_name(self, i):
        """Last path segment of an ADT type (looking through references)."""
        t = self.ty(i)
        while t["k"] in ("ref", "ptr"):
            t = self.ty(t["to"])
        if t["k"] == "adt":
            return t["path"].split("::")[-1]
        return None

    def is_nonzero(self, i):
        t = self.ty(i)
        return t["k"] == "adt" and t["path"].split("::")[-1] == "NonZero"

    def nvariants(self, i):
        t = self.ty(i)
        if t["k"] == "adt" and t["path"] in self.adts:
            return max(1, len(self.adts[t["path"]]["variants"]))
        return 2

    # ---- functions ------------------------------------------------------------
    def self_adt(self, f):
        return self.adt_name(f["impl_self"]) if f.get("impl_self") is not None else None

    def find(self, adt, name, trait=None):
        """Root functions `adt::name` (inherent, or of an impl of `trait`)."""
        out = []
        for f in self.roots:
            if f["name"] != name or f.get("impl_self") is None:
                continue
            it = f.get("impl_trait")
            if trait is None and it is not None:
                continue
            if trait is not None and (it is None or it.split("::")[-1] != trait):
                continue
            if self.self_adt(f) == adt:
                out.append(f)
        return out

    def trait_impls(self, trait, name):
        return [f for f in self.roots if f["name"] == name and f.get("impl_trait") == trait]

    def loops(self, f):
        """header -> set of blocks of the natural loop (non-cleanup CFG)."""
        if f["id"] in self._loops:
            return self._loops[f["id"]]
        n = len(f["blocks"])
        succ = [[s for s in succs(f["blocks"][b]["t"]) if not f["blocks"][s]["cleanup"]] if not f["blocks"][b]["cleanup"] else [] for b in range(n)]
        pred = [[] for _ in range(n)]
        order, seen = [], set()

        def dfs(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    st.pop()

        dfs(0)
        for b in seen:
            for s in succ[b]:
                pred[s].append(b)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                if not ps:
                    continue
                nd = ps[0]
                for p in ps[1:]:
                    a, c = nd, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = dom[a]
                        while idx[c] > idx[a]:
                            c = dom[c]
                    nd = a
                if dom.get(b) != nd:
                    dom[b] = nd
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]

        res = {}
        for b in seen:
            for s in succ[b]:
                if dominates(s, b):
                    body = res.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self._loops[f["id"]] = res
        return res


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "switch":
        return [b for _, b in t["vals"]] + [t["else"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    return []
