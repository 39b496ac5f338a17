"""The shared world as seen by an analysed function."""
from .spec import *
from .cover import *
from .terms import fresh

CHANGE = ("sps", "em", "push", "mapins", "maprm", "mapclear", "write")


def is_change(e):
    return e.k in CHANGE or e.k == "grp" and e.a[0].a[0] != "in_group"


class World:
    def __init__(self, prog, I, st):
        self.p, self.I = prog, I
        self.root = mk("heap", sym("world"))
        self.val = sym("World")
        self.f = {}
        for t in prog.types:
            if t["k"] == "adt" and t["path"].split("::")[-1] == "World" and t.get("fields"):
                for i, ft in enumerate(t["fields"][0]):
                    c = prog.canon(ft)
                    if "EntityManager" in c and "RwLock" in c:
                        self.f["em"] = i
                    elif "ComponentStorage" in c and "HashMap" in c:
                        self.f["comps"] = i
                    elif "Group" in c and "Vec" in c:
                        self.f["groups"] = i
                    elif "Resource" in c and "HashMap" in c:
                        self.f["res"] = i
                break
        self.ok = len(self.f) == 4
        if self.ok:
            st.mem[self.root] = self.val
            M.SEQBASE.add(self.fld("groups"))
            if Interp.GROUPS is not None:
                st.assume(le(M.slen(st, self.fld("groups")), num(Interp.GROUPS)))
            I.lockcls[self.em()] = "entities"
            I.lockcls[self.grp(sym("?g"))] = "group"
            I.lockcls[self.sto(sym("?k"))] = "storage"
            I.lockcls[self.rsc(sym("?k"))] = "resource"

    def ref(self):
        return ref(self.root)

    def fld(self, n):
        return mk("fld", self.val, 0, self.f[n])

    def step(self, n):
        return fstep(0, self.f[n])

    def em(self):
        return ref(self.root, self.step("em"))

    def grp(self, i):
        return ref(self.root, self.step("groups"), istep(i))

    def sto(self, k):
        return ref(self.root, self.step("comps"), mk("key", k))

    def rsc(self, k):
        return ref(self.root, self.step("res"), mk("key", k))

    def box(self, k):
        return ref(mk("boxof", self.sto(k)))

    def groups(self):
        return Dom(lambda s: M.slen(s, s.norm(M.proj(self.I, s, self.val, self.step("groups")))), lambda s, i: s.norm(self.grp(i)), "group")

    def storages(self):
        m = self.fld("comps")
        return Dom(lambda s: s.norm(mk("maplen", m)), lambda s, i: s.norm(self.sto(mk("mapkey", m, i))), "storage")

    def gvariants(self):
        return sorted(self.I.group_fields())

    def over(self, s, L, k):
        """Condition: the group behind lock L is over component type k."""
        kind = mk("gkind", L)
        n = len(self.gvariants())
        return disj([conj([isvar(kind, v, n), disj([eq(mk("gtyp", L, v, 0), k), eq(mk("gtyp", L, v, 1), k)])]) for v in self.gvariants()])


def group_lock(e):
    """Lock of the group a grp event is about."""
    r = e.a[1]
    if r.op == "ref" and r.a[0].op == "inner":
        return r.a[0].a[0]
    return None


def box_lock(loc):
    if loc.op == "ref" and loc.a[0].op == "boxof" and len(loc.a) == 1:
        return loc.a[0].a[0]
    return None


def known(s, c):
    c = s.norm(c)
    d = s.decide(c)
    if d is None:
        s.retry()
        d = s.decide(s.norm(c))
    return d


def cases(I, s, c):
    """Does c hold on every case of the state?"""
    if known(s, c) is True:
        return True
    t = s.clone()
    if not t.assume(neg(s.norm(c))):
        return True
    return refuted(t)


def fields_of(prog, ty):
    """(path, field types) of a struct type."""
    t = prog.ty(ty)
    while t["k"] == "ref":
        t = prog.ty(t["to"])
    if t["k"] != "adt" or not t.get("fields"):
        return None, None
    return t["path"], t["fields"][0]


def handle(prog, I, st, w, ty):
    """An entity handle of the given type: (value, parts) or None."""
    path, fs = fields_of(prog, ty)
    if path is None:
        return None
    parts = {}
    out = []
    for ft in fs:
        c = prog.canon(ft)
        if c.startswith("&") and c.endswith("World"):
            out.append(w.ref())
        elif "NonZero<usize>" in c and "Range" not in c:
            parts["id"] = sym("id")
            st.assume(ge0(sub(parts["id"], ONE)))
            out.append(parts["id"])
        elif "Range<" in c and "NonZero" in c:
            lo, hi = sym("=intlo"), sym("=inthi")
            st.assume(ge0(sub(lo, ONE)))
            st.assume(le(lo, hi))
            parts["lo"], parts["hi"] = lo, hi
            out.append(adt("std::ops::Range", 0, lo, hi))
        elif "RwLock" in c and "Guard" in c and "EntityManager" in c:
            g = mk("guard", w.em(), "r" if "ReadGuard" in c else "w", sym("ep0"))
            parts["guard"] = g
            st.held = st.held + (g,)
            st.mem[mk("inner", w.em())] = mk("locked", w.em(), sym("ep0"))
            out.append(g)
        else:
            return None
    parts["val"] = adt(path, 0, *out)
    return parts["val"], parts
