"""Rules over the crate's declarations: regions, visibility, bounds, variance, and who can reach the tables.

They quantify over all client programs: a safe client can only use what is exported, with the types it is exported with."""
import re

WORLD = "world::World"
LOCK_READ = ("RwLockReadGuard", "MappedRwLockReadGuard", "RwLockUpgradableReadGuard", "MutexGuard", "ArcRwLockReadGuard", "ReentrantMutexGuard")
LOCK_WRITE = ("RwLockWriteGuard", "MappedRwLockWriteGuard", "MutexGuard", "MappedMutexGuard", "ArcRwLockWriteGuard")
LOCKS = ("RwLock", "Mutex", "ReentrantMutex", "RefCell", "Cell", "UnsafeCell", "OnceCell")


def last(p):
    return p.split("::")[-1]


def parts(t):
    """t and every type inside it."""
    yield t
    for a in t.get("a", []):
        yield from parts(a)


def outer(t):
    """t and the types inside it, except inside trait objects."""
    yield t
    if t["k"] != "dyn":
        for a in t.get("a", []):
            yield from outer(a)


def shape(t):
    """The type without paths, regions and parameter names."""
    k = t["k"]
    a = ", ".join(shape(x) for x in t.get("a", []))
    if k == "param":
        return "_"
    if k == "ref":
        return ("&mut " if t["mut"] else "&") + a
    if k == "adt":
        return last(t["p"]) + ("<%s>" % a if a else "")
    if k == "tuple":
        return "(%s)" % a
    if k == "slice":
        return "[%s]" % a
    if k == "dyn":
        return "dyn " + "+".join(last(x) for x in t["traits"])
    return t.get("s", k)


def implname(i):
    return "%s for %s" % (last(i["trait"]) if i.get("trait") else "impl", shape(i["self"]))


def is_guard(t):
    return t["k"] == "adt" and last(t["p"]) in LOCK_READ + LOCK_WRITE


def is_wguard(t):
    return t["k"] == "adt" and last(t["p"]) in LOCK_WRITE


def params(t):
    return {x["n"] for x in parts(t) if x["k"] == "param"}


def regions(t):
    out = []
    for x in parts(t):
        if x["k"] in ("ref", "dyn"):
            out.append(x["r"])
        elif x["k"] in ("adt", "alias"):
            out += x.get("r", [])
    return out


class Types:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        d = prog.d["api"] if hasattr(prog, "d") else prog.api
        self.fns, self.impls, self.traits = d["fns"], d["impls"], d["traits"]
        self.adts = {a["path"]: a for a in d["adts"] if "static" not in a}
        self.statics = [a for a in d["adts"] if "static" in a]
        self.rep.funcs |= {f["path"] for f in self.fns}
        self.close()

    def close(self):
        """Which local types hold a lock guard, and which are tables of a world."""
        self.guards, self.wguards = set(), set()
        dyns = {}
        for i in self.impls:
            if i.get("trait") and i["self"]["k"] == "adt" and i["self"].get("local"):
                dyns.setdefault(i["trait"], set()).add(i["self"]["p"])
        while True:
            n = len(self.guards) + len(self.wguards)
            for p, a in self.adts.items():
                for f in a["fields"]:
                    for t in parts(f["ty"]):
                        if is_guard(t) or t["k"] == "adt" and t["p"] in self.guards or t["k"] == "dyn" and any(
                                tr in ("query::QueryIterator",) for tr in t["traits"]):
                            self.guards.add(p)
                        if is_wguard(t) or t["k"] == "adt" and t["p"] in self.wguards:
                            self.wguards.add(p)
            if n == len(self.guards) + len(self.wguards):
                break
        # guards whose lock protects components or resources
        self.dataguards = set()
        while True:
            n = len(self.dataguards)
            for p, a in self.adts.items():
                for f in a["fields"]:
                    for t in parts(f["ty"]):
                        if is_guard(t) and any(x["k"] == "dyn" for x in parts(t)) or t["k"] == "adt" and t["p"] in self.dataguards:
                            self.dataguards.add(p)
            if n == len(self.dataguards):
                break
        # iterator traits of the crate: boxed, they own the guards of their implementors
        self.itraits = {tr["path"] for tr in self.traits if any(s in self.guards for s in dyns.get(tr["path"], ()))}
        # tables: everything the fields of the world hold
        self.tables, self.table_dyns = set(), set()
        todo = [f["ty"] for f in self.adts[WORLD]["fields"]]
        seen = set()
        while todo:
            for t in parts(todo.pop()):
                if t["k"] == "adt" and t.get("local") and t["p"] not in self.tables and t["p"] != WORLD:
                    self.tables.add(t["p"])
                    todo += [f["ty"] for f in self.adts[t["p"]]["fields"]]
                if t["k"] == "dyn":
                    for tr in t["traits"]:
                        if tr in seen or tr.startswith("std::"):
                            continue
                        seen.add(tr)
                        self.table_dyns.add(tr)
                        for s in dyns.get(tr, ()):
                            if s not in self.tables:
                                self.tables.add(s)
                                todo += [f["ty"] for f in self.adts[s]["fields"]]
        # a marker enum of the id table that is Copy data without a way back is still internal: it stays a table
        self.exported = [f for f in self.fns if f["eff"]]

    # ---- small helpers
    def data(self, t):
        """Could the type be (part of) what a lock protects?"""
        for x in parts(t):
            if x["k"] in ("param", "alias", "dyn", "other", "part"):
                return True
            if x["k"] == "adt" and (x["p"] in self.tables or x["p"] in self.guards or is_guard(x)):
                return True
        return False

    def target(self, t):
        """An associated type of a local type, looked up in its impl."""
        if t["k"] != "alias" or "::" not in t.get("n", ""):
            return t
        tr, name = t["n"].rsplit("::", 1)
        for i in self.impls:
            if i.get("trait") == tr and name in i["assoc"] and t["a"] and i["self"].get("p") and i["self"].get("p") == t["a"][0].get("p"):
                return i["assoc"][name]
        return t

    def worldly(self, t):
        """Does the type give access to a world?"""
        for x in parts(t):
            if x["k"] == "adt" and (x["p"] == WORLD or x["p"] in self.guards or last(x["p"]) in LOCK_READ + LOCK_WRITE):
                return True
            if x["k"] == "dyn" and any(tr in self.itraits for tr in x["traits"]):
                return True
        return False

    def lockish(self, t):
        """Parts of the type that hold locks: (type, regions that bound it)."""
        for x in parts(t):
            if x["k"] == "adt" and (x["p"] in self.guards or last(x["p"]) in LOCK_READ + LOCK_WRITE) and x.get("r"):
                yield x, x["r"]
            elif x["k"] == "dyn" and any(tr in self.itraits for tr in x["traits"]):
                yield x, [x["r"]]

    def decide(self, good, prop, rule, func, what, why):
        if good:
            self.rep.ok(prop, rule, func, what)
        else:
            self.rep.bad(prop, rule, func, what, why)

    def outlives(self, f):
        return {(b["a"], b["r"]) for b in f["bounds"] if b["k"] == "regout"}


def tidy(s):
    return re.sub(r"\b(?:[a-z_0-9]+::)+", "", s)


# --------------------------------------------------------------------------- references and guards (P03)
def borrows(c):
    """References and guards cannot outlive what they were taken from."""
    P = "P03"
    for f in c.exported:
        out, ins = f["output"], f["inputs"]
        fn = f["path"]
        st = f.get("impl_self")
        tr = f.get("impl_trait") or f.get("in_trait")
        outl = c.outlives(f)
        inreg = set()
        for i in ins:
            for x in parts(i):
                if x["k"] == "ref":
                    inreg.add(x["r"])
                if x["k"] == "adt":
                    inreg |= set(x.get("r", []))
                if x["k"] == "dyn":
                    inreg.add(x["r"])
        selfref = ins[0] if f["self"] and ins and ins[0]["k"] == "ref" else None
        owner = ins[0]["a"][0] if selfref else (ins[0] if f["self"] and ins else None)
        holds = owner is not None and owner["k"] == "adt" and owner["p"] in c.guards
        iterish = tr in c.itraits or tr == "std::iter::Iterator" or tr and tr.startswith("std::iter::")
        refs = [x for x in outer(out) if x["k"] == "ref" and c.data(x["a"][0])]
        if owner is not None and c.worldly(owner) and not (owner["k"] == "adt" and owner["p"] in c.dataguards) and not iterish:
            for x in refs:
                if c.target(x["a"][0])["k"] != "adt":
                    c.decide(False, P, "unguarded", fn, "component and resource references come from a guard", "returns %s, but nothing returned or borrowed holds the lock" % x["s"])
        if holds and not iterish and refs:
            # everything a guard hands out is borrowed from the guard itself
            for x in refs:
                good = selfref is not None and x["r"] == selfref["r"]
                c.decide(good, P, "borrow-of-guard", fn, "references are borrowed from the guard",
                         "returns a reference with region %s although the guard is borrowed for %s: it can be kept after the guard is dropped" % (
                             tidyr(x["r"]), tidyr(selfref["r"]) if selfref else "nothing"))
        if f["self"] and not iterish and any(x["mut"] for x in refs) or (not f["self"] and any(x["mut"] for x in refs)):
            # a mutable reference needs an exclusive borrow with the same region
            for x in refs:
                if x["mut"]:
                    good = any(y["k"] == "ref" and y["mut"] and y["r"] == x["r"] for i in ins for y in parts(i))
                    c.decide(good, P, "exclusive-borrow", fn, "mutable references come from an exclusive borrow",
                             "returns a mutable reference although nothing is borrowed exclusively for its region: two can be alive at once")
        if refs and not holds and not iterish:
            for x in refs:
                good = x["r"] in inreg and x["r"] != "'static"
                c.decide(good, P, "borrow-of-input", fn, "references are borrowed from an argument",
                         "returns a reference with region %s that no argument is borrowed for" % tidyr(x["r"]))
        lk = list(c.lockish(out))
        for x, rs in lk:
            good = all((r in inreg or any(a in inreg and r2 == r for a, r2 in outl)) and r != "'static" for r in rs)
            c.decide(good, P, "guard-of-world", fn, "guards, handles and queries borrow the world",
                     "returns %s whose region is not bounded by an argument: the world can be dropped or moved while it is alive" % tidy(x.get("s", "")))
    # the lock inside a guard lives as long as the guard says
    for p, a in sorted(c.adts.items()):
        if p not in c.guards:
            continue
        rp = {g[0] for g in a["generics"] if g[1] == "region"}
        for fl in a["fields"]:
            for x, rs in c.lockish(fl["ty"]):
                if x["k"] == "dyn":
                    continue
                c.decide(all(r in rp for r in rs), P, "guard-region", p, "the lock in field %s is bounded by the type's own region" % fl["name"],
                         "field %s holds %s" % (fl["name"], tidy(x.get("s", ""))))
    # items of queries
    iters = [i for i in c.impls if i.get("trait") in ("query::Queryable", "std::iter::Iterator") and "Item" in i["assoc"]]
    for i in iters:
        item = i["assoc"]["Item"]
        rs = [x["r"] for x in parts(item) if x["k"] == "ref"]
        mine = set(regions(i["self"])) | set(i.get("rargs", []))
        what = implname(i)
        if i["trait"] == "query::Queryable":
            if rs:
                c.decide(False, P, "item-of-query", what, "items cannot be kept after the iterator is dropped",
                         "the item type %s is bounded by the borrow of the world, not by the iterator that holds the locks: "
                         "it can be kept after the iterator is dropped, and from_id can hand it out again" % tidy(item.get("s", str([x.get("s") for x in item.get("a", [])]))))
            c.decide(all(r in mine for r in rs), P, "item-of-world", what, "items cannot be kept longer than the world is borrowed", "region %s" % rs)
        elif i["self"]["k"] == "adt" and i["self"]["p"] in c.guards:
            c.decide(all(r in mine for r in rs), P, "item-of-world", what, "items cannot be kept longer than the world is borrowed", "region %s" % rs)
    for i in c.impls:
        if i.get("trait") in ("std::clone::Clone", "std::marker::Copy") and i["self"]["k"] == "adt" and i["self"]["p"] in c.guards:
            c.decide(i["self"]["p"] not in c.wguards, P, "unique-guard", implname(i), "exclusive guards are not duplicated", "a copy of an exclusive guard hands out a second mutable reference")
    for s in c.statics:
        c.decide(not c.worldly(s["ty"]), P, "guard-of-world", s["path"], "no static holds a guard", "")


def tidyr(r):
    return re.sub(r".*::('?[A-Za-z_]+)\)+$", r"\1", r)


def retype(c):
    """A type through which a T can be written is invariant in T: otherwise safe code can rename it."""
    seen = set()
    for f in c.fns:
        outs = [f["output"]]
        st = f.get("impl_self")
        if not st or st["k"] != "adt" or st["p"] not in c.guards or not f["self"]:
            continue
        a = c.adts[st["p"]]
        names = [g[0] for g in a["generics"]]
        mutp = set()
        for x in (y for o in outs for y in parts(o)):
            if x["k"] == "ref" and x["mut"]:
                mutp |= params(x["a"][0])
        # map the impl's names to the type's own parameters
        own = [g[0] for g in a["generics"] if g[1] == "type"]
        for k, t in enumerate(st.get("a", [])):
            if k >= len(own) or t["k"] != "param" or t["n"] not in mutp:
                continue
            v = a["variances"][names.index(own[k])]
            key = (st["p"], own[k])
            if key in seen:
                continue
            seen.add(key)
            c.decide(v == "o", "P01", "retype", st["p"], "type parameter %s, reached mutably, is invariant" % own[k],
                     "%s is %s in %s although %s hands out a mutable reference to it: a guard for one type can be turned into a guard for a related type" % (
                         st["p"], {"+": "covariant", "*": "bivariant", "-": "contravariant"}.get(v, v), own[k], f["path"]))


# --------------------------------------------------------------------------- what may enter a world (P21)
def mentions(prog, c):
    """For every function: the type parameters that name a stored type in it or in what it calls (directly or through generic calls)."""
    types = prog.types
    memo = {}

    def pars(t):
        t = types[t]
        if t["k"] == "param":
            return {t["name"]}
        out = set()
        for a in t.get("args", []) or []:
            out |= pars(a)
        if "to" in t:
            out |= pars(t["to"])
        return out

    def stored(fid, stack=()):
        if fid in memo:
            return memo[fid]
        if fid in stack:
            return set()
        f = prog.funcs[fid]
        out = set()
        for b in f.get("blocks", []):
            t = b["t"]
            if t.get("k") != "call":
                continue
            cal = t["f"]
            if last(cal.get("path", "")) == "of" and "TypeId" in cal.get("path", ""):
                for a in cal.get("args", []):
                    out |= pars(a)
            if "inst" in cal:
                out |= stored(cal["inst"], stack + (fid,))
        memo[fid] = out
        return out
    return stored


def entry(prog, c):
    P = "P21"
    stored = mentions(prog, c)
    by = {}
    for r in prog.roots:
        fid = r["id"] if isinstance(r, dict) else r
        by.setdefault(prog.funcs[fid]["path"], fid)
    n = 0
    E = Effects(prog, c)
    for f in c.exported:
        fid = by.get(f["path"])
        if fid is None or not any(c.worldly(i) for i in f["inputs"]) or E.of(fid) is None:
            continue
        gen = {g[0] for g in f["generics"] if g[1] == "type"}
        if f.get("impl_self"):
            gen |= params(f["impl_self"])
        ps = stored(fid) & gen
        for p in sorted(ps):
            have = set()
            for b in f["bounds"]:
                if b["k"] == "trait" and b["ty"]["k"] == "param" and b["ty"]["n"] == p:
                    have.add(last(b["trait"]))
                if b["k"] == "tyout" and b["ty"]["k"] == "param" and b["ty"]["n"] == p and b["r"] == "'static":
                    have.add("'static")
            miss = [x for x in ("Send", "Sync", "'static") if x not in have]
            n += 1
            # a marker for a whole group is not stored itself
            c.decide(not miss, P, "entry-bounds", f["path"], "%s is Send, Sync and 'static" % p, "%s names a component or resource type but is not bounded by %s" % (p, ", ".join(miss)))
    # the boxes in a world only hold thread-safe, owned values
    for fl in c.adts[WORLD]["fields"]:
        for x in parts(fl["ty"]):
            if x["k"] == "dyn":
                have = set()
                for tr in x["traits"]:
                    have.add(last(tr))
                    for t in c.traits:
                        if t["path"] == tr:
                            have |= {last(b["trait"]) for b in t["bounds"] if b["k"] == "trait" and b["ty"]["k"] == "param" and b["ty"]["n"] == "Self"}
                miss = [y for y in ("Send", "Sync") if y not in have]
                if x["r"] != "'static":
                    miss.append("'static")
                c.decide(not miss, P, "box-bounds", WORLD, "values in field %s are Send, Sync and 'static" % fl["name"], "%s lacks %s" % (x["s"], ", ".join(miss)))
            if x["k"] in ("ptr",):
                c.decide(False, P, "box-bounds", WORLD, "no raw pointer in field %s" % fl["name"], "raw pointer")
            if x["k"] == "adt" and last(x["p"]) in ("Rc", "RefCell", "Cell", "UnsafeCell", "OnceCell"):
                c.decide(False, P, "box-bounds", WORLD, "no single-threaded cell in field %s" % fl["name"], x["p"])
    # thread safety is never asserted
    for i in c.impls:
        tr = i.get("trait") or ""
        if last(tr) in ("Send", "Sync") and not i.get("negative"):
            c.decide(not i.get("unsafe"), P, "no-assertion", implname(i), "thread safety is derived, not asserted", "unsafe impl of %s" % implname(i))
    c.rep.ok(P, "no-assertion", "crate", "all %d impls examined" % len(c.impls))


# --------------------------------------------------------------------------- reachability of the tables (P22)
MUTABLE_OPS = {
    "world::World::new", "world::World::register", "world::World::register_resource", "world::World::make_group",
    "world::World::create_entity", "world::World::create_entities", "world::World::remove_entity",
    "world::World::attach_component", "world::World::detach_component",
    "entity::Entity::attach", "entity::Entity::detach", "entity::Entity::manaully_drop", "entity::Entities::attach",
}
ACCESS = {"deref", "deref_mut", "as_mut_slice", "as_slice", "iter", "iter_mut", "get", "get_mut", "index", "index_mut", "get_unchecked", "get_unchecked_mut",
          "first", "first_mut", "last", "last_mut", "as_mut_ptr", "as_ptr", "len", "is_empty", "as_ref", "as_mut", "borrow", "borrow_mut", "contains_key",
          "keys", "values", "values_mut", "read", "write", "get_key_value", "into_iter", "capacity", "try_read", "try_write", "upgradable_read", "downgrade",
          "data", "is_some", "is_none", "map", "and_then", "unwrap", "expect", "from", "into", "clone", "cloned", "copied", "ok_or", "next", "branch",
          "cast", "cast_mut", "cast_const", "add"}


#: calls that change which entries a collection holds, or their order
MUTATORS = {"push", "pop", "insert", "remove", "swap", "swap_remove", "clear", "truncate", "retain", "retain_mut", "drain", "resize", "resize_with", "extend",
            "extend_from_slice", "append", "split_off", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key",
            "reverse", "rotate_left", "rotate_right", "dedup", "dedup_by", "dedup_by_key", "take", "replace", "swap_with_slice", "set_len", "fill", "fill_with", "entry",
            "or_insert", "or_insert_with", "get_or_insert_with", "copy_from_slice", "clone_from", "clone_from_slice", "copy_within", "push_front", "push_back", "pop_front",
            "pop_back", "remove_entry", "insert_entry", "splice", "select_nth_unstable", "select_nth_unstable_by_key", "partition_dedup", "extract_if", "try_insert",
            "push_within_capacity", "into_inner", "leak"}


def canon(p):
    return re.sub(r"::<[^>]*>", "", p)


def tables(prog, c):
    P = "P22"
    tb = lambda x: (x["k"] == "adt" and x["p"] in c.tables) or (x["k"] == "dyn" and any(t in c.table_dyns and t != "resource::Resource" for t in x["traits"]))

    def leaks(t, inside=False):
        """Table types reachable in t, and whether behind a reference or guard."""
        for x in parts(t):
            if tb(x):
                yield x
    for f in c.exported:
        fn = f["path"]
        if f.get("in_trait") or f.get("impl_trait") in c.table_dyns:
            ins_self = True
        worldly = any(c.worldly(i) for i in f["inputs"]) or bool(f.get("impl_self") and c.worldly(f["impl_self"]))
        bad = list(leaks(f["output"]))
        if bad and (worldly or any(x["k"] in ("ref", "ptr") or is_guard(x) or x["k"] == "adt" and last(x["p"]) in LOCKS for x in parts(f["output"]))):
            # a reference into a value the caller already owns is no way into a world
            good = not worldly and not any(is_guard(x) for x in parts(f["output"]))
            c.decide(good, P, "no-table-out", fn, "no internal table is handed out", "returns %s" % f["s"][-160:])
        else:
            c.rep.ok(P, "no-table-out", fn, "no internal table is handed out")
        rawg = [x for x in parts(f["output"]) if is_guard(x)]
        if rawg:
            c.decide(False, P, "no-table-out", fn, "no raw lock guard is handed out", "returns %s" % f["s"][-160:])
        for i in f["inputs"]:
            for x in parts(i):
                if x["k"] == "ref" and x["mut"] and any(tb(y) for y in parts(x["a"][0])) and not f.get("in_trait"):
                    c.decide(False, P, "no-table-in", fn, "no internal table is taken mutably", "takes %s" % x["s"])
        for b in f["bounds"]:
            if b["k"] == "trait" and last(b["trait"]) in ("Fn", "FnMut", "FnOnce", "AsyncFn", "AsyncFnMut", "AsyncFnOnce") and any(y for a in b.get("a", []) for y in leaks(a)):
                c.decide(False, P, "no-table-out", fn, "no internal table is passed to a callback", "bound on %s" % b["trait"])
        # mutable access is to component and resource values only
        for x in parts(f["output"]):
            if x["k"] == "ref" and x["mut"] and worldly:
                to = c.target(x["a"][0])
                good = to["k"] in ("param", "alias") or to["k"] == "slice" and to["a"][0]["k"] in ("param",) or to["k"] == "adt" and (to["p"] == WORLD or to["p"] in c.guards)
                if f.get("impl_trait") in ("std::ops::DerefMut", "std::convert::AsMut", "std::borrow::BorrowMut", "std::ops::IndexMut"):
                    good = to["k"] in ("param",)
                c.decide(good, P, "values-only", fn, "mutable access is to component values only", "hands out %s" % x["s"])
    for i in c.impls:
        if i["self"]["k"] == "adt" and (i["self"]["p"] in c.guards or i["self"]["p"] == WORLD) or i.get("trait") == "query::Queryable":
            for n, t in i["assoc"].items():
                bad = [x for x in leaks(t)] + [x for x in parts(t) if is_guard(x)]
                bad += [x for x in parts(t) if x["k"] == "ref" and x["mut"] and x["a"][0]["k"] not in ("param", "alias")]
                c.decide(not bad, P, "no-table-out", implname(i), "%s exposes no internal table" % n, "%s = %s" % (n, [x.get("s") for x in bad][:2]))
    for p, a in sorted(c.adts.items()):
        holds = p in c.guards or p == WORLD or p in c.tables
        if not a["eff"]:
            continue
        for fl in a["fields"]:
            # variants of an enum are public by nature
            if not fl["pub"] or len({x["variant"] for x in a["fields"]}) > 1:
                continue
            t = fl["ty"]
            inner = any(tb(x) or is_guard(x) or x["k"] == "ptr" for x in parts(t))
            c.decide(not (holds or inner), P, "private-fields", p, "field %s is private" % fl["name"], "a public field of a type that holds world data")
        if holds:
            c.rep.ok(P, "private-fields", p, "fields of a type that holds world data")
    effects(prog, c)


def pure_param(types, i):
    return types[i]["k"] == "param"


class Effects:
    """Which functions change the structure of a table: its fields, or the length, order or keys of what they hold.

    Flow-insensitive: a local's origin is the table field it was borrowed from. A field changes when it is assigned through a
    reference or when a borrow of it goes to a library call that is not an element access; values of the component type may change."""

    def __init__(self, prog, c):
        self.prog, self.c, self.types = prog, c, prog.types
        self.own = set(c.tables) | {WORLD}
        self.memo = {}
        self.virt = {}
        for f in prog.roots:
            if f.get("impl_trait"):
                self.virt.setdefault((f["impl_trait"], f["name"]), []).append(f["id"])

    def strip(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            t = self.types[t["to"]]
        return t

    def istable(self, i):
        """Is the type (behind references, boxes) a table?"""
        t = self.strip(i)
        if t["k"] == "adt" and last(t["path"]) == "Box":
            t = self.types[t["args"][0]]
        return t["k"] == "adt" and t["path"] in self.own or t["k"] == "dyn" and any(x in t["s"] for x in self.c.table_dyns)

    def field(self, f, place):
        """The last table field a place goes through, when it is reached through a reference: 'Type.field' and whether it holds plain values."""
        cur = f["locals"][place[0]]
        res, deref = None, False
        for e in place[1:]:
            t = self.types[cur] if cur is not None else {"k": "?"}
            if e[0] == "*":
                deref = True
                cur = t.get("to")
                if cur is None and t.get("k") == "adt" and t.get("args"):
                    cur = t["args"][0]
            elif e[0] == "f":
                if t["k"] == "adt" and t["path"] in self.own and deref:
                    res = (t["path"], e[1], e[2])
                cur = e[2]
            elif e[0] in ("i", "c", "sub"):
                cur = t.get("to")
        return res

    def values(self, fld):
        """Does the field hold component values (elements of a type parameter)?"""
        t = self.types[fld[2]]
        return t["k"] == "adt" and bool(t.get("args")) and self.types[t["args"][0]]["k"] == "param"

    def direct(self, f):
        """The construct that changes a table in this function itself."""
        org = {}
        changed = True
        blocks = [b for b in f.get("blocks", []) if not b.get("cleanup")]

        def of(op):
            return org.get(op[1][0], set()) if op[0] in "cm" else set()

        def put(l, o):
            if o - org.get(l, set()):
                org[l] = org.get(l, set()) | o
                return True
            return False

        def src(place):
            o = set()
            fl = self.field(f, place)
            if fl:
                o.add(("field",) + fl)
            o |= org.get(place[0], set())
            return o

        while changed:
            changed = False
            for b in blocks:
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    dst, rv = s[1], s[2]
                    o = set()
                    if rv[0] == "ref" and rv[1]:
                        o = src(rv[2])
                    elif rv[0] in ("use",):
                        o = of(rv[1])
                    elif rv[0] == "cast":
                        o = of(rv[2])
                    elif rv[0] == "agg":
                        for x in rv[2]:
                            o |= of(x)
                    if o:
                        changed |= put(dst[0], o)
                t = b["t"]
                if t.get("k") == "call":
                    cal = t["f"]
                    nm = last(canon(cal.get("path", "")))
                    o = set()
                    for a in t["args"][:1]:
                        o |= of(a)
                    rt = self.types[t["rty"]]
                    if o and nm in ACCESS and self.holds_ref(t["rty"]):
                        changed |= put(t["dst"][0], {("elem",) + x[1:] for x in o})
                    if nm in ("deref_mut", "as_mut", "get_mut", "index_mut") and rt["k"] == "ref" and rt.get("mut") and self.istable(t["rty"]):
                        changed |= put(t["dst"][0], {("table", self.types[rt["to"]]["s"], 0, 0)})
        unsure = None
        for b in blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                dst = s[1]
                fl = self.field(f, dst)
                if fl:
                    return "assigns field %d of %s" % (fl[1], fl[0])
                if any(e[0] == "*" for e in dst[1:]):
                    for o in org.get(dst[0], set()):
                        if o[0] == "table":
                            return "overwrites a %s" % o[1]
                        if o[0] in ("elem", "field") and not self.values(o[1:]):
                            return "writes an entry of field %d of %s" % (o[2], o[1])
            t = b["t"]
            if t.get("k") != "call":
                continue
            cal = t["f"]
            nm = last(canon(cal.get("path", "")))
            if cal.get("inst") is not None and self.prog.funcs[cal["inst"]]["local"]:
                continue
            virt = cal.get("trait") in self.c.table_dyns
            for a in t["args"]:
                for o in of(a):
                    if virt or nm in ACCESS or nm in ("drop", "fmt", "unlock_fair"):
                        continue
                    if a[0] in "cm" and not self.mutable(f, a[1]):
                        continue
                    r = None
                    if o[0] == "table":
                        r = "passes a %s to %s" % (o[1], nm)
                    elif o[0] == "field" or o[0] == "elem" and not self.values(o[1:]):
                        r = "passes field %d of %s to %s" % (o[2], o[1], nm)
                    if r and (nm in MUTATORS or nm == "write" and "ptr" in canon(cal.get("path", ""))):
                        return r
                    unsure = unsure or r
        return unsure and "?" + unsure

    def holds_ref(self, i, depth=0):
        t = self.types[i]
        if t["k"] in ("ref", "ptr"):
            return t["mut"]
        if depth > 3:
            return False
        return any(self.holds_ref(a, depth + 1) for a in (t.get("args") or []))

    def mutable(self, f, place):
        return len(place) > 1 or self.holds_ref(f["locals"][place[0]])

    def callees(self, f):
        for b in f.get("blocks", []):
            if b.get("cleanup"):
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                    yield s[2][3]["inst"]
            t = b["t"]
            if t.get("k") != "call":
                continue
            cal = t["f"]
            if "inst" in cal:
                yield cal["inst"]
            elif cal.get("trait") in self.c.table_dyns:
                nm = last(cal["path"])
                for i in self.virt.get((cal["trait"], nm), []):
                    yield i

    def of(self, fid, stack=()):
        """None, or how the function changes a table."""
        if fid in self.memo:
            return self.memo[fid]
        if fid in stack:
            return None
        f = self.prog.funcs[fid]
        r = None
        if f["local"] or f.get("closure"):
            r = self.direct(f)
            if r:
                r = "%s%s %s" % ("?" * (r[0] == "?"), canon(f["path"]), r.lstrip("?"))
        if not r or r[0] == "?":
            for g in self.callees(f):
                r2 = self.of(g, stack + (fid,))
                if r2 and (not r or r2[0] != "?"):
                    r = "%s%s > %s" % ("?" * (r2[0] == "?"), canon(f["path"]), r2.lstrip("?")) if f["local"] else r2
                    if r[0] != "?":
                        break
        if not stack:
            self.memo[fid] = r
        elif r:
            self.memo[fid] = r
        return r


def effects(prog, c):
    E = Effects(prog, c)
    by = {}
    for f in prog.roots:
        by.setdefault((f["path"], f["span"][1]), f["id"])
        by.setdefault(f["path"], f["id"])
    n = 0
    for f in c.exported:
        fid = by.get(f["path"])
        worldly = any(c.worldly(i) for i in f["inputs"]) or bool(f.get("impl_self") and c.worldly(f["impl_self"]))
        if fid is None or not worldly:
            continue
        r = E.of(fid)
        n += 1
        if canon(f["path"]) in MUTABLE_OPS:
            c.rep.ok("P22", "structure", f["path"], "a documented operation")
        elif r and r[0] == "?":
            c.rep.add("P22", "structure", f["path"], "does not change which entries a table holds or their order", "undecided", "an unknown call may change a table: " + r[1:])
        else:
            c.decide(r is None, "P22", "structure", f["path"], "does not change which entries a table holds or their order", r or "")
    # the analysis sees the tables change where they are documented to
    seen = sum(1 for f in c.exported if canon(f["path"]) in MUTABLE_OPS and by.get(f["path"]) is not None and (E.of(by[f["path"]]) or "?")[0] != "?")
    if seen >= 8:
        c.rep.ok("P22", "structure", "crate", "the documented operations are seen to change tables (%d of %d)" % (seen, len(MUTABLE_OPS)))
    else:
        c.rep.add("P22", "structure", "crate", "the documented operations are seen to change tables", "undecided", "only %d of %d" % (seen, len(MUTABLE_OPS)))
    return n


def check(prog, rep, what=("borrows", "retype", "entry", "tables")):
    c = Types(prog, rep)
    if "borrows" in what:
        borrows(c)
    if "retype" in what:
        retype(c)
    if "entry" in what:
        entry(prog, c)
    if "tables" in what:
        tables(prog, c)
