"""Level 2: creation, lookup, registration, guards and resources."""
from .l2_entity import *
from .l2_world import remove_entity


def methods(prog, adt, trait=None):
    out = {}
    for f in prog.roots:
        if f.get("impl_self") is None or prog.self_adt(f) != adt:
            continue
        t = f.get("impl_trait")
        if (trait is None) != (t is None):
            continue
        if trait is not None and t.split("::")[-1] != trait:
            continue
        out[f["name"]] = f
    return out


def want(prog, rep, adt, name, trait=None):
    f = methods(prog, adt, trait).get(name)
    if f is None:
        rep.add("*", "anchor", "%s::%s" % (adt, name), "method present", "undecided", "the method is missing")
    return f


def owned_parts(s, v, seen=None):
    """Guards and references a returned value carries (through boxes it owns)."""
    gs, refs = [], []
    seen = seen if seen is not None else set()

    def walk(t):
        t = s.norm(t)
        if t in seen:
            return
        seen.add(t)
        if t.op == "guard":
            gs.append(t)
            return
        if t.op == "ref":
            refs.append(t)
            return
        if t.op == "box":
            c = s.mem.get(s.norm(t.a[0]))
            if c is not None and M.lock_of(t.a[0]) is None:
                walk(c)
            return
        for x in t.a:
            if isinstance(x, T):
                walk(x)
    walk(v)
    return gs, refs


def covered(R, I, o, extra=()):
    """Whatever the result points into stays locked as long as the result lives."""
    s = o.st
    gs, refs = owned_parts(s, o.val)
    gs = gs + list(extra)
    R.check("P02", "result-guard", "a result keeps the lock of everything it points into", o,
            all(any(g.op == "guard" and s.norm(g.a[0]) is s.norm(M.lock_of(r.a[0])) for g in gs) for r in refs if M.lock_of(r.a[0]) is not None),
            "returns %s" % show(s.norm(o.val))[:300])
    return gs, refs


class Op:
    """One analysed operation: its world, type parameter and outcomes."""

    def __init__(self, prog, rep, f, params=1, handle_arg=False, byref=True):
        self.prog, self.rep, self.f = prog, rep, f
        self.fn = f["path"]
        self.I, self.st, self.w = start(prog, f)
        self.ok = self.w.ok
        self.T = type_param(prog, f) if params else None
        if params and self.T is None:
            self.ok = False
        self.R = Rules(rep, self.fn)
        if not self.ok:
            rep.add("*", "anchor", self.fn, "signature", "undecided", "not recognised")
        self.key = mk("typeid", self.T) if self.T else None

    def run(self, args):
        outs = run(self.rep, self.I, self.f, args, self.st)
        if outs is not None:
            self.R.I = self.I
            t = self.prog.ty(self.f["locals"][1]) if self.f["argc"] else {"k": "?"}
            self.R.exclusive = t["k"] == "ref" and t["mut"]  # no one else is in the world
            violations(self.R, outs, self.w, self.f["name"] == "make_group")
        return outs

    def reg(self, o):
        return known(o.st, mk("mapin", self.w.fld("comps"), self.key))


def nochange(R, o, prop, rule="no-effect", what="nothing is changed"):
    ch = [e for e in events(o.st.trace, *CHANGE, "grp") if is_change(e)]
    R.check(prop, rule, what, o, not ch, ", ".join("%s(%s)" % (e.k, ", ".join(show(y) for y in e.a)[:100]) for e in ch[:3]))


def nopanic(R, o, what="does not panic", ok=False, props=("P25",)):
    for p in props:
        R.check(p, "no-panic", what, o, ok, "panic '%s' at %s" % (o.msg, where(o.st.stack)))


def content(o, L):
    """The storage behind L as this path last saw it."""
    b = mk("boxof", o.st.norm(L))
    return o.st.norm(o.st.mem[b]) if b in o.st.mem else None


# ------------------------------------------------------------------ the world
def world_new(prog, rep):
    f = want(prog, rep, "World", "new")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    outs = p.run([]) if p.ok else None
    if outs is None:
        return
    R, w = p.R, p.w
    for o in outs:
        if o.kind == "panic":
            nopanic(R, o)
            continue
        v = o.st.norm(o.val)
        want_ = {"em": "em_new", "comps": "m_empty", "groups": "s_empty", "res": "m_empty"}
        good = {"em": ("P05", "a new world has no entity"), "comps": ("P19", "a new world has no component type"),
                "groups": ("P12", "a new world has no group"), "res": ("P20", "a new world has no resource")}
        for n, op in want_.items():
            x = v.a[2 + w.f[n]] if v.op == "adt" and len(v.a) == 6 else v
            while x.op == "lock":
                x = o.st.norm(x.a[0])
            R.check(good[n][0], "world-new", good[n][1], o, x.op == op or op == "s_empty" and o.st.decide(eqi(M.slen(o.st, x), ZERO)) is True, "starts with %s" % show(x)[:200])
    R.done()


def em_lock_kept(R, w, o, what):
    """Between the allocation and the return the id table is never unlocked."""
    tr = o.st.trace
    p = last_pos(tr, lambda e: e.k == "em")
    bad = p is not None and any(e.k == "rel" and o.st.norm(e.a[0]) is w.em() for e in tr[p:])
    R.check("P23", "handle-lock", what, o, not bad, "the id table is unlocked between the allocation and the return")


def parse_handle(prog, s, w, ty, v):
    """Fields of a returned handle: dict or None."""
    path, fs = fields_of(prog, ty)
    v = s.norm(v)
    if path is None or v.op != "adt" or len(v.a) != 2 + len(fs):
        return None
    out = {}
    for ft, x in zip(fs, v.a[2:]):
        c = prog.canon(ft)
        x = s.norm(x)
        if c.startswith("&") and c.endswith("World"):
            out["world"] = x
        elif "NonZero<usize>" in c and "Range" not in c:
            out["id"] = x
        elif "Range<" in c:
            out["range"] = x
        elif "RwLock" in c and "Guard" in c:
            out["guard"] = x
    return out


def handle_ok(R, w, o, h, prop="P23"):
    s = o.st
    R.check(prop, "handle-guard", "the handle holds the id table's lock and the world it came from", o,
            h is not None and h.get("guard") is not None and h["guard"].op == "guard" and h["guard"].a[0] is w.em() and h["guard"] in s.held and h.get("world") is w.ref(),
            "returns %s" % show(s.norm(o.val))[:300])


def create(prog, rep, batch):
    f = want(prog, rep, "World", "create_entities" if batch else "create_entity")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    R, w = p.R, p.w
    n = sym("=intcount")
    p.st.assume(ge0(n))
    outs = p.run([w.ref(), n] if batch else [w.ref()])
    if outs is None:
        return
    rets = 0
    for o in outs:
        s, tr = o.st, o.st.trace
        if o.kind == "panic":
            nopanic(R, o, "creating entities does not panic")
            continue
        rets += 1
        gs, _ = covered(R, p.I, o)
        released(R, o, gs)
        h = parse_handle(prog, s, w, f["locals"][0], o.val)
        handle_ok(R, w, o, h)
        ems = events(tr, "em")
        one = len(ems) == 1 and ems[0] in tr and ems[0].a[0].a[0] == ("alloc_n" if batch else "alloc")
        if batch:
            rg = h and h.get("range")
            R.check("P06", "create", "the handle covers exactly the ids of one batch allocation of the asked size", o,
                    one and rg is not None and rg.op == "adt" and len(rg.a) == 4 and same(s, rg.a[2], ems[0].a[2]) and same(s, rg.a[3], ems[0].a[3]) and same(s, sub(rg.a[3], rg.a[2]), n),
                    "%d changes of the id table; returns %s" % (len(ems), show(s.norm(o.val))[:200]))
        else:
            R.check("P29", "create-reuse", "a single creation takes one id of the table, waiting ids first", o, one, "%d changes of the id table" % len(ems))
            if len(ems) == 1 and ems[0] in tr and ems[0].a[0].a[0] == "alloc_n":
                one = same(s, sub(ems[0].a[3], ems[0].a[2]), ONE)
            R.check("P05", "create", "the handle is for the id allocated, one id per call", o, one and h is not None and h.get("id") is not None and same(s, h["id"], ems[0].a[2]),
                    "%d changes of the id table; returns %s" % (len(ems), show(s.norm(o.val))[:200]))
        for pr in ("P05", "P26"):
            R.check(pr, "create-only", "nothing but the id table is changed", o, all(e.k == "em" for e in events(tr, *CHANGE, "grp") if is_change(e)), "")
        em_lock_kept(R, w, o, "new entities cannot be removed before their handle is returned")
    R.check("P05", "create", "entities can be created", None, rets > 0, "no path returns")
    R.done()


def entity(prog, rep):
    f = want(prog, rep, "World", "entity")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    R, w = p.R, p.w
    x = sym("e")
    p.st.assume(ge0(sub(x, ONE)))
    outs = p.run([w.ref(), x])
    if outs is None:
        return
    rets = set()
    for o in outs:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "asking for a handle does not panic", props=("P25", "P07"))
            continue
        gs, _ = covered(R, p.I, o)
        released(R, o, gs)
        nochange(R, o, "P23")
        shared(R, o)
        v = s.norm(o.val)
        alive = em_known(w, s, x)
        some_ = v.op == "adt" and v.a[1] == 1
        rets.add(some_)
        for pr in ("P23", "P07"):
            R.check(pr, "handle-exists", "a handle is given exactly for existing entities", o, v.op == "adt" and alive is some_, "returns %s with existence %s" % (show(v)[:100], alive))
        if some_:
            # T of Option<T>
            t = prog.ty(f["locals"][0])
            h = parse_handle(prog, s, w, t["args"][0], v.a[2]) if t.get("args") else None
            handle_ok(R, w, o, h)
            R.check("P23", "handle-id", "the handle is for the id asked for", o, h is not None and h.get("id") is not None and same(s, h["id"], x), show(v)[:200])
            # the check and the handle belong to one critical section
            acqs = [e for e in s.trace if e.k == "acq" and e.a[0] is w.em()]
            R.check("P23", "handle-lock", "existence is checked under the lock the handle keeps", o, len(acqs) == 1 and not any(e.k == "rel" and e.a[0] is w.em() for e in s.trace), "%d acquisitions" % len(acqs))
    R.check("P23", "handle-exists", "both answers are possible", None, rets == {True, False}, str(rets))
    R.done()


def exist(prog, rep):
    f = want(prog, rep, "World", "exist")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    R, w = p.R, p.w
    x = sym("e")
    p.st.assume(ge0(sub(x, ONE)))
    outs = p.run([w.ref(), x])
    for o in outs or []:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "asking whether an id exists does not panic", props=("P25", "P07"))
            continue
        released(R, o)
        nochange(R, o, "P05")
        shared(R, o)
        v = s.norm(o.val)
        good = v.op == "emhas" and v.a[0].op == "locked" and v.a[0].a[0] is w.em() and same(s, v.a[1], x) or v.op == "bool" and em_known(w, s, x) is v.a[0]
        for pr in ("P05", "P07"):
            R.check(pr, "exist", "an id is reported as existing exactly when it is alive", o, good, "returns %s" % show(v)[:200])
    R.done()


def answer(s, v, cond):
    """Is the returned condition the expected one?"""
    v, cond = s.norm(v), s.norm(cond)
    if v is cond:
        return True
    d = known(s, cond)
    if d is not None:
        return known(s, v) is d
    for b in (True, False):
        t = s.clone()
        if t.assume(cond if b else neg(cond)) and not refuted(t):
            if known(t, v) is not b:
                return False
    return True


def register(prog, rep):
    f = want(prog, rep, "World", "register")
    if f is None:
        return
    p = Op(prog, rep, f)
    if not p.ok:
        return
    R, w = p.R, p.w
    outs = p.run([w.ref()])
    rets = 0
    for o in outs or []:
        s, tr = o.st, o.st.trace
        had = known(o.st, mk("mapin", w.fld("comps"), p.key))
        if o.kind == "panic":
            for pr in ("P25", "P19", "P26"):
                no_change(R, o, "refusing a second registration changes nothing", pr)
            for pr in ("P25", "P19"):
                R.check(pr, "no-panic", "only a second registration is refused", o, had is True, "panic '%s' at %s" % (o.msg, where(s.stack)))
            continue
        rets += 1
        released(R, o)
        ins = events(tr, "mapins")
        one = len(ins) == 1 and ins[0] in tr and ins[0].a[0].op == "ref" and ins[0].a[0] is ref(w.root, w.step("comps")) and s.norm(ins[0].a[1]) is p.key
        R.check("P19", "register", "registering stores one storage under the type's own key", o, one, "%d insertions" % len(ins))
        if one:
            R.check("P19", "register-twice", "an existing storage is never replaced", o, ins[0].a[3] is FALSE, "replaces the storage of a registered type")
            R.check("P26", "register-twice", "an existing storage is never replaced", o, ins[0].a[3] is FALSE, "replaces the storage of a registered type")
            v = s.norm(ins[0].a[2])
            b = s.norm(v.a[0]) if v.op == "lock" else v
            c = s.norm(s.mem[b.a[0]]) if b.op == "box" and b.a[0] in s.mem else v
            R.check("P19", "register-empty", "the new storage is empty", o, c.op == "sp_empty", "stores %s" % show(c)[:100])
            t = s.rty.get(b.a[0]) if b.op == "box" else None
            R.check("P01", "register-type", "the container is of the type it is registered under", o, t is not None and t.a[0] == p.I.stored_type("storage", p.T),
                    "stores a %s under %s" % (t.a[0] if t is not None else show(b)[:100], p.T))
        oth = [e for e in events(tr, *CHANGE, "grp") if is_change(e) and e not in ins]
        R.check("P19", "register-only", "nothing else is changed", o, not oth, ", ".join(e.k for e in oth))
        R.check("P19", "register", "the world itself is handed back", o, s.norm(o.val) is w.ref() or prog.ty(f["locals"][0])["k"] != "ref", show(s.norm(o.val))[:100])
    R.check("P19", "register", "a type can be registered", None, rets > 0, "no path returns")
    R.done()


def has_registered(prog, rep):
    f = want(prog, rep, "World", "has_registered")
    if f is None:
        return
    p = Op(prog, rep, f)
    if not p.ok:
        return
    R, w = p.R, p.w
    for o in p.run([w.ref()]) or []:
        if o.kind == "panic":
            nopanic(R, o)
            continue
        released(R, o)
        nochange(R, o, "P19")
        shared(R, o)
        R.check("P19", "has-registered", "a type is reported registered exactly when it has a storage", o, answer(o.st, o.val, mk("mapin", w.fld("comps"), p.key)), "returns %s" % show(o.st.norm(o.val))[:200])
    R.done()


def shown(prog, rep):
    """Printing a world only reads it."""
    f = methods(prog, "World", "Debug").get("fmt")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    R, w = p.R, p.w
    for o in p.run([w.ref(), ref(mk("heap", sym("fmt")))]) or []:
        if o.kind == "panic":
            nopanic(R, o)
            continue
        released(R, o)
        for pr in ("P05", "P19", "P20", "P22"):
            nochange(R, o, pr, "no-effect", "printing the world changes nothing")
        shared(R, o, None)
    R.done()


def register_resource(prog, rep):
    f = want(prog, rep, "World", "register_resource")
    if f is None:
        return
    p = Op(prog, rep, f)
    if not p.ok:
        return
    R, w = p.R, p.w
    v0 = sym("resource")
    rets = 0
    for o in p.run([w.ref(), v0]) or []:
        s, tr = o.st, o.st.trace
        if o.kind == "panic":
            nopanic(R, o, "registering a resource does not panic")
            continue
        rets += 1
        released(R, o)
        ins = events(tr, "mapins")
        one = len(ins) == 1 and ins[0] in tr and ins[0].a[0] is ref(w.root, w.step("res")) and s.norm(ins[0].a[1]) is p.key
        # or the value of the same type that is there already is replaced in its place
        L = s.norm(w.rsc(p.key))
        there = (mk("inner", L), mk("boxof", L))
        put = [e for e in events(tr, "write") if e in tr and e.a[0].op == "loc_" and e.a[0].a[0] in there and len(e.a[0].a) == 1]
        over = not ins and bool(put) and known(s, mk("mapin", w.fld("res"), p.key)) is True
        R.check("P20", "resource-put", "the resource is stored under its own type, replacing only that", o, one or over, "%d insertions" % len(ins))
        if one or over:
            v = s.norm(ins[0].a[2]) if one else s.norm(s.mem.get(there[0], ref(there[1])))
            b = s.norm(v.a[0]) if v.op == "lock" else v
            same_box = b.op in ("ref", "box") and b.a[0] is there[1]
            if same_box:
                c, t = s.norm(s.mem.get(there[1], b)), None
            else:
                c = s.norm(s.mem[b.a[0]]) if b.op == "box" and b.a[0] in s.mem else v
                t = s.rty.get(b.a[0]) if b.op == "box" else None
            R.check("P20", "resource-value", "the value given is the value stored", o, c is v0, "stores %s" % show(c)[:100])
            if not same_box:
                R.check("P01", "register-type", "the container is of the type it is registered under", o, t is not None and t.a[0] == p.T,
                        "stores a %s under %s" % (t.a[0] if t is not None else show(b)[:100], p.T))
        oth = [e for e in events(tr, *CHANGE, "grp") if is_change(e) and e not in ins and not (over and e in put)]
        R.check("P20", "resource-only", "nothing else is changed", o, not oth, ", ".join(e.k for e in oth))
    R.check("P20", "resource-put", "a resource can be registered", None, rets > 0, "no path returns")
    R.done()


def one_lock(s, gs, L, mode):
    """The only lock held at the end is L, in this mode, in the result."""
    return len(gs) == 1 and s.norm(gs[0].a[0]) is s.norm(L) and (gs[0].a[1] == mode or mode == "r" and False) and list(s.held) == [gs[0]]


def guard_op(prog, rep, name, what, mode, kind, by_id=False, via=None):
    """Operations that hand out a guard: resource / storage / component."""
    adt = via or "World"
    f = want(prog, rep, adt, name)
    if f is None:
        return None
    p = Op(prog, rep, f)
    if not p.ok:
        return None
    R, w, st = p.R, p.w, p.st
    x = sym("e")
    keep = ()
    if via:
        t = prog.ty(f["locals"][1])
        h = handle(prog, p.I, st, w, f["locals"][1])
        if h is None or "id" not in h[1]:
            rep.add("*", "anchor", p.fn, "handle", "undecided", "the handle is not recognised")
            return None
        x = h[1]["id"]
        r = mk("heap", sym("handle"))
        st.mem[r] = h[0]
        args = [ref(r)]
        keep = (h[1]["guard"],)
    else:
        args = [w.ref()]
        if by_id:
            st.assume(ge0(sub(x, ONE)))
            args.append(x)
    outs = p.run(args)
    if outs is None:
        return None
    m = w.fld("res" if kind == "res" else "comps")
    L = w.rsc(p.key) if kind == "res" else w.sto(p.key)
    prop = {"res": "P20", "sto": "P19", "comp": "P18"}[kind]
    kinds = set()
    good = []
    for o in outs:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "asking for a guard does not panic", props=("P25", "P07", prop))
            continue
        v = s.norm(o.val)
        gs, refs = covered(R, p.I, o, keep)
        gs = [g for g in gs if g not in keep]
        released(R, o, tuple(gs) + keep)
        nochange(R, o, prop)
        shared(R, o, (L,), (L,) if mode == "w" else ())
        some_ = v.op == "adt" and v.a[1] == 1
        kinds.add(some_)
        inm = known(s, mk("mapin", m, p.key))
        has = None
        if by_id or via:
            for k, tv in s.facts.tru.items():
                if k.op == "sphas" and same(s, k.a[1], x) and mentions(s, k.a[0], L):
                    has = tv
            c = content(o, L)
            if has is None and c is not None:
                has = known(s, M.sps_has(p.I, s, c, x))
        for pr in (prop, "P07") if by_id or via else (prop,):
            if by_id or via:
                R.check(pr, "guard-exists", "a guard is granted exactly when %s" % what, o, v.op == "adt" and (inm is True and has is True if some_ else inm is False or has is False),
                        "returns %s with registered=%s has=%s" % (show(v)[:100], inm, has))
            else:
                R.check(pr, "guard-exists", "a guard is granted exactly when %s" % what, o, v.op == "adt" and inm is some_, "returns %s with registered=%s" % (show(v)[:100], inm))
        R.check("P19" if kind != "res" else "P20", "guard-type", "the guard is on the object registered for its type", o,
                not some_ or len(gs) == 1 and s.norm(gs[0].a[0]) is s.norm(L), "holds %s" % ", ".join(show(g) for g in gs)[:300])
        R.check("P01", "guard-type", "the guard is on the object registered for its type", o,
                not some_ or len(gs) == 1 and s.norm(gs[0].a[0]) is s.norm(L), "holds %s" % ", ".join(show(g) for g in gs)[:300])
        R.check("P02", "guard-mode", "the guard holds its lock %s" % ("exclusively" if mode == "w" else "for as long as it lives"), o,
                not some_ or len(gs) == 1 and (mode == "r" or gs[0].a[1] == "w"), "holds %s" % ", ".join(show(g) for g in gs)[:300])
        if some_:
            good.append((o, v.a[2], gs))
            if by_id or via:
                # the id was looked up under the lock the guard keeps
                c = content(o, L)
                R.check("P18", "guard-fresh", "the id is looked up under the lock the guard keeps", o, c is not None and known(s, M.sps_has(p.I, s, c, x)) is True, "")
    R.check(prop, "guard-exists", "both answers are possible", None, kinds == {True, False}, str(kinds))
    R.done()
    return p, good, x


class Ctor:
    """An operation that yields guards, with the guards it yields."""

    def __init__(self, prog, rep, *a):
        self.prog, self.rep, self.a = prog, rep, a
        self.by = {}
        self.f = methods(prog, a[6] if len(a) > 6 else "World").get(a[0])
        self.get(None)

    def get(self, T_):
        """The guards, for the type parameter called T_."""
        if T_ not in self.by:
            own = type_param(self.prog, self.f) if self.f else None
            rep = self.rep if T_ is None else Report()
            if T_ is not None and own is not None and own != T_:
                self.prog.alias = {own: T_}
            try:
                self.by[T_] = guard_op(self.prog, rep, *self.a)
            finally:
                self.prog.alias = {}
        return self.by[T_]


def method_on(prog, rep, ctor, adt, name, trait, args, spec, pre=None, prop="P18"):
    """Analyse a method of a guard on every guard the constructing operation yields.

    spec(R, p, o, content, L, x): checks of one outcome; pre(I, s, content, x): assumptions."""
    f = want(prog, rep, adt, name, trait)
    if f is None:
        return
    got = ctor.get(type_param(prog, f))
    if got is None:
        rep.add("*", "anchor", f["path"], "guard", "undecided", "no guard to analyse")
        return
    p, good, x = got
    R = Rules(rep, f["path"])
    n = 0
    seen = set()
    for o0, v, gs in good:
        st = o0.st.clone()
        st.trace = ()
        st.stack = ()
        st.viol = ()
        r = mk("heap", sym("guard"))
        st.mem[r] = v
        L = gs[0].a[0] if gs else None
        if L is None:
            continue
        c = st.norm(st.mem.get(mk("boxof", st.norm(L)), UNIT))
        if pre and not pre(p.I, st, c, x):
            continue
        outs = run(rep, p.I, f, [ref(r)] + list(args), st)
        if outs is None:
            continue
        violations(R, outs)
        n += 1
        for o in outs:
            if o.kind == "panic":
                nopanic(R, o, "does not panic", props=("P25", prop))
                continue
            # access through the guard changes neither the locks nor the guard
            R.check("P02", "guard-method", "the guard keeps its lock", o, o.st.held == st.held, "")
            nochange(R, o, "P22", "guard-method", "the guard's methods change no storage")
            spec(R, p, o, c, L, x)
    if not n:
        rep.add("*", "anchor", f["path"], "guard", "undecided", "no guard to analyse")
    R.done()


def datref(L, i=None):
    r = mk("boxof", L)
    return ref(r, fstep(0, M.SP["dat"]), *([istep(i)] if i is not None else []))


def guards(prog, rep):
    ids = sym("i")

    def sp_spec(kind):
        def spec(R, p, o, c, L, x):
            I, s = p.I, o.st
            v = s.norm(o.val)
            L = s.norm(L)
            if kind == "count":
                g = same(s, v, M.sps_len(I, s, c))
            elif kind == "is_empty":
                g = answer(s, v, eqi(M.sps_len(I, s, c), ZERO))
            elif kind == "exist":
                g = answer(s, v, M.sps_has(I, s, c, ids))
            elif kind == "get":
                h = known(s, M.sps_has(I, s, c, ids))
                g = v is NONE and h is False or v.op == "adt" and v.a[1] == 1 and h is True and s.norm(v.a[2]) is s.norm(datref(L, M.sps_idx(I, s, c, ids)))
            elif kind == "unchecked":
                g = v is s.norm(datref(L, M.sps_idx(I, s, c, ids)))
            elif kind == "data":
                g = v is s.norm(datref(L))
            elif kind == "comp":
                g = known(s, M.sps_has(I, s, c, x)) is True and v is s.norm(datref(L, M.sps_idx(I, s, c, x)))
            elif kind == "res":
                g = v is ref(mk("boxof", L))
            R.check("P20" if kind == "res" else "P18", "guard-answer", {"res": "a resource guard yields the resource it locks",
                    "comp": "a component guard yields the component of its entity"}.get(kind, "%s answers for the locked storage" % kind), o, g, "returns %s" % show(v)[:200])
        return spec

    def has(I, s, c, x):
        s.assume(ge0(sub(ids, ONE)))
        return s.assume(s.norm(M.sps_has(I, s, c, ids)))

    def any_(I, s, c, x):
        return s.assume(ge0(sub(ids, ONE)))

    rd = Ctor(prog, rep, "components_read", "the type is registered", "r", "sto")
    wr = Ctor(prog, rep, "components_write", "the type is registered", "w", "sto")
    for ctor, adt, extra in ((rd, "StorageRead", ()), (wr, "StorageWrite", (("get_mut", "get", any_, 1), ("get_unchecked_mut", "unchecked", has, 1), ("data_mut", "data", None, 0)))):
        for name, kind, pre, na in (("count", "count", None, 0), ("exist", "exist", any_, 1), ("get", "get", any_, 1), ("get_unchecked", "unchecked", has, 1),
                                    ("is_empty", "is_empty", None, 0), ("data", "data", None, 0)) + extra:
            method_on(prog, rep, ctor, adt, name, None, [ids] if na else [], sp_spec(kind), pre)
    cr = Ctor(prog, rep, "entity_component_read", "the entity has the component", "r", "comp", True)
    cw = Ctor(prog, rep, "entity_component_write", "the entity has the component", "w", "comp", True)
    method_on(prog, rep, cr, "ComponentRead", "deref", "Deref", [], sp_spec("comp"))
    method_on(prog, rep, cw, "ComponentWrite", "deref", "Deref", [], sp_spec("comp"))
    method_on(prog, rep, cw, "ComponentWrite", "deref_mut", "DerefMut", [], sp_spec("comp"))
    er = Ctor(prog, rep, "component_read", "the entity has the component", "r", "comp", False, "Entity")
    ew = Ctor(prog, rep, "component_write", "the entity has the component", "w", "comp", False, "Entity")
    method_on(prog, rep, er, "ComponentRead", "deref", "Deref", [], sp_spec("comp"))
    method_on(prog, rep, ew, "ComponentWrite", "deref_mut", "DerefMut", [], sp_spec("comp"))


def resources(prog, rep):
    rr = Ctor(prog, rep, "resource_read", "the resource is registered", "r", "res")
    rw = Ctor(prog, rep, "resource_write", "the resource is registered", "w", "res")

    def spec(R, p, o, c, L, x):
        v = o.st.norm(o.val)
        R.check("P20", "guard-answer", "a resource guard yields the resource it locks", o, v is ref(mk("boxof", o.st.norm(L))), "returns %s" % show(v)[:200])

    def shown(R, p, o, c, L, x):
        pass
    method_on(prog, rep, rr, "ResourceRead", "deref", "Deref", [], spec, prop="P20")
    method_on(prog, rep, rw, "ResourceWrite", "deref", "Deref", [], spec, prop="P20")
    method_on(prog, rep, rw, "ResourceWrite", "deref_mut", "DerefMut", [], spec, prop="P20")
    for c, n in ((rr, "ResourceRead"), (rw, "ResourceWrite")):
        for t in ("Debug", "Display"):
            if methods(prog, n, t):
                method_on(prog, rep, c, n, "fmt", t, [ref(mk("heap", sym("fmt")))], shown, prop="P20")


# -------------------------------------------------------------------- handles
def into_ids(prog, rep):
    for adt, name, k in (("Entity", "into_id", "id"), ("Entities", "into_ids", "range")):
        f = want(prog, rep, adt, name)
        if f is None:
            continue
        p = Op(prog, rep, f, 0)
        if not p.ok:
            continue
        h = handle(prog, p.I, p.st, p.w, f["locals"][1])
        if h is None:
            rep.add("*", "anchor", p.fn, "handle", "undecided", "the handle is not recognised")
            continue
        R = p.R
        for o in p.run([h[0]]) or []:
            s = o.st
            if o.kind == "panic":
                nopanic(R, o)
                continue
            v = s.norm(o.val)
            g = same(s, v, h[1]["id"]) if k == "id" else v.op == "adt" and len(v.a) == 4 and same(s, v.a[2], h[1]["lo"]) and same(s, v.a[3], h[1]["hi"])
            R.check("P23", "handle-ids", "the handle names exactly its entities", o, g, "returns %s" % show(v)[:200])
            R.check("P06" if k == "range" else "P05", "handle-ids", "the handle names exactly its entities", o, g, "returns %s" % show(v)[:200])
            released(R, o)
            nochange(R, o, "P23")
        R.done()


def consume(prog, rep):
    f = want(prog, rep, "Entity", "manaully_drop")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    h = handle(prog, p.I, p.st, p.w, f["locals"][1])
    if h is None or "id" not in h[1]:
        rep.add("*", "anchor", p.fn, "handle", "undecided", "the handle is not recognised")
        return
    remove_entity(prog, rep, f, given=(p.I, p.st, p.w, [h[0]], h[1]["id"]))


# ------------------------------------------------- a storage seen as a trait object
def forwarding(prog, rep):
    fs = {f["name"]: f for f in prog.roots if (f.get("impl_trait") or "").endswith("ComponentStorage") and prog.self_adt(f) == "SparseSet"}
    for g in prog.roots:
        if (g.get("trait") or "").endswith("ComponentStorage") and g["name"] not in fs and not g.get("impl_trait"):
            pass
    x, i, j = sym("e"), sym("=inti"), sym("=intj")
    for name in ("has", "index", "id", "remove", "swap_by_index", "count"):
        f = fs.get(name)
        if f is None:
            rep.add("*", "anchor", "ComponentStorage::" + name, "method present", "undecided", "the method is missing")
            continue
        I, st = Interp(prog), State()
        R = Rules(rep, f["path"])
        S, r = sym("S"), mk("heap", sym("s"))
        st.mem[r] = S
        M.SPSBASE.add(S)
        for t in (sub(x, ONE), i, j):
            st.assume(ge0(t))
        args = {"has": [x], "index": [x], "id": [i], "remove": [x], "swap_by_index": [i, j], "count": []}[name]
        outs = run(rep, I, f, [ref(r)] + args, st)
        broken_steps(R, outs or [])
        for o in outs or []:
            s = o.st
            n = M.sps_len(I, s, S)
            if o.kind == "panic":
                ok = name == "remove" and known(s, M.sps_has(I, s, S, x)) is False or \
                    name == "swap_by_index" and cases(I, s, neg(conj([lt(i, n), lt(j, n)]))) and known(s, eqi(i, j)) is not True
                for pr in ("P25", "P07"):
                    R.check(pr, "no-panic", "does not panic on a valid call", o, ok, "panic '%s' at %s" % (o.msg, where(s.stack)))
                R.check("P25", "panic-first", "nothing changes before a panic", o, s.norm(s.mem[r]) is S, show(s.mem[r])[:200])
                continue
            v = s.norm(o.val)
            c = s.norm(s.mem[r])
            if name == "has":
                g = answer(s, v, M.sps_has(I, s, S, x))
            elif name == "count":
                g = same(s, v, n)
            elif name == "index":
                h = known(s, M.sps_has(I, s, S, x))
                g = v is NONE and h is False or h is True and v.op == "adt" and v.a[1] == 1 and same(s, v.a[2], M.sps_idx(I, s, S, x))
            elif name == "id":
                h = known(s, lt(i, n))
                g = v is NONE and h is False or h is True and v.op == "adt" and v.a[1] == 1 and same(s, v.a[2], M.sps_ent(I, s, S, i))
            elif name == "remove":
                g = c.op == "sp_rm" and c.a[0] is S and same(s, c.a[1], x)
            else:
                g = c.op == "sp_swap" and c.a[0] is S and {s.norm(c.a[1]), s.norm(c.a[2])} == {s.norm(i), s.norm(j)} or c is S and known(s, eqi(i, j)) is True
            R.check("P08", "storage-object", "%s through the trait object acts on the map itself" % name, o, g, "returns %s, storage %s" % (show(v)[:100], show(c)[:100]))
            if name not in ("remove", "swap_by_index"):
                R.check("P08", "storage-object-read", "a lookup changes nothing", o, c is S, show(c)[:100])
        if outs is not None:
            R.done()


OPS = {
    "world-new": world_new,
    "create": lambda p, r: (create(p, r, False), create(p, r, True)),
    "entity": lambda p, r: (entity(p, r), exist(p, r), into_ids(p, r)),
    "register": lambda p, r: (register(p, r), has_registered(p, r)),
    "resources": lambda p, r: (register_resource(p, r), resources(p, r)),
    "guards": guards,
    "consume": consume,
    "world-shown": shown,
    "storage-object": forwarding,
}


def check(prog, rep, only=None):
    for n, g in OPS.items():
        if only is None or n in only:
            g(prog, rep)
