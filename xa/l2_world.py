"""Level 2: the world's operations, on top of the contracts of their parts."""
from .world import *


def fail(rep, o, prop, rule, fn, what, detail):
    """A rule does not hold on a path."""
    if o is not None and o.st.taint:
        rep.add(prop, rule, fn, what, "undecided", "; ".join(o.st.taint[:3]))
    else:
        rep.bad(prop, rule, fn, what, detail + (" | path: " + explain(o.st, 8) if o is not None else ""))


class Rules:
    """Collects the outcome of rule instances over all paths of a function."""

    def __init__(self, rep, fn):
        self.rep, self.fn = rep, fn
        self.seen = {}

    def check(self, prop, rule, what, o, good, detail=""):
        k = (prop, rule, what)
        if good is True:
            self.seen.setdefault(k, None)
        elif not self.seen.get(k) or self.seen[k][0] is not None and self.seen[k][0].st.taint and o is not None and not o.st.taint:
            self.seen[k] = (o, detail)

    def sure(self, prop, rule, what, o, detail):
        """A violation whatever the path meets later."""
        self.seen[(prop, rule, what)] = (None, detail + " | path: " + explain(o.st, 8))

    def done(self):
        for (prop, rule, what), v in self.seen.items():
            if v is None:
                self.rep.ok(prop, rule, self.fn, what)
            else:
                fail(self.rep, v[0], prop, rule, self.fn, what, v[1])


def start(prog, f):
    I = Interp(prog)
    st = State()
    w = World(prog, I, st)
    return I, st, w


def storage_pairs(R, o):
    """Storages locked at once are locked by order of their types.

    An operation that holds every group over a type needs no order: only groups
    over the type make anyone else hold that storage and wait for another."""
    ps = list(events(o.st.trace, "pair"))
    what = "storages held at once are locked in the order of their types"
    if not ps:
        R.check("P04", "storage-order", what, o, True)
        return
    for e in ps:
        if getattr(R, "exclusive", False) or e.info and getattr(R, "allgroups", False):
            continue
        R.check("P04", "storage-order", what, o, False, "%s is locked while %s is held, whatever their order, at %s" % (
            show(e.a[1]), show(e.a[0]), where(e.at)))


def violations(R, outs, w=None, groups=False):
    """Rules the interpreter enforces at every step.

    groups: the operation may change the list of groups."""
    for o in outs:
        storage_pairs(R, o)
    names = {"P02": "every access is covered by the right lock", "P04": "no lock is taken twice or out of order",
             "P01": "every cast is to the type registered", "P24": "every unchecked access is in bounds", "P26": "a component is moved, not copied or forgotten"}
    rules = {"P01": "casts", "P24": "unchecked", "P26": "moved-once"}
    for p, n in names.items():
        R.check(p, rules.get(p, "locks"), n, None, True)
    for o in outs:
        for rule, what, stack in o.st.viol:
            R.sure(rule, rules.get(rule, "locks"), names.get(rule, what), o, "%s at %s" % (what, where(stack)))
        if M.copies(o.st):
            R.rep.add("P26", "moved-once", R.fn, names["P26"], "undecided", "read out of its place and left there: %s" % show(M.copies(o.st)[0])[:200])
        bad = [e for e in events(o.st.trace, "sps") if e.a[0].a[0] not in ("add", "add_batch", "remove")]
        R.check("P12", "reorder", "only the group that owns a storage reorders it", o, not bad, "; ".join("%s at %s" % (e.a[0].a[0], where(e.at)) for e in bad[:2]))
        if w is not None and w.root in o.st.mem:
            for n, pr in (("em", "P05"), ("comps", "P19"), ("res", "P20")):
                c = o.st.norm(M.proj(R.I, o.st, o.st.norm(o.st.mem[w.root]), w.step(n)))
                while c.op == "m_ins":
                    c = o.st.norm(c.a[0])
                R.check(pr, "world-kept", "the other entries of the world are kept", o, c is w.fld(n), "becomes %s" % show(c)[:200])
        if w is not None and not groups and w.root in o.st.mem:
            gs = o.st.norm(M.proj(R.I, o.st, o.st.norm(o.st.mem[w.root]), w.step("groups")))
            R.check("P12", "groups-kept", "only making a group changes the list of groups", o, gs is w.fld("groups"), "the groups become %s" % show(gs)[:200])


def broken_steps(R, outs):
    """The rules of single steps, for code that works under locks taken by its caller."""
    for p, rule, n in (("P01", "casts", "every cast is to the type registered"), ("P24", "unchecked", "every unchecked access is in bounds"),
                       ("P26", "moved-once", "a component is moved, not copied or forgotten")):
        R.check(p, rule, n, None, True)
        for o in outs:
            for q, what, stack in o.st.viol:
                if q == p:
                    R.sure(p, rule, n, o, "%s at %s" % (what, where(stack)))


def released(R, o, keep=(), prop="P04"):
    left = [g for g in o.st.held if g not in keep and g.op != "excl"]
    R.check(prop, "locks", "every lock is released or returned", o, not left, "still held: %s" % ", ".join(show(g) for g in left))


def shared(R, o, own=(), excl=()):
    """Only the locks in excl are taken exclusively, and no storage or resource but the ones in own is locked."""
    s = o.st
    acqs = events(s.trace, "acq")
    ups = [e for e in events(s.trace, "upgrade") if s.norm(e.a[0]) not in [s.norm(L) for L in excl]]
    excl = [s.norm(L) for L in excl]
    bad = [e for e in acqs if e.a[1].a[0] != "r" and s.norm(e.a[0]) not in excl]
    R.check("P28", "shared-only", "what is only read is locked in shared mode", o, not bad and not ups,
            "; ".join("%s is locked exclusively at %s" % (show(e.a[0]), where(e.at)) for e in (bad + ups)[:2]))
    if own is None:
        return
    own = [s.norm(L) for L in own]
    bad = [e for e in acqs if e.a[2].a[0] in ("storage", "resource") and s.norm(e.a[0]) not in own]
    R.check("P28", "own-locks", "no storage or resource of another type is locked", o, not bad,
            "; ".join("%s is locked at %s" % (show(e.a[0]), where(e.at)) for e in bad[:2]))


def no_change(R, o, what, prop="P25"):
    ch = [e for e in events(o.st.trace, *CHANGE, "grp") if is_change(e)]
    R.check(prop, "panic-first", what, o, not ch, "%s happens before the panic '%s' (%s)" % (
        ", ".join("%s %s" % (e.k, e.a[0].a[0] if e.a[0].op == "str" else "") for e in ch[:3]), o.msg, where(o.st.stack)))


def grp_event(w, L, op, x):
    """Predicate: the trace does op(x) on the group behind L, with its own storages."""
    def pred(el, trace, s):
        for e in events(trace, "grp"):
            if e.a[0].a[0] == op and group_lock(e) is not None and s.norm(group_lock(e)) is s.norm(el) and same(s, e.a[2], x):
                return True
        return False
    return pred


def same(s, a, b):
    a, b = s.norm(a), s.norm(b)
    return a is b or s.decide(eq(a, b)) is True


def storages_of_group(w, e, s):
    """Do the storage arguments of a group event belong to the group?"""
    L = group_lock(e)
    if L is None:
        return False
    d = e.a[1]
    v = d.a[1].a[0] if len(d.a) > 1 and d.a[1].op == "f" else None
    if v is None:
        return False
    for i, loc in enumerate(e.a[3:5]):
        b = box_lock(loc)
        if b is None or s.norm(b) is not s.norm(w.sto(mk("gtyp", L, v, i))):
            return False
    return True


def first_pos(trace, pred):
    for e, l in flat(trace):
        if pred(e):
            return l[0]
    return None


def last_pos(trace, pred):
    r = None
    for e, l in flat(trace):
        if pred(e):
            r = l[0]
    return r


def remove_entity(prog, rep, f, given=None):
    fn = f["path"]
    if given:
        I, st, w, args, x = given
    else:
        I, st, w = start(prog, f)
        if not w.ok:
            rep.add("*", "anchor", fn, "world fields", "undecided", "not recognised")
            return
        x = sym("e")
        st.assume(ge0(sub(x, ONE)))
        args = [w.ref(), x]
    outs = run(rep, I, f, args, st)
    if outs is None:
        return
    R = Rules(rep, fn)
    R.I = I
    violations(R, outs, w)
    em = w.em()
    rets = 0
    for o in outs:
        s, tr = o.st, o.st.trace
        hs = [e.a[0] for e in [*s.facts.tru] if False]
        alive = None
        for k, v in s.facts.tru.items():
            if k.op == "emhas" and same(s, k.a[1], x) and k.a[0].op == "locked" and s.norm(k.a[0].a[0]) is s.norm(em):
                alive = v
        if o.kind == "panic":
            for pr in ("P25", "P09"):
                no_change(R, o, "a refused removal changes nothing", pr)
            R.check("P25", "no-panic", "removing an existing entity does not panic", o, alive is False, "panic '%s' at %s" % (o.msg, where(s.stack)))
            continue
        rets += 1
        R.check("P09", "remove-known", "removing an id that does not exist is refused", o, alive is True, "returns without having checked that the id exists")
        released(R, o)
        # allowed effects
        for e in events(tr, *CHANGE, "grp"):
            if not is_change(e):
                continue
            ok = False
            if e.k == "sps":
                ok = e.a[0].a[0] == "remove" and box_lock(e.a[1]) is not None and e.a[2] is x
            elif e.k == "em":
                ok = e.a[0].a[0] == "remove" and e.a[2] is x
            elif e.k == "grp":
                ok = e.a[0].a[0] == "remove" and e.a[2] is x
            R.check("P09", "remove-only", "nothing but this entity's own data is changed", o, ok, "%s(%s) at %s" % (e.k, ", ".join(show(y) for y in e.a), where(e.at)))
        for e in events(tr, "grp"):
            R.check("P10", "group-storages", "a group is given its own storages in its own order", o, storages_of_group(w, e, s),
                    "%s at %s" % (show(e.a[1]), where(e.at)))
        # the id table
        ems = [e for e in events(tr, "em")]
        R.check("P05", "remove-id", "the id is taken out of the id table exactly once", o,
                len(ems) == 1 and ems[0] in tr and ems[0].a[0].a[0] == "remove" and same(s, ems[0].a[2], x), "%d changes of the id table" % len(ems))
        acq = next((i for i, e in enumerate(tr) if e.k == "acq" and e.a[0] is em and e.a[1].a[0] == "w"), None)
        relp = next((i for i, e in enumerate(tr) if acq is not None and i > acq and e.k in ("rel", "downgrade") and s.norm(e.a[0]) is em), len(tr))
        chs = [l[0] for e, l in flat(tr) if is_change(e)]
        other = [l[0] for e, l in flat(tr) if e.k == "acq" and e.a[0] is not em]
        for pr in ("P09", "P23"):
            R.check(pr, "remove-lock", "the id table is locked exclusively from before the first to after the last change", o,
                    acq is not None and all(acq < c < relp for c in chs) and all(acq < c for c in other),
                    "others could attach components to the entity or create entities meanwhile")
        # groups

        def in_no(el, s2):
            for v in w.gvariants():
                pass
            for k, val in s2.facts.tru.items():
                if k.op == "ingroup" and val is False and k.a[1] is x and k.a[0].op == "ref" and k.a[0].a[0].op == "inner" and s2.norm(k.a[0].a[0].a[0]) is s2.norm(el):
                    return True
            return False

        r = cover(I, s, tr, w.groups(), grp_event(w, None, "remove", x), in_no)
        R.check("P09", "remove-groups", "the entity leaves every group it is a member of", o, r is None, str(r))
        R.check("P10", "remove-groups", "the entity leaves every group it is a member of", o, r is None, str(r))

        # storages
        def sp_rm(el, trace, s2):
            return any(e.a[0].a[0] == "remove" and box_lock(e.a[1]) is not None and s2.norm(box_lock(e.a[1])) is s2.norm(el) and e.a[2] is x for e in events(trace, "sps"))

        def no_has(el, s2):
            for k, val in s2.facts.tru.items():
                if k.op == "sphas" and val is False and k.a[1] is x and k.a[0].op == "locked" and s2.norm(k.a[0].a[0]) is s2.norm(el):
                    return True
            return False

        r = cover(I, s, tr, w.storages(), sp_rm, no_has)
        R.check("P09", "remove-storages", "no storage keeps a component of the entity", o, r is None, str(r))
        # order
        R.check("P09", "remove-order", "groups are updated before the storages they look the entity up in change", o, order_ok(w, s, tr, x), "")
        R.check("P10", "remove-atomic", "updated groups stay locked until the storages are updated", o, group_locks_held(w, I, s, tr), "")
    R.check("P09", "remove-known", "an existing entity can be removed", None, rets > 0, "no path returns")
    R.done()


def order_ok(w, s, tr, x):
    """Every first group update comes before the storage updates."""
    if any(e.k == "loop" for e in tr):
        g = last_pos(tr, lambda e: e.k == "grp" and e.a[0].a[0] == "remove")
        p = first_pos(tr, lambda e: e.k == "sps")
        return g is None or p is None or g < p
    done = set()
    changed = False
    for e in tr:
        if e.k == "grp" and e.a[0].a[0] == "remove":
            L = s.norm(group_lock(e)) if group_lock(e) is not None else None
            if changed and L not in done:
                return False
            done.add(L)
        elif e.k == "sps":
            changed = True
    return True


def group_locks_held(w, I, s, tr):
    """No exclusive group lock is given back between its update and the last storage update."""
    g = first_pos(tr, lambda e: e.k == "grp" and e.a[0].a[0] in ("remove", "add"))
    p = last_pos(tr, lambda e: e.k == "sps")
    if g is None or p is None:
        return True
    gl = {group_lock(e) for e, _ in flat(tr) if e.k == "grp" and e.a[0].a[0] in ("remove", "add")}
    for i, e in enumerate(tr):
        if not g <= i <= p:
            continue
        sub_ = [e] if e.k != "loop" else [y for y, _ in flat([e])]
        for y in sub_:
            if y.k == "rel" and y.a[1].a[0] == "w" and I.lockcls.get(y.a[0]) == "group":
                return False
            if y.k == "rel" and y.a[1].a[0] == "w" and M.lockclass(I, y.a[0]) == "group":
                return False
            if y.k == "relset" and any(q.op == "gset" for q in ()):
                return False
        if e.k == "relset":
            for j in range(i):
                l = tr[j]
                if l.k == "loop" and l.info.id == e.a[0].a[0]:
                    for b in l.info.backs:
                        if any(y.k == "acq" and y.a[1].a[0] == "w" and y.a[2].a[0] == "group" for y in b.trace):
                            return False
    return True


OPS = {"remove_entity": remove_entity}


def check(prog, rep, only=None):
    ms = {f["name"]: f for f in prog.roots if prog.self_adt(f) == "World" and f.get("impl_trait") is None}
    for n, fn in OPS.items():
        if only and n not in only:
            continue
        if n not in ms:
            rep.add("*", "anchor", "World::" + n, "method present", "undecided", "the method is missing")
            continue
        fn(prog, rep, ms[n])
