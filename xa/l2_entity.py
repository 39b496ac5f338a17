"""Level 2: attaching and detaching through handles and through the world."""
from .l2_world import *


def type_param(prog, f, n=0):
    a = [prog.canon(x) for x in f["args"] if isinstance(x, int)]
    return a[n] if len(a) > n else None


def held_at(w, I, s, tr, adds):
    """Groups that get the entity are locked before the storage changes and not
    given back before they are updated.

    adds: predicate for the event that updates the storage."""
    p = first_pos(tr, adds)
    if p is None:
        return None
    lastp = last_pos(tr, adds)

    def isw(e):
        return e.k == "acq" and e.a[1].a[0] == "w" and e.a[2].a[0] == "group"

    seen = {}
    for i, e in enumerate(tr):
        items = [e] if e.k != "loop" else None
        if items is None:
            for b in e.info.backs:
                loc = {}
                for x, _ in flat(b.trace):
                    if isw(x):
                        if i >= p:
                            return "a group is locked only after the storage was changed"
                        loc[x.a[0]] = True
                    elif x.k == "grp" and x.a[0].a[0] == "add" and group_lock(x) is not None:
                        if i < p or (i == p and False):
                            return "a group is updated before the storage has the component"
                        loc[("done", b.norm(group_lock(x)))] = True
                    elif x.k == "rel" and x.a[1].a[0] == "w" and M.lockclass(I, x.a[0]) == "group":
                        if i >= p and not loc.get(("done", x.a[0])) and not loc.get(("done", b.norm(x.a[0]))):
                            return "a group is unlocked before it is updated"
                        if i < p:
                            loc.pop(x.a[0], None)
                            seen[("lost", i)] = x
            continue
        if isw(e):
            if i > p:
                seen[e.a[0]] = "late"
            else:
                seen[e.a[0]] = "held"
        elif e.k == "rel" and e.a[1].a[0] == "w" and M.lockclass(I, e.a[0]) == "group":
            if seen.get(e.a[0]) != "done":
                seen[e.a[0]] = "lost"
        elif e.k == "relset":
            for j in range(i):
                l = tr[j]
                if l.k == "loop" and l.info.id == e.a[0].a[0] and any(isw(y) for b in l.info.backs for y in b.trace):
                    g = last_pos(tr, lambda y: y.k == "grp" and y.a[0].a[0] == "add")
                    if g is not None and i < g:
                        return "the groups are unlocked before they are updated"
        elif e.k == "grp" and e.a[0].a[0] == "add" and group_lock(e) is not None:
            L = group_lock(e)
            if i < lastp:
                return "a group is updated before the storage has the component"
            if I.unroll and seen.get(L, seen.get(s.norm(L))) in ("late", "lost"):
                return "a group is unlocked while only the storage is changed"
            seen[L] = seen[s.norm(L)] = "done"
    for k in list(seen):
        if isinstance(k, tuple) and k[0] == "lost":
            return "a group lock taken before the storage changes is given back again"
    return None


def arg_is(s, a, b):
    return s.norm(a) is s.norm(b)


def pairs_of(s, e, bump=None):
    """(ids, values) of a storage event: lengths and element functions."""
    op = e.a[0].a[0]
    if op == "add":
        return [(e.a[2], e.a[3])]
    return None


def attach(prog, rep, f, world=False):
    fn = f["path"]
    I, st, w = start(prog, f)
    T_ = type_param(prog, f)
    if not w.ok or T_ is None:
        rep.add("*", "anchor", fn, "handle", "undecided", "not recognised")
        return
    comp = sym("component")
    if world:
        x = sym("e")
        st.assume(ge0(sub(x, ONE)))
        args, parts = [w.ref(), x, comp], {}
    else:
        h = handle(prog, I, st, w, f["locals"][1])
        if h is None or "id" not in h[1]:
            rep.add("*", "anchor", fn, "handle", "undecided", "the handle is not recognised")
            return
        args, parts, x = [h[0], comp], h[1], h[1]["id"]
    outs = run(rep, I, f, args, st)
    if outs is None:
        return
    key = mk("typeid", T_)
    target = w.sto(key)
    R = Rules(rep, fn)
    R.I = I
    R.allgroups = True
    violations(R, outs, w)
    rets = 0
    for o in outs:
        s, tr = o.st, o.st.trace
        reg = known(s, mk("mapin", w.fld("comps"), key))
        alive = em_known(w, s, x) if world else True
        if o.kind == "panic":
            for pr in ("P25", "P08"):
                no_change(R, o, "a refused attach changes nothing", pr)
            R.check("P25", "no-panic", "attaching to an existing entity does not panic", o, reg is False or alive is False, "panic '%s' at %s" % (o.msg, where(s.stack)))
            continue
        rets += 1
        R.check("P25", "attach-known", "attaching an unregistered component is refused", o, reg is True, "returns although the component may be unregistered")
        R.check("P19", "attach-known", "attaching an unregistered component is refused", o, reg is True, "returns although the component may be unregistered")
        if world:
            R.check("P25", "attach-alive", "attaching to an entity that does not exist is refused", o, alive is True, "returns without having checked the id")
            released(R, o)
            R.check("P23", "attach-lock", "the id table stays locked while the component is attached", o, em_held(w, s, tr), "")
        else:
            g = parts["guard"]
            released(R, o, (g,))
            R.check("P23", "handle", "the handle is handed back with its lock", o, same(s, o.val, parts["val"]) and g in s.held, "returns %s" % show(s.norm(o.val)))
        adds = [e for e in events(tr, "sps") if e.a[0].a[0] == "add" and box_lock(e.a[1]) is not None and same(s, box_lock(e.a[1]), target)]
        R.check("P26", "attach-value", "the component is stored once, for this entity", o,
                len(adds) == 1 and adds[0] in tr and same(s, adds[0].a[2], x) and arg_is(s, adds[0].a[3], comp), "%d stores of the component" % len(adds))
        R.check("P01", "attach-storage", "the component goes to the storage of its own type", o, len(adds) == 1, "%d stores in the storage of %s" % (len(adds), T_))
        R.check("P08", "attach-storage", "the component goes to the storage of its own type", o, len(adds) == 1, "%d stores in the storage of %s" % (len(adds), T_))
        for e in events(tr, *CHANGE, "grp"):
            if not is_change(e):
                continue
            ok = e in adds or e.k == "grp" and e.a[0].a[0] == "add" and same(s, e.a[2], x)
            R.check("P08", "attach-only", "nothing else is changed", o, ok, "%s(%s) at %s" % (e.k, ", ".join(show(y) for y in e.a), where(e.at)))
        group_rules(R, w, I, o, x, key, lambda e: e in adds)
    R.check("P25", "attach-known", "a component can be attached", None, rets > 0, "no path returns")
    R.done()


def unchanged(s, tr, x, target, val):
    """The storage of the component already was (val: with, without) what the
    operation makes it, seen under the only lock the operation takes on it."""
    if sum(e.k == "acq" and s.norm(e.a[0]) is s.norm(target) for e, _ in flat(tr)) != 1:
        return False
    return any(k.op == "sphas" and v is val and same(s, k.a[1], x) and k.a[0].op == "locked" and mentions(s, k.a[0], target)
               for k, v in s.facts.tru.items())


def group_rules(R, w, I, o, x, key, isadd, kind="attach"):
    s, tr = o.st, o.st.trace
    for e in events(tr, "grp"):
        R.check("P10", "group-storages", "a group is given its own storages in its own order", o, storages_of_group(w, e, s), "%s at %s" % (show(e.a[1]), where(e.at)))
    if isinstance(x, Dom):
        def pred(el, trace, s2):
            return cover(I, s2, trace, Dom(x.length, lambda s3, i: (el, x.elem(s3, i)), "entity"),
                         lambda p, t3, s3: any(e.a[0].a[0] == "add" and group_lock(e) is not None and s3.norm(group_lock(e)) is s3.norm(p[0]) and same(s3, e.a[2], p[1])
                                               for e in events(t3, "grp")), lambda p, s3: False) is None
    else:
        pred = grp_event(w, None, "add" if kind == "attach" else "remove", x)
    r = None
    if isinstance(x, Dom) or not unchanged(s, tr, x, w.sto(key), kind == "attach"):
        r = cover(I, s, tr, w.groups(), pred, lambda el, s2: known(s2, w.over(s2, s2.norm(el), key)) is False)
    what = "every group over the component learns of the %s" % kind
    R.check("P10", "%s-groups" % kind, what, o, r is None, str(r))
    if kind == "attach":
        r = held_at(w, I, s, tr, isadd)
        R.check("P10", "attach-atomic", "groups are locked before the storage changes until they are updated", o, r is None, str(r))
    else:
        g, p = last_pos(tr, lambda e: e.k == "grp" and e.a[0].a[0] == "remove"), first_pos(tr, isadd)
        R.check("P10", "detach-order", "groups are updated before the component leaves its storage", o, order_ok(w, s, tr, x), "")
        R.check("P10", "detach-atomic", "updated groups stay locked until the storage is updated", o, group_locks_held(w, I, s, tr), "")


def em_known(w, s, x):
    """What the path knows about the existence of x."""
    for k, v in s.facts.tru.items():
        if k.op == "emhas" and same(s, k.a[1], x) and k.a[0].op == "locked" and s.norm(k.a[0].a[0]) is s.norm(w.em()):
            return v
    return None


def em_held(w, s, tr):
    """The id table is locked from before the first to after the last change."""
    em = w.em()
    chs = [l[0] for e, l in flat(tr) if is_change(e)]
    held = False
    for i, e in enumerate(tr):
        if e.k == "acq" and s.norm(e.a[0]) is em:
            held = True
        elif e.k == "rel" and s.norm(e.a[0]) is em:
            held = False
            if any(c < i for c in chs) and any(c > i for c in chs):
                return False
        elif i in chs and not held:
            return False
    return True


def detach(prog, rep, f, world=False):
    fn = f["path"]
    I, st, w = start(prog, f)
    T_ = type_param(prog, f)
    if not w.ok or T_ is None:
        rep.add("*", "anchor", fn, "handle", "undecided", "not recognised")
        return
    parts = {}
    if world:
        x = sym("e")
        st.assume(ge0(sub(x, ONE)))
        args = [w.ref(), x]
    else:
        h = handle(prog, I, st, w, f["locals"][1])
        if h is None or "id" not in h[1]:
            rep.add("*", "anchor", fn, "handle", "undecided", "the handle is not recognised")
            return
        parts = h[1]
        r = mk("heap", sym("handle"))
        st.mem[r] = h[0]
        args, x = [ref(r)], parts["id"]
    outs = run(rep, I, f, args, st)
    if outs is None:
        return
    key = mk("typeid", T_)
    target = w.sto(key)
    R = Rules(rep, fn)
    R.I = I
    R.allgroups = True
    violations(R, outs, w)
    rets = 0
    for o in outs:
        s, tr = o.st, o.st.trace
        reg = known(s, mk("mapin", w.fld("comps"), key))
        alive = em_known(w, s, x) if world else True
        if o.kind == "panic":
            no_change(R, o, "a refused detach changes nothing")
            R.check("P25", "no-panic", "detaching from an existing entity does not panic", o, reg is False or alive is False, "panic '%s' at %s" % (o.msg, where(s.stack)))
            R.check("P07", "no-panic", "detaching from an existing entity does not panic", o, reg is False or alive is False, "panic '%s' at %s" % (o.msg, where(s.stack)))
            continue
        rets += 1
        R.check("P19", "detach-known", "detaching an unregistered component is refused", o, reg is True, "")
        if world:
            R.check("P25", "detach-alive", "detaching from an entity that does not exist is refused", o, alive is True, "returns without having checked the id")
            released(R, o)
            R.check("P23", "detach-lock", "the id table stays locked while the component is detached", o, em_held(w, s, tr), "")
        else:
            released(R, o, (parts["guard"],))
            R.check("P23", "handle", "the handle keeps its lock", o, parts["guard"] in s.held, "")
        rms = [e for e in events(tr, "sps") if box_lock(e.a[1]) is not None and same(s, box_lock(e.a[1]), target)]
        mine = [e for e in rms if e.a[0].a[0] == "remove" and same(s, e.a[2], x)]
        # the state of the storage at the removal decides the answer
        v = s.norm(o.val)
        had, val = None, None
        for k, tv in s.facts.tru.items():
            if k.op == "sphas" and same(s, k.a[1], x) and mentions(s, k.a[0], target) and (mine or tv is False):
                had = tv
                val = k.a[0]
        absent = had is False  # found out at any moment of the operation
        R.check("P08", "detach-storage", "the component leaves the storage of its own type", o, len(mine) >= 1 and mine[0] in tr or absent, "%d removals" % len(mine))
        R.check("P01", "detach-storage", "the component leaves the storage of its own type", o, len(mine) >= 1 and mine[0] in tr or absent, "%d removals" % len(mine))
        if mine:
            ok = v.op == "adt" and (v.a[1] == 0) == (had is False)
            if ok and v.a[1] == 1:
                # the value found at the id's own position
                y = v.a[2]
                ok = y.op == "get" and y.a[0].op == "fld" and y.a[0].a[1:] == (0, M.SP["dat"]) and y.a[1].op == "posv" and same(s, y.a[1].a[1], x) and mentions(s, y, target)
            R.check("P26", "detach-value", "detaching hands back the stored component", o, ok, "returns %s" % show(v)[:300])
            R.check("P08", "detach-value", "detaching hands back the stored component", o, ok, "returns %s" % show(v)[:300])
        for e in events(tr, *CHANGE, "grp"):
            if not is_change(e):
                continue
            ok = e in mine or e.k == "grp" and e.a[0].a[0] == "remove" and same(s, e.a[2], x)
            R.check("P08", "detach-only", "nothing else is changed", o, ok, "%s(%s) at %s" % (e.k, ", ".join(show(y) for y in e.a), where(e.at)))
        if absent and not mine:
            continue
        group_rules(R, w, I, o, x, key, lambda e: e in mine, "detach")
    R.check("P25", "detach-known", "a component can be detached", None, rets > 0, "no path returns")
    R.done()


def mentions(s, t, L):
    L = s.norm(L)
    return any(x.op == "locked" and s.norm(x.a[0]) is L for x in subterms(s.norm(t)))


def attach_batch(prog, rep, f):
    fn = f["path"]
    I, st, w = start(prog, f)
    T_ = type_param(prog, f)
    h = handle(prog, I, st, w, f["locals"][1]) if w.ok else None
    if h is None or T_ is None or "lo" not in h[1]:
        rep.add("*", "anchor", fn, "handle", "undecided", "not recognised")
        return
    comp = sym("components")
    parts = h[1]
    lo, hi = parts["lo"], parts["hi"]
    vec = mk("intovec", comp)
    outs = run(rep, I, f, [h[0], comp], st)
    if outs is None:
        return
    key = mk("typeid", T_)
    target = w.sto(key)
    n = sub(hi, lo)
    R = Rules(rep, fn)
    R.I = I
    R.allgroups = True
    violations(R, outs, w)
    rets = 0
    ids = Dom(lambda s: s.norm(n), lambda s, i: s.norm(add(lo, i)), "entity of the batch")
    for o in outs:
        s, tr = o.st, o.st.trace
        reg = known(s, mk("mapin", w.fld("comps"), key))
        fits = known(s, eqi(M.slen(s, vec), n))
        if o.kind == "panic":
            for pr in ("P25", "P08"):
                no_change(R, o, "a refused batch attach changes nothing", pr)
            R.check("P25", "no-panic", "attaching a batch of the right length does not panic", o, reg is False or fits is False, "panic '%s' at %s" % (o.msg, where(s.stack)))
            continue
        rets += 1
        R.check("P25", "attach-known", "attaching an unregistered component is refused", o, reg is True, "")
        R.check("P19", "attach-known", "attaching an unregistered component is refused", o, reg is True, "")
        R.check("P25", "batch-length", "a batch of the wrong length is refused", o, fits is True, "returns although the lengths may differ")
        released(R, o, (parts["guard"],))
        R.check("P23", "handle", "the handle is handed back with its lock", o, same(s, o.val, parts["val"]) and parts["guard"] in s.held, "returns %s" % show(s.norm(o.val)))
        adds = [e for e in events(tr, "sps") if e.a[0].a[0] in ("add", "add_batch") and box_lock(e.a[1]) is not None and same(s, box_lock(e.a[1]), target)]

        def stored(p, trace, s2):
            for e in events(trace, "sps"):
                if box_lock(e.a[1]) is None or s2.norm(box_lock(e.a[1])) is not s2.norm(target):
                    continue
                if e.a[0].a[0] == "add" and same(s2, e.a[2], p[0]) and same(s2, e.a[3], p[1]):
                    return True
                if e.a[0].a[0] == "add_batch" and batch_has(I, s2, e, p, lo):
                    return True
            return False

        pairs = Dom(ids.length, lambda s2, i: (s2.norm(add(lo, i)), s2.norm(M.sget(I, s2, vec, i)), i), "pair of the batch")
        r = cover(I, s, tr, pairs, stored, lambda p, s2: False)
        R.check("P26", "batch-pairs", "the i-th component is stored for the i-th entity", o, r is None, str(r))
        R.check("P08", "batch-pairs", "the i-th component is stored for the i-th entity", o, r is None, str(r))
        for e in events(tr, *CHANGE, "grp"):
            if not is_change(e):
                continue
            ok = e in adds or e.k == "grp" and e.a[0].a[0] == "add"
            R.check("P08", "attach-only", "nothing else is changed", o, ok, "%s(%s) at %s" % (e.k, ", ".join(show(y) for y in e.a), where(e.at)))
        group_rules(R, w, I, o, ids, key, lambda e: e in adds)
    R.check("P25", "attach-known", "a batch can be attached", None, rets > 0, "no path returns")
    R.done()


def batch_has(I, s, e, p, lo):
    """Does an add_batch event contain the pair (id, value) at position i?"""
    ids, data, i = s.norm(e.a[2]), s.norm(e.a[3]), p[2]
    t = s.clone()
    try:
        if s.decide(lt(i, M.slen(t, ids))) is not True:
            return False
        return same(t, M.sget(I, t, ids, i), p[0]) and same(t, M.sget(I, t, data, i), p[1])
    except NeedSplit:
        return False


OPS = {("Entity", "attach"): attach, ("Entity", "detach"): detach, ("Entities", "attach"): attach_batch,
       ("World", "attach_component"): lambda p, r, f: attach(p, r, f, True), ("World", "detach_component"): lambda p, r, f: detach(p, r, f, True)}


def check(prog, rep, only=None):
    for (a, n), fn in OPS.items():
        if only and (a, n) not in only:
            continue
        fs = [f for f in prog.roots if prog.self_adt(f) == a and f["name"] == n and f.get("impl_trait") is None]
        if not fs:
            rep.add("*", "anchor", "%s::%s" % (a, n), "method present", "undecided", "the method is missing")
            continue
        fn(prog, rep, fs[0])
