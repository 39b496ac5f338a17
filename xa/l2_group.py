"""Level 2: making and finding groups (P12)."""
from .l2_basic import *


def typ(s, I, g, v, n):
    """Type number n of group value g when it is variant v."""
    ps = I.type_paths(v)
    g = s.norm(g)
    if g.op == "st":
        d = s.norm(M.proj(I, s, g, fstep(v, 0)))
    elif g.op == "adt":
        d = g.a[2] if g.a[1] == v else None
        if d is None:
            return None
        d = s.norm(d)
    else:
        d = mk("fld", g, v, 0)
    for i in ps[n]:
        d = s.norm(M.proj(I, s, d, fstep(0, i)))
    return d


def owned_of(I, v):
    name = I.group_data().get(v, "")
    return (0, 1) if name.startswith("Full") else (0,) if name.startswith("Partial") else ()


def variants(I):
    return sorted(I.group_fields())


def dup(s, I, L, g):
    n = len(variants(I))
    kind = mk("gkind", L)
    return disj([conj([isvar(kind, v, n), isvar(s.norm(g), v, n), eq(mk("gtyp", L, v, 0), typ(s, I, g, v, 0)), eq(mk("gtyp", L, v, 1), typ(s, I, g, v, 1))])
                 for v in variants(I) if typ(s, I, g, v, 0) is not None])


def shares(s, I, L, g):
    n = len(variants(I))
    kind = mk("gkind", L)
    out = []
    for v in variants(I):
        for u in variants(I):
            if typ(s, I, g, u, 0) is None:
                continue
            for a in owned_of(I, v):
                for b in owned_of(I, u):
                    out.append(conj([isvar(kind, v, n), isvar(s.norm(g), u, n), eq(mk("gtyp", L, v, a), typ(s, I, g, u, b))]))
    return disj(out)


def bad_pair(s, I, w, g):
    """The group is over one component twice or over an unregistered one."""
    n = len(variants(I))
    out = []
    for v in variants(I):
        a, b = typ(s, I, g, v, 0), typ(s, I, g, v, 1)
        if a is None:
            continue
        c = w.fld("comps")
        out.append(conj([isvar(s.norm(g), v, n), disj([eq(a, b), neg(mk("mapin", c, a)), neg(mk("mapin", c, b))])]))
    return disj(out)


def never(I, s, c, depth=6):
    """Is c false on every case of the path?"""
    c = s.norm(c)
    if known(s, c) is False:
        return True
    # split a disjunction / the kinds of the groups
    if c.op == "or":
        return all(never(I, s, x, depth) for x in c.a)
    t = s.clone()
    if not t.assume(c):
        return True
    return refuted(t)


def conflicting(I, s, w, g, made=None):
    """Does the path know a reason to refuse the group?"""
    t = s.clone()
    c = bad_pair(t, I, w, g)
    if cases(I, t, c):
        return True
    L = set()
    for k in list(s.facts.tru) + [x for x in s.facts.var]:
        for x in subterms(k):
            if x.op in ("gkind", "gtyp"):
                L.add(x.a[0])
    for a, b in list(s.facts.ne) + list(s.facts.sub.items()):
        for x in list(subterms(a)) + list(subterms(b)):
            if x.op in ("gkind", "gtyp"):
                L.add(x.a[0])
    for x in L:
        t = s.clone()
        if cases(I, t, disj([dup(t, I, x, g), shares(t, I, x, g)])):
            return True
    return False


def make_group(prog, rep):
    f = want(prog, rep, "World", "make_group")
    if f is None:
        return
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    I, w, R = p.I, p.w, p.R
    G = sym("G")
    outs = p.run([w.ref(), G])
    if outs is None:
        return
    g = mk("intogroup", G)
    rets = 0
    for o in outs:
        s, tr = o.st, o.st.trace
        now = s.norm(s.mem[w.root])
        gs0 = w.fld("groups")
        gs = s.norm(M.proj(I, s, now, w.step("groups")))
        if o.kind == "panic":
            why = conflicting(I, s, w, g)
            nopanic(R, o, "a valid group can be made", why, ("P12", "P25"))
            no_change(R, o, "refusing a group changes nothing")
            no_change(R, o, "refusing a group changes nothing", "P12")
            for pr in ("P12", "P25"):
                R.check(pr, "refused-world", "refusing a group leaves the world as it was", o, now is w.val, "the world becomes %s" % show(now)[:300])
            continue
        rets += 1
        released(R, o)
        R.check("P12", "pair-known", "a group of a component with itself or of an unregistered component is refused", o, never(I, s, bad_pair(s, I, w, g)), "")
        R.check("P25", "pair-known", "a group of a component with itself or of an unregistered component is refused", o, never(I, s, bad_pair(s, I, w, g)), "")
        for rule, cond, what in (("no-duplicate", dup, "a group that exists already is refused"), ("one-owner", shares, "a group owning a component another group owns is refused")):
            old = Dom(lambda s2: M.slen(s2, gs0), lambda s2, i: s2.norm(w.grp(i)), "existing group")

            def noconf(el, s2, cond=cond):
                if not I.unroll:
                    return never(I, s2, cond(s2, I, s2.norm(el), g))
                # the checks made elsewhere on the path count too
                return never(I, s2, cond(s2, I, s2.norm(el), g))
            r = cover(I, s, tr, old, lambda el, t2, s2: False, noconf)
            R.check("P12", rule, what, o, r is None, str(r))
        # what is added
        while gs.op == "s_store" and s.norm(gs.a[0]).op == "s_push" and same(s, gs.a[1], M.slen(s, gs0)):
            gs = mk("s_push", s.norm(gs.a[0]).a[0], gs.a[2])
        ok = gs.op == "s_push" and s.norm(gs.a[0]) is gs0
        val = s.norm(gs.a[1]) if ok else None
        while ok and val.op == "lock":
            val = s.norm(val.a[0])
        R.check("P12", "made-once", "exactly this group is added", o, ok and same_group(s, I, val, g), "the groups are %s" % show(gs)[:300])
        R.check("P10", "made-once", "exactly this group is added", o, ok and same_group(s, I, val, g), "the groups are %s" % show(gs)[:300])
        n = M.slen(s, gs0)
        L = s.norm(w.grp(n))
        mk_ = [e for e in events(tr, "grp")]
        good = len(mk_) == 1 and mk_[0] in tr and mk_[0].a[0].a[0] == "make" and (
            s.norm(group_lock(mk_[0])) is L if group_lock(mk_[0]) is not None else made_value(s, I, val) is mk_[0].a[-1])
        det = "; ".join("%s %s" % (e.a[0].a[0], show(e.a[1])) for e in mk_)
        for pr in ("P12", "P10", "P13"):
            R.check(pr, "made-filled", "the new group is built once from the existing components", o, good, det or "never built")
        if good:
            e = mk_[0]
            v = next((v for v, x in I.group_data().items() if x == e.info), None)
            st_ok = v is not None and typ(s, I, g, v, 0) is not None and all(
                box_lock(loc) is not None and s.norm(box_lock(loc)) is s.norm(w.sto(typ(s, I, g, v, i))) for i, loc in enumerate(e.a[3:5]))
            R.check("P10", "group-storages", "a group is given its own storages in its own order", o, st_ok, "%s with %s" % (show(e.a[1]), ", ".join(show(x) for x in e.a[3:5])))
            R.check("P01", "group-storages", "a group is given its own storages in its own order", o, st_ok, "%s with %s" % (show(e.a[1]), ", ".join(show(x) for x in e.a[3:5])))
        for e in events(tr, *CHANGE):
            R.check("P12", "make-only", "making a group changes nothing else", o, e.k == "push" or not is_change(e), "%s(%s) at %s" % (e.k, ", ".join(show(y) for y in e.a)[:200], where(e.at)))
        for k in ("em", "comps", "res"):
            R.check("P12", "make-only", "making a group changes nothing else", o, s.norm(M.proj(I, s, now, w.step(k))) is w.fld(k), "the %s become %s" % (k, show(s.norm(M.proj(I, s, now, w.step(k))))[:200]))
    R.check("P12", "no-panic", "a valid group can be made", None, rets > 0, "no path returns")
    R.done()


def same_group(s, I, v, g):
    v, g = s.norm(v), s.norm(g)
    if v is g:
        return True
    k, d = data_of(s, I, v)
    if k is None or s.facts.var.get(g) != k:
        return False
    if d is s.norm(mk("fld", g, k, 0)):
        return True
    # built before it was added
    return made_value(s, I, v) is not None and all(s.norm(typ(s, I, v, k, n)) is s.norm(typ(s, I, g, k, n)) for n in (0, 1))


def data_of(s, I, v):
    """(variant, data) of a group value."""
    v = s.norm(v)
    if v.op == "adt":
        return v.a[1], s.norm(v.a[2])
    b = v
    while b.op == "st":
        b = s.norm(b.a[0])
    k = b.a[1] if b.op == "adt" else s.facts.var.get(b)
    return (None, None) if k is None else (k, s.norm(M.proj(I, s, v, fstep(k, 0))))


def made_value(s, I, v):
    """The building of a group that value v is the result of."""
    k, d = data_of(s, I, v)
    if k is None or d.op != "adt":
        return None
    parts = {s.norm(x).a[0] if s.norm(x).op == "gpart" and s.norm(x).a[1] == i else None
             for i, x in enumerate(d.a[2:]) if i not in I.group_types(k)}
    return parts.pop() if len(parts) == 1 else None


def find(prog, rep):
    """has_group: true exactly if an equal group exists; group: a guard on it."""
    for name in ("has_group", "group"):
        f = methods(prog, "World").get(name)
        if f is None:
            continue  # crate-internal helpers: their users are analysed with whatever replaces them
        p = Op(prog, rep, f, 0)
        if not p.ok:
            continue
        I, w, R = p.I, p.w, p.R
        G = sym("G")
        outs = p.run([w.ref(), G])
        if outs is None:
            continue
        g = mk("intogroup", G)
        for o in outs:
            s, tr = o.st, o.st.trace
            nochange(R, o, "P12", "find-only", "looking for a group changes nothing")
            none = cover(I, s, tr, w.groups(), lambda el, t2, s2: False, lambda el, s2: never(I, s2, dup(s2, I, s2.norm(el), g))) is None
            if o.kind == "panic":
                nopanic(R, o, "an existing group is found", name == "group" and none, ("P12", "P13"))
                continue
            v = s.norm(o.val)
            if name == "has_group":
                released(R, o)
                if v is TRUE:
                    R.check("P12", "find", "a group is reported exactly if it exists", o, some_dup(I, s, g), "reports a group that may not exist")
                elif v is FALSE:
                    R.check("P12", "find", "a group is reported exactly if it exists", o, none, "overlooks an existing group")
                else:
                    R.check("P12", "find", "a group is reported exactly if it exists", o, False, "answers %s" % show(v)[:200])
            else:
                covered(R, I, o)
                ok = v.op == "guard" and cases(I, s, dup(s, I, s.norm(v.a[0]), g))
                R.check("P13", "find", "the guard locks the group asked for", o, ok, "returns %s" % show(v)[:200])
                R.check("P01", "find", "the guard locks the group asked for", o, ok, "returns %s" % show(v)[:200])
                released(R, o, (v,))
        R.done()


def some_dup(I, s, g):
    L = set()
    for k in list(s.facts.tru) + list(s.facts.var) + [x for p in list(s.facts.ne) + list(s.facts.sub.items()) for x in p]:
        for x in subterms(k):
            if x.op in ("gkind", "gtyp"):
                L.add(s.norm(x.a[0]))
    return any(cases(I, s.clone(), dup(s, I, x, g)) for x in L)


def into_group(prog, rep):
    """A fresh group value: its two types in order, no member."""
    n = 0
    for f in prog.roots:
        t = (f.get("impl_trait") or "").split("::")[-1].split("<")[0]
        if not (t == "Into" and prog.canon(f["locals"][0]).split("::")[-1] == "Group" or t == "From" and prog.self_adt(f) == "Group"):
            continue
        kind = prog.canon(f["locals"][1]).split("<")[0].split("::")[-1]
        p = Op(prog, rep, f, 0)
        I, R = p.I, p.R
        outs = p.run([mk("fnarg", sym("marker"))])
        if outs is None:
            continue
        a, b = [prog.canon(x) for x in f["args"] if isinstance(x, int)][:2]
        n += 1
        for o in outs:
            s = o.st
            if o.kind == "panic":
                nopanic(R, o, "never panics", False, ("P12",))
                continue
            v = s.norm(o.val)
            ok = v.op == "adt" and I.group_data().get(v.a[1], "").startswith(kind)
            for pr in ("P12", "P13", "P01"):
                R.check(pr, "marker", "a marker stands for the group of its kind over its two types in order", o,
                        ok and typ(s, I, v, v.a[1], 0) is mk("typeid", a) and typ(s, I, v, v.a[1], 1) is mk("typeid", b), "gives %s" % show(v)[:300])
            R.check("P12", "marker-empty", "a new group has no member", o, ok and empty_group(s, I, v), "gives %s" % show(v)[:300])
            R.check("P11", "marker-empty", "a new group has no member", o, ok and empty_group(s, I, v), "gives %s" % show(v)[:300])
        R.done()
    if n < 3:
        rep.add("*", "anchor", "group markers", "three kinds of markers", "undecided", "only %d conversions found" % n)


def empty_group(s, I, v):
    d = s.norm(v.a[2])
    if d.op != "adt":
        return False
    ps = I.group_types(v.a[1])
    for i, x in enumerate(d.a[2:]):
        if i in ps:
            continue
        x = s.norm(x)
        if x is ZERO or x.op in ("sp_empty", "s_empty") or M.is_seq(x) and s.decide(eqi(M.slen(s, x), ZERO)) is True:
            continue
        if x.op == "adt" and all(M.is_seq(s.norm(y)) and s.decide(eqi(M.slen(s, s.norm(y)), ZERO)) is True for y in x.a[2:]):
            continue
        return False
    return True


def check(prog, rep, only=None):
    for n, fn in (("make", make_group), ("find", find), ("marker", into_group)):
        if not only or n in only:
            fn(prog, rep)
