"""Level 3: queries and their iterators.

A query result is run as an automaton: `next` is analysed once to find the
parts of its state that move, then every method is analysed from the state
reached after p steps, for a symbolic p."""
from .l2_group import *
from . import l1_group

ITERATOR = ("next", "size_hint")
QUERY = ("from_id", "next_with_id")
SHORTCUTS = ("nth", "count", "last")


# ------------------------------------------------------------------ what a query is
def classify(prog, f):
    """("one", mut) | ("group", kind, (mut, mut)) | ("tuple", [(part, excluded)]) | None"""
    t = prog.ty(f["impl_self"])
    if t["k"] == "ref" and prog.ty(t["to"])["k"] == "param":
        return ("one", [(prog.canon(t["to"]), t["mut"])])
    if t["k"] == "adt" and len(t["args"]) == 2:
        kind = l1_group.kind_of(t["path"].split("::")[-1])
        a = [prog.ty(x) for x in t["args"]]
        if kind and all(x["k"] == "ref" and prog.ty(x["to"])["k"] == "param" for x in a):
            return ("group", kind, [(prog.canon(x["to"]), x["mut"]) for x in a])
    if t["k"] == "tuple":
        out = []
        for x in t["args"]:
            y = prog.ty(x)
            if y["k"] == "param":
                out.append((y["name"], False))
            elif y["k"] == "adt" and y["path"].endswith("::Without") and len(y["args"]) == 1 and prog.ty(y["args"][0])["k"] == "param":
                out.append((prog.canon(y["args"][0]), True))
            else:
                return None
        return ("tuple", out)
    return None


def queries(prog):
    """[(root function, class)] of the crate's query implementations."""
    out = []
    for f in prog.roots:
        if f["name"] == "query" and (f.get("impl_trait") or "").split("::")[-1].split("<")[0] == "Queryable":
            out.append((f, classify(prog, f)))
    return out


def label(prog, f):
    return prog.canon(f["impl_self"]).split("::")[-1] if prog.ty(f["impl_self"])["k"] == "adt" else prog.canon(f["impl_self"])


def iter_methods(prog, path):
    out, other, exact = {}, [], False
    for f in prog.roots:
        if f.get("impl_self") is None or f.get("impl_trait") is None:
            continue
        t = prog.ty(f["impl_self"])
        if t["k"] != "adt" or t["path"] != path:
            continue
        tr = f["impl_trait"].split("::")[-1].split("<")[0]
        if tr in ("Iterator", "QueryIterator"):
            if f["name"] in ITERATOR + QUERY:
                out[f["name"]] = f
            else:
                other.append(f["name"])
    for im in prog.d["impls"]:
        if (im["trait"] or "").split(" as ")[-1].split("::")[-1].startswith("ExactSizeIterator") and im["self"].split("<")[0] == path:
            exact = True
    return out, other, exact


# ------------------------------------------------------------------------- the state
def places(I, a, b):
    """Places outside of frames that differ between two states."""
    out = {}
    I.diff(a, b, out)
    return [(r, e) for r, e in out if r.op != "loc"]


def at(I, s, l):
    return s.norm(I.get(s, l[0], l[1]))


class Walk:
    """A query result after p steps."""

    def __init__(self, I, st, root, cursor, n):
        self.I, self.root, self.n = I, root, n
        self.p = sym("=intp")
        self.base = {l: (at(I, st, l), d) for l, d in cursor.items()}
        s = st.clone()
        s.trace = ()
        s.assume(ge0(self.p))
        s.assume(le(self.p, s.norm(n)))
        for l, (z, d) in self.base.items():
            I.put(s, l[0], l[1], s.norm(add(z, scale(self.p, d))))
        self.st = s

    def value(self, l, p):
        z, d = self.base[l]
        return add(z, scale(p, d))


def moved(R, I, w, o, by, props, what):
    """After the call the state is the one `by` steps further, and nothing else changed."""
    s = o.st
    inside, outside = [], []
    for l in places(I, w.st, s):
        if l in w.base:
            continue
        (inside if s.norm(l[0]) is s.norm(w.root) else outside).append(l)
    for pr in props:
        R.check(pr, "iter-frame", "iterating and looking up change nothing but the position", o, not outside,
                "changes %s" % ", ".join("%s to %s" % (show(ref(l[0], *l[1])), show(at(I, s, l))[:100]) for l in outside[:3]))
    held = [g for g in w.st.held]
    for pr in ("P02",):
        R.check(pr, "iter-locks", "an iterator keeps its locks while it is used", o, list(s.held) == held, "held before: %s, after: %s" % (
            ", ".join(show(g) for g in held), ", ".join(show(g) for g in s.held)))
    good = [(eqi(at(I, s, l), w.value(l, add(w.p, num(by)))), l) for l in w.base]
    return inside, good


def same_ref(s, r, L, idx):
    """Condition: r is the reference to the datum at idx behind L."""
    r = s.norm(r)
    exp = s.norm(datref(s.norm(L), s.norm(idx)))
    if r is exp:
        return TRUE
    if r.op != "ref" or len(r.a) != len(exp.a) or any(x is not y for x, y in zip(r.a[:-1], exp.a[:-1])) or r.a[-1].op != "i":
        return FALSE
    return eqi(r.a[-1].a[0], exp.a[-1].a[0])


# ---------------------------------------------------------------------- base queries
class Base:
    """What one base query yields: items in terms of the locked contents."""

    def __init__(self, I, st, w, cl, gs, prog):
        self.I, self.cl = I, cl
        self.params = cl[-1]
        self.single = cl[0] == "one"
        self.err = None
        self.L = [st.norm(w.sto(mk("typeid", t))) for t, _ in self.params]
        self.content = [st.norm(st.mem[mk("boxof", L)]) if mk("boxof", L) in st.mem else None for L in self.L]
        if any(c is None for c in self.content):
            self.err = "a component storage is never locked"
            return
        if self.single:
            return
        kind = cl[1]
        gg = [g for g in gs if I.lockcls.get(g.a[0]) == "group" or g.a[0].op == "ref" and len(g.a[0].a) > 2 and g.a[0].a[1] is w.step("groups")]
        if len(gg) != 1:
            self.err = "the result does not keep exactly one group locked"
            return
        self.Lg = st.norm(gg[0].a[0])
        v = [x for x, n in I.group_data().items() if l1_group.kind_of(n) == kind]
        path = next((t["path"] for t in prog.types if t["k"] == "adt" and t["path"].split("::")[-1] == I.group_data()[v[0]]), None) if v else None
        lay = l1_group.layout(prog, path) if path else None
        if len(v) != 1 or lay is None:
            self.err = "group data not recognised"
            return
        self.v, self.kind = v[0], kind
        data = st.norm(I.get(st, mk("inner", self.Lg), (fstep(self.v, 0),)))
        self.view = l1_group.View(I, kind, lay, data, self.content[0], self.content[1])
        I.inst_always = True
        l1_group.assume_inv(I, st, self.view, kind)

    def right_group(self, I, s):
        ty = [mk("typeid", t) for t, _ in self.params]
        return conj([isvar(mk("gkind", self.Lg), self.v, len(variants(I))), eq(mk("gtyp", self.Lg, self.v, 0), ty[0]), eq(mk("gtyp", self.Lg, self.v, 1), ty[1])])

    def count(self, s):
        if self.single:
            return M.sps_len(self.I, s, self.content[0])
        if self.kind == "non":
            return M.sps_len(self.I, s, self.view.S(s))
        return self.view.L(s)

    def ident(self, s, p):
        if not self.single and self.kind == "non":
            return s.norm(M.sps_ent(self.I, s, self.view.S(s), p))
        return s.norm(M.sps_ent(self.I, s, self.content[0], p))

    def member(self, s, x):
        if self.single:
            return s.need(M.sps_has(self.I, s, self.content[0], x))
        if self.kind == "non":
            return self.view.val(s, ("has", "s"), x, {})
        return self.view.val(s, ("has", "a"), x, {}) and self.view.val(s, ("lt", "a", "L"), x, {"L": self.view.L(s)})

    def item(self, s, v, x):
        """Condition: v is the item of entity x."""
        v = s.norm(v)
        vs = [v] if self.single else list(v.a) if v.op == "tup" and len(v.a) == 2 else None
        if vs is None:
            return FALSE
        out = []
        for i, r in enumerate(vs):
            if not s.need(M.sps_has(self.I, s, self.content[i], x)):
                return FALSE
            out.append(same_ref(s, r, self.L[i], M.sps_idx(self.I, s, self.content[i], x)))
        return out


def result(prog, rep, f, p, R, prop, base):
    """Outcomes of a query: the returning ones, with the general rules checked."""
    outs = p.run([p.w.ref()])
    return outs


def base_query(prog, rep, f, cl):
    prop = "P14" if cl[0] == "one" else "P13"
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    I, w, R = p.I, p.w, p.R
    I.nz_ent = True
    outs = p.run([w.ref()])
    if outs is None:
        return
    comps = w.fld("comps")
    regs = [mk("mapin", comps, mk("typeid", t)) for t, _ in cl[-1]]
    rets = 0
    for o in outs:
        s, tr = o.st, o.st.trace
        nochange(R, o, prop, "query-only", "making a query changes nothing")
        if o.kind == "panic":
            why = any(known(s, c) is False for c in regs)
            if not why and cl[0] == "group":
                k = cl[1]
                v = [x for x, n in I.group_data().items() if l1_group.kind_of(n) == k]

                def absent(el, s2):
                    c = conj([isvar(mk("gkind", s2.norm(el)), v[0], len(variants(I))), eq(mk("gtyp", s2.norm(el), v[0], 0), mk("typeid", cl[2][0][0])), eq(mk("gtyp", s2.norm(el), v[0], 1), mk("typeid", cl[2][1][0]))])
                    return never(I, s2, c)
                same_ty = s.decide(eq(mk("typeid", cl[2][0][0]), mk("typeid", cl[2][1][0]))) is True
                why = same_ty or len(v) == 1 and cover(I, s, tr, w.groups(), lambda el, t2, s2: False, absent) is None
            nopanic(R, o, "a query of registered components and made groups works", why, (prop, "P25"))
            released(R, o, s.held)
            continue
        rets += 1
        R.check(prop, "query-known", "a query of unregistered components panics", o, all(known(s, c) is True for c in regs), "returns without every component registered")
        R.check("P19", "query-known", "a query of unregistered components panics", o, all(known(s, c) is True for c in regs), "returns without every component registered")
        gs, refs = covered(R, I, o)
        released(R, o, gs)
        shared(R, o, [w.sto(mk("typeid", t)) for t, _ in cl[-1]], [w.sto(mk("typeid", t)) for t, m in cl[-1] if m])
        R.check("P02", "iter-held", "a query result holds the locks it keeps", o, all(g in s.held for g in gs), "keeps %s, holds %s" % (", ".join(map(show, gs)), ", ".join(map(show, s.held))))
        b = Base(I, s, w, cl, gs, prog)
        if b.err:
            R.check(prop, "query-locks", "a query result keeps its group and storages locked", o, False, b.err)
            R.check("P02", "query-locks", "a query result keeps its group and storages locked", o, False, b.err)
            continue
        for pr in (prop, "P02"):
            R.check(pr, "query-locks", "a query result keeps its group and storages locked", o, True)
        for i, L in enumerate(b.L):
            md = [g.a[1] for g in gs if s.norm(g.a[0]) is L]
            R.check("P02", "query-mode", "a query result locks every component in the mode of its references", o, ("w" in md) if b.params[i][1] else bool(md),
                    "the storage of %s is kept with mode %s" % (b.params[i][0], md))
        if cl[0] == "group":
            ok = cases(I, s, b.right_group(I, s))
            for pr in (prop, "P01"):
                R.check(pr, "query-group", "a group query uses the group of its kind over its two components", o, ok, "uses %s" % show(b.Lg))
        walk(prog, rep, R, p, o, f, cl, b, prop)
    R.check(prop, "query-known", "registered components can be queried", None, rets > 0, "no path returns")
    R.done()


def value_of(s, v):
    """(place, value) of the iterator behind a boxed result."""
    v = s.norm(v)
    r, e = None, ()
    for _ in range(4):
        if v.op == "box":
            r = s.norm(v.a[0])
            v = s.norm(s.mem[r]) if r in s.mem else v
            if v.op == "box" and s.norm(v.a[0]) is r:
                break
        else:
            break
    return r, v


def und(rep, fn, what, detail, props=("*",)):
    for pr in props:
        rep.add(pr, "analysis", fn, what, "undecided", detail)


def runm(rep, R, I, m, args, st, w):
    outs = run(rep, I, m, args, st)
    if outs is not None:
        R2 = Rules(rep, m["path"])
        R2.I = I
        violations(R2, outs)
        for o in outs:
            nochange(R2, o, "P02", "iter-pure", "iterators and lookups change no table")
        return outs, R2
    return None, None


class Trial:
    """Obligations of one walk under one guess of the order."""

    def __init__(self):
        self.rep = Report()

    def bad(self):
        return sum(1 for x in self.rep.obl if x[4] == "violated"), sum(1 for x in self.rep.obl if x[4] != "ok")


def walk(prog, rep, R, p, o, f, cl, b, prop):
    I, s0 = p.I, o.st
    fn = f["path"]
    r, v = value_of(s0, o.val)
    if v.op != "adt":
        und(rep, fn, "query result", "not a struct: %s" % show(v)[:100])
        return
    ms, other, exact = iter_methods(prog, v.a[0])
    miss = [n for n in ("next",) + QUERY if n not in ms]
    if miss or r is None:
        und(rep, fn, "query result", "methods missing: %s" % ", ".join(miss))
        return
    for f2 in prog.roots:
        if f2["name"] in SHORTCUTS and f2["name"] in other and f2.get("impl_trait") and prog.ty(f2["impl_self"]).get("path") == v.a[0]:
            ms[f2["name"]] = f2
            other.remove(f2["name"])
    if other:
        und(rep, fn, "query result", "overridden iterator methods: %s" % ", ".join(sorted(other)), (prop, "P17"))
        by_steps(prog, rep, I, s0, r, v, (prop, "P17"))
    # which parts of the state move?
    st = s0.clone()
    st.trace = ()
    outs = run(rep, I, ms["next"], [ref(r)], st)
    if outs is None:
        return
    cursor = None
    for x in outs:
        if x.kind != "ret" or x.st.norm(x.val) is NONE:
            continue
        c = {}
        for l in places(I, s0, x.st):
            d = x.st.norm(sub(at(I, x.st, l), x.st.norm(at(I, s0, l)))) if is_int(at(I, s0, l)) and is_int(at(I, x.st, l)) else None
            if d is not None and d.op == "int":
                c[l] = d.a[0]
        if cursor is None:
            cursor = c
    if cursor is None:
        cursor = {}
    best = None
    for back in (False, True):
        t = Trial()
        methods_of(prog, t.rep, I, s0, r, v, ms, exact, cursor, b, cl, prop, back)
        if best is None or t.bad() < best.bad():
            best = t
        if t.bad()[0] == 0:
            break
    rep.obl.extend(best.rep.obl)
    rep.funcs |= best.rep.funcs
    rep.paths += best.rep.paths
    # giving the iterator back
    st = s0.clone()
    ty = ms["next"]["impl_self"]
    for x in M.drop(I, st, v, ty):
        R.check("P04", "iter-drop", "dropping a query result releases its locks", x, x.kind == "ret" and not x.st.held, "still held: %s" % ", ".join(show(g) for g in x.st.held))


def is_int(t):
    from .interp import is_num
    return is_num(t)


def methods_of(prog, rep, I, s0, r, v, ms, exact, cursor, b, cl, prop, back):
    s1 = s0.clone()
    n = b.count(s1)
    w = Walk(I, s1, r, cursor, n)
    p = w.p
    lab = label_of(cl)

    def pos(s):
        return sub(sub(b.count(s), ONE), p) if back else p

    for name in ("next", "next_with_id"):
        m = ms[name]
        outs, R = runm(rep, None, I, m, [ref(r)], w.st, w)
        if outs is None:
            continue
        kinds = set()
        for o in outs:
            s = o.st
            if o.kind == "panic":
                nopanic(R, o, "iterating does not panic", False, (prop, "P25", "P24"))
                continue
            val = s.norm(o.val)
            if val.op != "adt":
                und(rep, m["path"], "result", "returns %s" % show(val)[:100], (prop,))
                continue
            kinds.add(val.a[1])
            some_ = val.a[1] == 1
            prove(rep, I, s, prop, "yield-all", m["path"], "an item is yielded exactly while members are left",
                  lambda s: lt(p, b.count(s)) if some_ else neg(lt(p, b.count(s))))
            inside, good = moved(R, I, w, o, 1 if some_ else 0, (prop, "P17"), "next")
            for l in inside:
                und(rep, m["path"], "state", "the place %s has no simple course" % show(ref(l[0], *l[1])), (prop, "P17"))
            for pr in (prop, "P17"):
                prove(rep, I, s, pr, "one-step", m["path"], "the position moves by one with every item and by nothing at the end", lambda s: [c for c, _ in good] or (TRUE if not some_ else FALSE))
            if some_:
                def right(s):
                    if not s.need(lt(p, b.count(s))):
                        return TRUE
                    x = b.ident(s, s.norm(pos(s)))
                    it = val.a[2]
                    c = []
                    if name == "next_with_id":
                        it = s.norm(it)
                        if it.op != "tup" or len(it.a) != 2:
                            return FALSE
                        c = [eqi(s.norm(it.a[0]), x)]
                        it = it.a[1]
                    y = b.item(s, it, x)
                    return c + (y if isinstance(y, list) else [y])
                prove(rep, I, s, prop, "own-item", m["path"], "the item number p is made of the components of member number p", right)
                prove(rep, I, s, "P17", "own-item", m["path"], "plain and id-carrying iteration agree on item number p", right)
                item_lock(R, b, s, o, val.a[2], name == "next_with_id")
        R.check(prop, "yield-all", "both answers are possible", None, kinds == {0, 1}, str(kinds))
        R.done()
    # lookup
    m = ms["from_id"]
    x = sym("e")
    st = w.st.clone()
    st.assume(ge0(sub(x, ONE)))
    outs, R = runm(rep, None, I, m, [ref(r), x], st, w)
    kinds = set()
    for o in outs or []:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "looking up any id does not panic", False, (prop, "P25", "P07", "P24"))
            continue
        val = s.norm(o.val)
        if val.op != "adt":
            und(rep, m["path"], "result", "returns %s" % show(val)[:100], (prop,))
            continue
        kinds.add(val.a[1])

        def right(s):
            mem = b.member(s, x)
            if val.a[1] == 0:
                return bool_(not mem)
            if not mem:
                return FALSE
            return b.item(s, val.a[2], x)
        for pr in (prop, "P07"):
            prove(rep, I, s, pr, "lookup", m["path"], "lookup by id answers exactly for members, with their own components", right)
        inside, good = moved(R, I, w, o, 0, (prop, "P17"), "lookup")
        for l in inside:
            und(rep, m["path"], "state", "the place %s has no simple course" % show(ref(l[0], *l[1])), (prop, "P17"))
        if good:
            prove(rep, I, s, "P17", "lookup-still", m["path"], "lookup by id does not disturb the iteration", lambda s: [c for c, _ in good])
        if val.a[1] == 1:
            item_lock(R, b, s, o, val.a[2], False)
    if outs is not None:
        R.check(prop, "lookup", "both answers are possible", None, kinds == {0, 1}, str(kinds))
        R.done()
    for n_ in SHORTCUTS:
        if n_ in ms:
            shortcut(rep, I, w, r, ms[n_], n_, b, pos, prop)
    # reported length
    m = ms.get("size_hint")
    if m is None:
        if exact:
            rep.bad("P27", "length", v.a[0], "an exact iterator reports its length", "no size_hint: len() panics")
        return
    outs, R = runm(rep, None, I, m, [ref(r)], w.st, w)
    for o in outs or []:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "asking for the length does not panic", False, ("P27", "P25"))
            continue
        val = s.norm(o.val)

        def right(s):
            if val.op != "tup" or len(val.a) != 2:
                return FALSE
            lo, hi = s.norm(val.a[0]), s.norm(val.a[1])
            rest = sub(b.count(s), p)
            c = [eqi(lo, rest)] if exact else [le(lo, rest)]
            if hi.op != "adt":
                return FALSE
            if hi.a[1] == 1:
                c.append(eqi(s.norm(hi.a[2]), rest) if exact else le(rest, s.norm(hi.a[2])))
            elif exact:
                return FALSE
            return c
        prove(rep, I, s, "P27", "length", m["path"], "the reported length is the number of items left", right)
        inside, good = moved(R, I, w, o, 0, ("P27",), "length")
        if good:
            prove(rep, I, s, "P17", "lookup-still", m["path"], "asking for the length does not disturb the iteration", lambda s: [c for c, _ in good])
    if outs is not None:
        R.done()


def shortcut(rep, I, w, r, m, name, b, pos, prop):
    """A method that does many steps at once does what the steps would have done."""
    k = sym("=intk")
    st = w.st.clone()
    st.assume(ge0(k))
    outs, R = runm(rep, None, I, m, [ref(r), k] if name == "nth" else [st.norm(st.mem[r])], st, w)
    what = {"nth": "skipping ahead is the same as taking the items one by one", "last": "the last item is the one the steps would end with",
            "count": "counting the items counts the ones that are left"}[name]
    for o in outs or []:
        s, p = o.st, w.p
        if o.kind == "panic":
            nopanic(R, o, "iterating does not panic", False, (prop, "P25", "P17"))
            continue
        val = s.norm(o.val)
        if name == "count":
            for pr in (prop, "P17", "P27"):
                prove(rep, I, s, pr, "shortcut", m["path"], what, lambda s: eqi(val, sub(b.count(s), p)))
            continue
        if val.op != "adt":
            und(rep, m["path"], "result", "returns %s" % show(val)[:100], (prop, "P17"))
            continue
        some_ = val.a[1] == 1
        last = (lambda s: add(p, k)) if name == "nth" else (lambda s: sub(b.count(s), ONE))

        def right(s):
            inside = conj([lt(p, b.count(s)), lt(last(s), b.count(s))])
            if not some_:
                return neg(inside)
            if not s.need(inside):
                return FALSE
            x = b.ident(s, s.norm(last(s) if pos(s) is p else sub(sub(b.count(s), ONE), last(s))))
            y = b.item(s, val.a[2], x)
            return y if isinstance(y, list) else [y]
        for pr in (prop, "P17"):
            prove(rep, I, s, pr, "shortcut", m["path"], what, right)
        if name != "nth":
            continue
        ends = [(at(I, s, l), l) for l in w.base]
        goal = lambda s: [eqi(v_, w.value(l, add(add(p, k), ONE) if some_ else b.count(s))) for v_, l in ends]
        for pr in (prop, "P17"):
            prove(rep, I, s, pr, "shortcut", m["path"], "skipping ahead leaves the position where the steps would", goal)
    if outs is not None:
        R.done()


MANY = ("nth", "count", "last", "fold", "for_each")


def overrides(prog, path):
    """The Iterator methods a type overrides, by name."""
    return {f["name"]: f for f in prog.roots if f.get("impl_self") is not None and f.get("impl_trait") is not None
            and prog.ty(f["impl_self"]).get("path") == path and f["impl_trait"].split("::")[-1].split("<")[0] == "Iterator"}


def alike(s, a, b, depth=0):
    """The same value: True / False / None."""
    a, b = s.norm(a), s.norm(b)
    if a is b:
        return True
    if a.op == b.op and a.op in ("adt", "tup", "s_push") and depth < 6:
        if len(a.a) != len(b.a) or a.op == "adt" and a.a[:2] != b.a[:2]:
            return False
        k = 2 if a.op == "adt" else 0
        r = [alike(s, x, y, depth + 1) for x, y in zip(a.a[k:], b.a[k:])]
        return False if False in r else None if None in r else True
    if {a.op, b.op} <= {"s_push", "s_empty"}:
        return False
    if a.op == "adt" and b.op == "adt":
        return False
    return s.decide(eq(a, b))


def by_steps(prog, rep, I, s0, r, v, props, most=3):
    """Methods that do many steps at once, compared with the steps, for iterations of up to `most` items."""
    fs = overrides(prog, v.a[0])
    names = [n for n in MANY if n in fs]
    if not names or "next" not in fs:
        return
    if not I.unroll:
        return  # the answer is open: the run with loops unrolled decides
    live, chains = [(s0.clone(), [])], []
    for _ in range(most + 1):
        new = []
        for st, items in live:
            t = st.clone()
            t.trace = ()
            for o in run(rep, I, fs["next"], [ref(r)], t) or []:
                val = o.st.norm(o.val) if o.kind == "ret" else None
                if val is None or val.op != "adt" or o.st.taint:
                    continue
                if val.a[1] == 0:
                    chains.append((o.st, items, True))
                else:
                    new.append((o.st, items + [val.a[2]]))
                    chains.append((o.st, items + [val.a[2]], False))
        live = new
    what = {"nth": "skipping ahead is the same as taking the items one by one", "last": "the last item is the one the steps would end with",
            "count": "counting the items counts the ones that are left", "fold": "folding goes over the items in order", "for_each": "for_each goes over the items in order"}
    for name in names:
        f = fs[name]
        R = Rules(rep, f["path"])
        R.I = I
        for end, items, ended in chains:
            if name == "nth":
                ks = [len(items) - 1] if not ended else [len(items), len(items) + 1]
            elif ended:
                ks = [None]
            else:
                continue
            for k in ks:
                t = end.clone()
                t.mem = dict(end.mem)
                for x, y in s0.mem.items():
                    t.mem[x] = y
                t.held, t.trace = s0.held, ()
                self_ = t.norm(t.mem[r])
                args = {"nth": [ref(r), num(k or 0)], "fold": [self_, mk("s_empty"), mk("pushfn")], "for_each": [self_, mk("pushfn")]}.get(name, [self_])
                for o in run(rep, I, f, args, t) or []:
                    s = o.st
                    if o.kind == "panic":
                        for pr in props:
                            R.check(pr, "steps", what[name], o, False, "panics")
                        continue
                    val = s.norm(o.val)
                    if name == "nth":
                        want_ = some(items[-1]) if not ended else NONE
                    elif name == "last":
                        want_ = some(items[-1]) if items else NONE
                    elif name == "count":
                        want_ = num(len(items))
                    else:
                        want_ = mk("s_empty")
                        for x in items:
                            want_ = mk("s_push", want_, x)
                        if name == "for_each":
                            val = mk("s_empty")
                            for e in events(s.trace, "sink"):
                                val = mk("s_push", val, e.a[0])
                    ok = alike(s, val, want_)
                    for pr in props:
                        R.check(pr, "steps", what[name], o, ok is True, "gives %s where the steps give %s" % (show(val)[:150], show(s.norm(want_))[:150]))
                    if name == "nth" and ok is True:
                        diff = [l for l in places(I, end, s) if alike(s, at(I, s, l), at(I, end, l)) is not True and l[0] in s0.mem]
                        for pr in props:
                            R.check(pr, "steps", "skipping ahead leaves the iterator where the steps would", o, not diff, "%s differs" % ", ".join(show(ref(l[0], *l[1])) for l in diff)[:200])
        R.done()


def label_of(cl):
    return cl[0] if cl[0] != "group" else cl[1]


def item_lock(R, b, s, o, v, ids):
    """What an item points into is locked, exclusively where it can be written."""
    v = s.norm(v)
    if ids and v.op == "tup" and len(v.a) == 2:
        v = s.norm(v.a[1])
    vs = [v] if b.single else list(v.a) if v.op == "tup" else []
    for i, x in enumerate(vs[:len(b.params)]):
        x = s.norm(x)
        L = M.lock_of(x.a[0]) if x.op == "ref" else None
        if L is None:
            continue
        ok = any(g.op == "guard" and s.norm(g.a[0]) is s.norm(L) and (g.a[1] == "w" or not b.params[i][1]) for g in s.held)
        R.check("P02", "item-lock", "an item's components are locked while it is made, exclusively if mutable", o, ok, "yields %s without the lock" % show(x)[:200])


# ---------------------------------------------------------------------- composites
def parts_of(I, s, r):
    """name -> place of every part reachable from the iterator at r."""
    out, seen = {}, set()

    def go(root, elems, v):
        v = s.norm(v)
        if v.op == "adt":
            if v.a[0] == "xa::qit":
                out[v.a[2].a[0]] = (root, elems)
                return
            for i, x in enumerate(v.a[2:]):
                go(root, elems + (fstep(v.a[1], i),), x)
        elif v.op == "tup":
            for i, x in enumerate(v.a):
                go(root, elems + (fstep(0, i),), x)
        elif v.op == "box":
            k = s.norm(v.a[0])
            if k not in seen and k in s.mem:
                seen.add(k)
                go(k, (), s.mem[k])
    seen.add(r)
    go(r, (), s.mem[r])
    return out


def tuple_query(prog, rep, f, cl):
    parts = cl[1]
    names = [n for n, _ in parts]
    yes = [n for n, ex in parts if not ex]
    no = [n for n, ex in parts if ex]
    prop = "P16" if no else "P15"
    p = Op(prog, rep, f, 0)
    if not p.ok:
        return
    I, w, R = p.I, p.w, p.R
    I.parts = True
    outs = p.run([w.ref()])
    if outs is None:
        return
    rets = 0
    for o in outs:
        s = o.st
        nochange(R, o, prop, "query-only", "making a query changes nothing")
        if o.kind == "panic":
            nopanic(R, o, "combining queries does not panic", False, (prop, "P25"))
            continue
        rets += 1
        gs, refs = covered(R, I, o)
        released(R, o, gs)
        r, v = value_of(s, o.val)
        if r is None or v.op != "adt":
            und(rep, f["path"], "query result", "not a struct: %s" % show(v)[:100])
            continue
        at_ = parts_of(I, s, r)
        asked = [e.a[0].a[0] for e in events(s.trace, "query")]
        R.check(prop, "parts", "a combined query is made of one query of every part", o, sorted(at_) == sorted(names) and sorted(asked) == sorted(names),
                "queries %s and keeps %s" % (asked, sorted(at_)))
        if sorted(asked) == sorted(names):
            R.check("P04", "parts-order", "the parts of a combined query are asked in the order they are declared", o, asked == names, "asked in the order %s, declared %s" % (asked, names))
        R.check(prop, "parts-world", "every part queries the same world", o, all(e.a[1] is w.ref() for e in events(s.trace, "query")), "another world")
        if sorted(at_) != sorted(names):
            continue
        ms, other, exact = iter_methods(prog, v.a[0])
        miss = [n for n in ("next",) + QUERY if n not in ms]
        if miss:
            und(rep, f["path"], "query result", "methods missing: %s" % ", ".join(miss))
            continue
        if other:
            und(rep, f["path"], "query result", "overridden iterator methods: %s" % ", ".join(sorted(other)), (prop, "P17"))
            by_steps(prog, rep, I, s, r, v, (prop, "P17"))
        best = None
        for d in yes:
            t = Trial()
            combined(prog, t.rep, I, s, r, v, at_, ms, exact, yes, no, d, prop)
            if best is None or t.bad() < best.bad():
                best = t
            if t.bad()[0] == 0:
                break
        rep.obl.extend(best.rep.obl)
        rep.funcs |= best.rep.funcs
        rep.paths += best.rep.paths
    R.check(prop, "parts", "queries can be combined", None, rets > 0, "no path returns")
    R.done()


def combined(prog, rep, I, s0, r, v, at_, ms, exact, yes, no, d, prop):
    """The methods of a combined iterator that is driven by its part d."""
    nd = mk("str", d)

    def match(x, but=()):
        return conj([mk("qhas", mk("str", n), x) for n in yes if n not in but] + [neg(mk("qhas", mk("str", n), x)) for n in no])

    def item(s, val, x):
        its = [s.norm(mk("qitem", mk("str", n), x)) for n in yes]
        val = s.norm(val)
        if len(its) == 1:
            return val is its[0]
        return val.op == "tup" and len(val.a) == len(its) and all(s.norm(a) is b for a, b in zip(val.a, its))

    def kept(R, s, o, moving, k):
        """Only the driving part's position may change, to k."""
        bad = []
        inside = []
        for l in places(I, st, s):
            part_ = next((n for n, (pr, pe) in at_.items() if s.norm(l[0]) is s.norm(pr) and l[1][:len(pe)] == pe), None)
            if part_ is None:
                inside.append(l)
            elif part_ != moving:
                bad.append("the position of %s changes to %s" % (part_, show(s.norm(M.proj(I, s, s.norm(I.get(s, *at_[part_])), fstep(0, 1))))))
        for l in inside:
            if s.norm(l[0]) is s.norm(r):
                und(rep, R.fn, "state", "the place %s changes" % show(ref(l[0], *l[1])), (prop, "P17"))
            else:
                bad.append("%s changes" % show(ref(l[0], *l[1])))
        for pr in (prop, "P17"):
            R.check(pr, "iter-frame", "only the position of the leading part moves", o, not bad, "; ".join(bad))
        if moving is not None:
            now = s.norm(I.get(s, *at_[moving])).a[3]
            ok = same(s, now, k) if k is not None else s.decide(le(M.qlen(s, nd), now)) is True
            for pr in (prop, "P17"):
                R.check(pr, "one-step", "the position moves just past the entity yielded, or to the end", o, ok, "moves to %s, not %s" % (show(now), show(k) if k is not None else "the end"))

    for name in ("next", "next_with_id"):
        m = ms[name]
        st = s0.clone()
        st.trace = ()
        outs, R = runm(rep, None, I, m, [ref(r)], st, None)
        if outs is None:
            continue
        kinds = set()
        for o in outs:
            s = o.st
            if o.kind == "panic":
                nopanic(R, o, "iterating does not panic", False, (prop, "P25"))
                continue
            val = s.norm(o.val)
            if val.op != "adt":
                und(rep, m["path"], "result", "returns %s" % show(val)[:100], (prop,))
                continue
            kinds.add(val.a[1])
            now = s.norm(I.get(s, *at_[d])).a[3]
            some_ = val.a[1] == 1
            upto = s.norm(sub(now, ONE)) if some_ else M.qlen(s, nd)
            # every entity passed over does not match
            passed = Dom(lambda s2: s2.norm(upto), lambda s2, i: M.qid(s2, nd, s2.norm(i)), "entity of " + d)
            un = cover(I, s, s.trace, passed, lambda el, t2, s2: False, lambda el, s2: known(s2, match(s2.norm(el))) is False)
            R.check(prop, "skip", "only entities that do not match are passed over", o, un is None, str(un).replace("treated", "shown not to match"))
            if not some_:
                kept(R, s, o, d, None)
                continue
            x = None
            if s.decide(ge0(upto)) is True and s.decide(lt(upto, M.qlen(s, nd))) is True:
                x = M.qid(s, nd, upto)
            R.check(prop, "one-step", "the position moves just past the entity yielded, or to the end", o, x is not None, "the position becomes %s" % show(now))
            if x is None:
                continue
            kept(R, s, o, d, now)
            R.check(prop, "match", "an entity yielded matches every part and none excluded", o, known(s, match(x)) is True, "yields entity %s of %s without knowing %s" % (show(upto), d, show(s.norm(match(x)))[:200]))
            it = s.norm(val.a[2])
            if name == "next_with_id":
                ok = it.op == "tup" and len(it.a) == 2 and same(s, it.a[0], x)
                for pr in (prop, "P17"):
                    R.check(pr, "own-id", "the id yielded is the one the item belongs to", o, ok, "yields %s" % show(it)[:200])
                it = it.a[1] if ok else it
            for pr in (prop, "P17"):
                R.check(pr, "own-item", "an item is made of the parts' items of one entity in the declared order", o, item(s, it, x), "yields %s for %s" % (show(it)[:200], show(x)))
        R.check(prop, "match", "both answers are possible", None, kinds == {0, 1}, str(kinds))
        R.done()
    m = ms["from_id"]
    x = sym("e")
    st = s0.clone()
    st.trace = ()
    st.assume(ge0(sub(x, ONE)))
    outs, R = runm(rep, None, I, m, [ref(r), x], st, None)
    kinds = set()
    for o in outs or []:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "looking up any id does not panic", False, (prop, "P25", "P07"))
            continue
        val = s.norm(o.val)
        if val.op != "adt":
            und(rep, m["path"], "result", "returns %s" % show(val)[:100], (prop,))
            continue
        kinds.add(val.a[1])
        good = known(s, match(x)) is (val.a[1] == 1) and (val.a[1] == 0 or item(s, val.a[2], x))
        for pr in (prop, "P07"):
            R.check(pr, "lookup", "lookup by id answers exactly for matching entities, with the parts' items", o, good, "answers %s" % show(val)[:200])
        kept(R, s, o, None, None)
    if outs is not None:
        R.check(prop, "lookup", "both answers are possible", None, kinds == {0, 1}, str(kinds))
        R.done()
    m = ms.get("size_hint")
    if m is None:
        if exact:
            rep.bad("P27", "length", v.a[0], "an exact iterator reports its length", "no size_hint: len() panics")
        return
    st = s0.clone()
    st.trace = ()
    outs, R = runm(rep, None, I, m, [ref(r)], st, None)
    for o in outs or []:
        s = o.st
        if o.kind == "panic":
            nopanic(R, o, "asking for the length does not panic", False, ("P27", "P25"))
            continue
        val = s.norm(o.val)
        # matching entities left: any number up to the leading part's length
        ok = val.op == "tup" and len(val.a) == 2
        if ok:
            lo, hi = s.norm(val.a[0]), s.norm(val.a[1])
            ok = not exact and s.decide(le(lo, ZERO)) is True and hi.op == "adt" and (hi.a[1] == 0 or s.decide(le(M.qlen(s, nd), s.norm(hi.a[2]))) is True)
        R.check("P27", "length", "the reported bounds hold for the number of matching entities left", o, ok, "reports %s" % show(val)[:200])
        kept(R, s, o, None, None)
    if outs is not None:
        R.done()


# ---------------------------------------------------------------------- plumbing
def forward(prog, rep, fs, mkargs, what, expect, props):
    """Functions that hand a call on to one part."""
    for f in fs:
        p = Op(prog, rep, f, 0)
        I, R = p.I, p.R
        I.parts = True
        st = p.st
        args, root = mkargs(I, st, f)
        before = st.clone()
        outs = p.run(args)
        if outs is None:
            continue
        for o in outs:
            if o.kind == "panic":
                nopanic(R, o, "forwarding does not panic", False, props + ("P25",))
                continue
            s = o.st
            ok, det = expect(f["name"], I, s, s.norm(o.val), root)
            for pr in props:
                R.check(pr, "forward", what, o, ok, det)
            nochange(R, o, props[0], "query-only", "making a query changes nothing")
        R.done()


N0 = mk("str", "T")


def expect_call(name, I, s, v, root):
    """The answer of the part at root (position k0 before the call)."""
    k0 = sym("=intk")
    q = s.norm(I.get(s, *root)) if root else None
    if q is None or q.op != "adt" or q.a[0] != "xa::qit":
        return False, "the part is gone"
    k = q.a[3]
    if name in ("next", "next_with_id"):
        if v is NONE:
            return known(s, lt(k0, M.qlen(s, N0))) is False and same(s, k, k0), "ends with position %s" % show(k)
        if v.op != "adt":
            return False, "returns %s" % show(v)[:100]
        x = s.norm(mk("qid", N0, k0))
        it = s.norm(mk("qitem", N0, x))
        return known(s, lt(k0, M.qlen(s, N0))) is True and same(s, k, add(k0, ONE)) and s.norm(v.a[2]) is (s.norm(tup(x, it)) if name == "next_with_id" else it), "returns %s with position %s" % (show(v)[:200], show(k))
    if name == "from_id":
        h = known(s, mk("qhas", N0, sym("e")))
        if v is NONE:
            return h is False and same(s, k, k0), "finds nothing"
        return h is True and same(s, k, k0) and v.op == "adt" and s.norm(v.a[2]) is s.norm(mk("qitem", N0, sym("e"))), "returns %s" % show(v)[:200]
    if name == "size_hint":
        b = mk("qbound", N0, k0)
        lo, hi = s.norm(mk("qlow", N0, k0)), s.norm(mk("qhigh", N0, k0))
        e = known(s, isvar(b, 1, 2))
        return e is not None and same(s, k, k0) and v is s.norm(tup(lo, some(hi) if e else NONE)), "returns %s" % show(v)[:200]
    return False, "unknown method"


def plumbing(prog, rep):
    # boxes
    def inbox(I, st, f):
        k0 = sym("=intk")
        st.assume(ge0(k0))
        st.assume(le(k0, M.qlen(st, N0)))
        r, rr = mk("heap", sym("part")), mk("heap", sym("box"))
        st.mem[r] = M.part("T", k0)
        st.mem[rr] = mk("box", r)
        x = sym("e")
        st.assume(ge0(sub(x, ONE)))
        return [ref(rr)] + ([x] if f["name"] == "from_id" else []), (r, ())
    fs = []
    for f in prog.roots:
        if f.get("impl_self") is None or f.get("impl_trait") is None:
            continue
        t = prog.ty(f["impl_self"])
        if t["k"] == "adt" and t["path"].endswith("::Box") and f["impl_trait"].split("::")[-1] == "QueryIterator":
            fs.append(f)
    if {f["name"] for f in fs} != set(QUERY):
        und(rep, "boxed queries", "anchor", "found %s" % sorted(f["name"] for f in fs), ("P17",))
    forward(prog, rep, fs, inbox, "a boxed query forwards to the query in the box", expect_call, ("P17",))
    # World::query
    f = want(prog, rep, "World", "query")
    if f is not None:
        p = Op(prog, rep, f, 0)
        p.I.parts = True
        T_ = prog.canon(f["args"][0]) if f["args"] else None
        ts = [prog.canon(x) for x in f["args"] if isinstance(x, int) and prog.ty(x)["k"] == "param"]
        for o in p.run([p.w.ref()]) or []:
            s = o.st
            if o.kind == "panic":
                nopanic(p.R, o, "queries of the world do not panic by themselves", False, ("P17", "P25"))
                continue
            ev = events(s.trace, "query")
            r, v = value_of(s, o.val)
            p.R.check("P17", "forward", "the world's query is the query of the type asked for", o,
                      len(ev) == 1 and ev[0].a[1] is p.w.ref() and v.op == "adt" and v.a[0] == "xa::qit" and v.a[2].a[0] == ev[0].a[0].a[0] and v.a[2].a[0] in ts and v.a[3] is ZERO,
                      "gives %s" % show(v)[:200])
            nochange(p.R, o, "P17", "query-only", "making a query changes nothing")
        p.R.done()
    # with_id
    wi = [f for f in prog.roots if f["name"] == "with_id"]
    if len(wi) != 1:
        und(rep, "with_id", "anchor", "%d functions" % len(wi), ("P17", "P27"))
        return
    p = Op(prog, rep, wi[0], 0)
    p.I.parts = True
    k0 = sym("=intk")
    p.st.assume(ge0(k0))
    p.st.assume(le(k0, M.qlen(p.st, N0)))
    for o in p.run([M.part("T", k0)]) or []:
        s, I = o.st, p.I
        if o.kind == "panic":
            nopanic(p.R, o, "the with-id adaptor does not panic", False, ("P17", "P25"))
            continue
        v = s.norm(o.val)
        r = mk("heap", sym("adaptor"))
        s.mem[r] = v
        if v.op != "adt":
            und(rep, wi[0]["path"], "result", "not a struct", ("P17", "P27"))
            continue
        at_ = parts_of(I, s, r)
        q = s.norm(I.get(s, *at_["T"])) if "T" in at_ else None
        p.R.check("P17", "forward", "the with-id adaptor keeps the query where it is", o, q is not None and same(s, q.a[3], k0), "gives %s" % show(v)[:200])
        if q is None:
            continue
        ms, other, exact = iter_methods(prog, v.a[0])
        if other:
            und(rep, wi[0]["path"], "adaptor", "overridden iterator methods: %s" % ", ".join(sorted(other)), ("P17",))
            by_steps(prog, rep, I, s, r, v, ("P17",))
        for n, pr in (("next", ("P17",)), ("size_hint", ("P27",))):
            if n not in ms:
                if n == "size_hint":
                    rep.bad("P27", "forward", v.a[0], "the with-id adaptor reports the length of its query", "no size_hint")
                continue
            st = s.clone()
            st.trace = ()
            outs, R = runm(rep, None, I, ms[n], [ref(r)], st, None)
            for x in outs or []:
                if x.kind == "panic":
                    nopanic(R, x, "the with-id adaptor does not panic", False, pr + ("P25",))
                    continue
                ok, det = expect_call("next_with_id" if n == "next" else n, I, x.st, x.st.norm(x.val), at_["T"])
                for q_ in pr:
                    R.check(q_, "forward", "the with-id adaptor yields the query's items with their ids" if n == "next" else "the with-id adaptor reports the length of its query", x, ok, det)
            if outs is not None:
                R.done()
    p.R.done()


# ---------------------------------------------------------------------- jobs
def check_base(prog, rep, want_):
    n = 0
    for f, cl in queries(prog):
        if cl is None:
            und(rep, f["path"], "query", "of an unknown shape")
            continue
        if (cl[1] if cl[0] == "group" else cl[0]) != want_:
            continue
        n += 1
        base_query(prog, rep, f, cl)
    need = {"one": 2, "full": 4, "partial": 4, "non": 4}[want_]
    if n < need:
        rep.add("*", "anchor", "queries of kind " + want_, "all combinations of shared and mutable", "undecided", "only %d found" % n)


def check_tuple(prog, rep, excl):
    n = 0
    for f, cl in queries(prog):
        if cl is None or cl[0] != "tuple" or any(e for _, e in cl[1]) != excl:
            continue
        n += 1
        if sum(1 for _, e in cl[1] if not e) < 1:
            und(rep, f["path"], "query", "no positive part")
            continue
        tuple_query(prog, rep, f, cl)
    need = 2 if excl else 4
    if n < need:
        rep.add("*", "anchor", "tuple queries", "all sizes and sides", "undecided", "only %d found" % n)


def check(prog, rep, only=None):
    for n in ("one", "full", "partial", "non"):
        if not only or n in only:
            check_base(prog, rep, n)
    if not only or "tuple" in only:
        check_tuple(prog, rep, False)
    if not only or "without" in only:
        check_tuple(prog, rep, True)
    if not only or "plumbing" in only:
        plumbing(prog, rep)
