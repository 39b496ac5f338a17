"""Level 1: group data keeps its members and their order (checked on its own code)."""
from .spec import *
from .interp import DBG
from .l1_sparse import panics, locals_viol

KINDS = ("full", "partial", "non")


def kind_of(name):
    for k in KINDS:
        if name.lower().startswith(k):
            return k
    return None


class View:
    """Group data plus its two storages in one state."""

    def __init__(self, I, kind, lay, g, a, b):
        self.I, self.k, self.l, self.g, self.s = I, kind, lay, g, {"a": a, "b": b}

    def L(self, st):
        return st.norm(M.proj(self.I, st, st.norm(self.g), fstep(0, self.l["len"])))

    def S(self, st):
        return st.norm(M.proj(self.I, st, st.norm(self.g), fstep(0, self.l["set"])))

    def sto(self, st, w):
        return self.S(st) if w == "s" else st.norm(self.s[w])

    # literals: (sign, kind, ...)
    def val(self, st, lit, x, ints):
        k = lit[0]
        if k == "not":
            return not self.val(st, lit[1], x, ints)
        if k == "has":
            return st.need(M.sps_has(self.I, st, self.sto(st, lit[1]), x))
        if k == "lt":
            return st.need(lt(M.sps_idx(self.I, st, self.sto(st, lit[1]), x), st.norm(ints[lit[2]])))
        if k == "peq":
            return st.need(eqi(M.sps_idx(self.I, st, self.sto(st, "a"), x), M.sps_idx(self.I, st, self.sto(st, "b"), x)))

    def atom(self, st, lit, x, ints):
        k = lit[0]
        pos = lambda w: mk("posv", self.sto(st, w), x)
        if k == "not":
            return neg(self.atom(st, lit[1], x, ints))
        if k == "has":
            return mk("sphas", self.sto(st, lit[1]), x)
        if k == "lt":
            return lt(pos(lit[1]), st.norm(ints[lit[2]]))
        if k == "peq":
            return eqi(pos("a"), pos("b"))


def neg_lit(l):
    return l[1] if l[0] == "not" else ("not", l)


# clauses: hypotheses -> conclusion, for every id x
MEM = {
    "full": [(("has", "a"), ("lt", "a", "L")), (("has", "b"), ("lt", "b", "L"))],
    "partial": [(("has", "a"), ("lt", "a", "L"))],
    "non": [(("has", "s"),)],
}
SOUND = {  # membership implies
    "full": [([("has", "a"), ("lt", "a", "L")], ("has", "b")), ([("has", "a"), ("lt", "a", "L")], ("peq",)),
             ([("has", "b"), ("lt", "b", "L")], ("has", "a")), ([("has", "b"), ("lt", "b", "L")], ("peq",))],
    "partial": [([("has", "a"), ("lt", "a", "L")], ("has", "b"))],
    "non": [([("has", "s")], ("has", "a")), ([("has", "s")], ("has", "b"))],
}
COMPLETE = {
    "full": ([("has", "a"), ("has", "b")], ("lt", "a", "L")),
    "partial": ([("has", "a"), ("has", "b")], ("lt", "a", "L")),
    "non": ([("has", "a"), ("has", "b")], ("has", "s")),
}


def clause_cond(view, st, cl, x, ints):
    """The clause as a condition over base storages."""
    hyp, con = cl
    return disj([neg(view.atom(st, h, x, ints)) for h in hyp] + [view.atom(st, con, x, ints)])


def clause_holds(view, st, cl, x, ints):
    hyp, con = cl
    for h in hyp:
        if not view.val(st, h, x, ints):
            return TRUE
    return bool_(view.val(st, con, x, ints))


class QInv:
    """A quantified candidate loop invariant over the storages of a group."""

    def __init__(self, mkview, cl, ints, frame=None):
        self.mkview, self.cl, self.ints, self.frame = mkview, cl, ints, frame

    def assume(self, I, st, cur):
        v = self.mkview(cur)
        ints = {k: f(cur) for k, f in self.ints.items()}
        key = ("q", id(self))

        def ax(x):
            def fn(s):
                if self.frame is None:
                    s.assume(clause_cond(v, s, self.cl, s.norm(x), ints))
                    return True
                w, s0 = self.frame
                h = s.norm(v.sto(s, w))
                x1 = s.norm(x)
                a, b = mk("sphas", h, x1), M.sps_has(I, s, s0, x1)
                s.assume(disj([neg(a), b]))
                s.assume(disj([a, neg(b)]))
                d = s.decide(a)
                if d is None:
                    return False
                if d:
                    s.assume(eq(s.norm(mk("get", mk("fld", h, 0, M.SP["dat"]), mk("posv", h, x1))), s.norm(M.sps_dat(I, s, s0, M.sps_idx(I, s, s0, x1)))))
                return True
            return fn

        ws = "abs" if self.frame is None else self.frame[0]
        for w in ws:
            if w == "s" and v.k != "non":
                continue
            b = st.norm(v.sto(st, w))
            st.hook(b, key, ax)
        if self.frame is not None:
            h = st.norm(v.sto(st, self.frame[0]))
            st.assume(eqi(M.sps_len(I, st, h), M.sps_len(I, st, self.frame[1])))

    def check(self, I, st, cur):
        v = self.mkview(cur)
        ints = {k: f(cur) for k, f in self.ints.items()}
        x = sym("?q")

        def fn(s):
            s.assume(ge0(sub(x, ONE)))
            if self.frame is None:
                return [(s, clause_holds(v, s, self.cl, x, ints))]
            w, s0 = self.frame
            h = v.sto(s, w)
            if M.sps_len(I, s, h) is not M.sps_len(I, s, s0) and not s.need(eqi(M.sps_len(I, s, h), M.sps_len(I, s, s0))):
                return [(s, FALSE)]
            p, q = s.need(M.sps_has(I, s, h, x)), s.need(M.sps_has(I, s, s0, x))
            if p != q:
                return [(s, FALSE)]
            if not p:
                return [(s, TRUE)]
            return [(s, eq(M.sps_dat(I, s, h, M.sps_idx(I, s, h, x)), M.sps_dat(I, s, s0, M.sps_idx(I, s, s0, x))))]

        try:
            res = I.splits(st, fn)
        except Give:
            if DBG:
                print("   gave up")
            return None
        for s, c in res:
            if not s.facts.ok or s.decide(c) is True:
                continue
            s.retry()
            t = s.clone()
            if not t.assume(neg(c)):
                continue
            if not refuted(t):
                if DBG:
                    print("   ", explain(t))
                return None
        return True


def setup(prog, kind, lay, f):
    I = Interp(prog)
    I.abs_grp = False
    G, SA, SB = sym("self"), sym("sa"), sym("sb")
    st = State()
    r = mk("heap", sym("self"))
    st.mem[r] = G
    args = [ref(r)]
    ra, rb = mk("heap", sym("ra")), mk("heap", sym("rb"))
    st.mem[ra], st.mem[rb] = SA, SB
    sides = [ra, rb]
    x = sym("e")
    for li in range(2, f["argc"] + 1):
        t = prog.ty(f["locals"][li])
        c = prog.canon(f["locals"][li])
        if c == "std::num::NonZero<usize>":
            st.assume(ge0(sub(x, ONE)))
            args.append(x)
        elif "ComponentStorage" in c and t["k"] == "ref" and sides:
            rr = sides.pop(0)
            to = prog.ty(t["to"])
            if to["k"] == "adt" and to["path"].endswith("Box"):
                cell = mk("heap", sym("cell%d" % li))
                st.mem[cell] = mk("box", rr)
                args.append(ref(cell))
            else:
                args.append(ref(rr))
        else:
            return None
    if sides:
        return None

    def mkview(s=None, g=None, a=None, b=None):
        return View(I, kind, lay, g if g is not None else s.mem.get(r, G), a if a is not None else s.mem[ra], b if b is not None else s.mem[rb])

    pre = View(I, kind, lay, G, SA, SB)

    I.inst_always = True
    return I, st, r, ra, rb, args, x, pre, mkview


def assume_inv(I, st, pre, kind, skip=None):
    """The group invariant of the state before, for every id (completeness: but `skip`)."""
    ints = {}
    if kind != "non":
        ints["L"] = pre.L(st)
        st.assume(le(ints["L"], M.sps_len(I, st, pre.s["a"])))
        if kind == "full":
            st.assume(le(ints["L"], M.sps_len(I, st, pre.s["b"])))

    def ax(x):
        def fn(s):
            x1 = s.norm(x)
            for cl in SOUND[kind]:
                s.assume(clause_cond(pre, s, cl, x1, ints))
            c = clause_cond(pre, s, COMPLETE[kind], x1, ints)
            s.assume(disj([eqi(x1, skip), c]) if skip is not None else c)
            return True
        return fn

    for w in ("a", "b") + (("s",) if kind == "non" else ()):
        st.hook(st.norm(pre.sto(st, w)), ("pre",), ax)


def loop_hook(kind, lay, r, ra, rb, st_init, pre):
    """Candidate invariants for the loop of `make`."""

    def hook(I, fr, st0, syms, lid):
        seqs = {}
        ints = []
        at = {}
        for h, (t0, l) in syms.items():
            z = st0.norm(t0)
            root = st0.norm(l[0])
            if root is ra and not l[1]:
                at["a"] = h
            elif root is rb and not l[1]:
                at["b"] = h
            elif kind == "non" and root is r and l[1] == (fstep(0, lay["set"]),):
                at["s"] = h
            elif root is r and kind != "non" and l[1] == (fstep(0, lay["len"]),):
                ints.append((h.a[0], h))
            elif z.op in ("int", "lin", "sym", "fld", "len") and not M.is_seq(z) and z.op not in ("adt",):
                ints.append((h.a[0], h))
        # a group value that changes as a whole
        def term(w):
            if w in at:
                return lambda cur, h=at[w]: cur(h)
            base = {"a": ra, "b": rb}.get(w)
            v = st0.norm(st0.mem[base]) if base is not None else View(I, kind, lay, st0.norm(st0.mem[r]), None, None).S(st0)
            return lambda cur, v=v: v

        tm = {w: term(w) for w in ("a", "b") + (("s",) if kind == "non" else ())}

        class V2(View):
            def __init__(self, cur):
                self.I, self.k, self.l = I, kind, lay
                self.s = {w: f(cur) for w, f in tm.items()}

            def sto(self, st, w):
                return st.norm(self.s[w])

            def L(self, st):
                return None

        out = []
        for w in at:
            s0 = {"a": pre.s["a"], "b": pre.s["b"]}.get(w)
            if s0 is not None:
                out.append((("frame", w), QInv(V2, None, {}, (w, s0))))
        cint = [(n, (lambda cur, h=h: cur(h))) for n, h in ints]
        if kind == "non":
            for i, cl in enumerate(SOUND[kind]):
                out.append((("sound", i), QInv(V2, cl, {})))
            for n, f in cint:
                for w in "ab":
                    out.append((("done", n, w), QInv(V2, ([("has", w), ("lt", w, "i"), ("has", "b" if w == "a" else "a")], ("has", "s")), {"i": f})))
            return out
        zero = [("L0", lambda cur: ZERO)]
        for n, f in cint:
            for i, cl in enumerate(SOUND[kind]):
                out.append((("sound", i, n), QInv(V2, cl, {"L": f})))
            for n2, f2 in cint:
                if n == n2:
                    continue
                for w in "ab":
                    out.append((("done", n, n2, w), QInv(V2, ([("has", w), ("lt", w, "i"), ("has", "b" if w == "a" else "a")], ("lt", "a", "L")), {"L": f, "i": f2})))
                    if kind == "full":
                        out.append((("doneb", n, n2, w), QInv(V2, ([("has", w), ("lt", w, "i"), ("has", "b" if w == "a" else "a")], ("lt", "b", "L")), {"L": f, "i": f2})))
        return out

    return hook


def t2(prog, i):
    """How many types a field of tuple type holds."""
    t = prog.ty(i)
    return sum(1 for x in t["args"] if prog.canon(x) == "std::any::TypeId") if t["k"] == "tuple" else 0


def layout(prog, data_path):
    for t in prog.types:
        if t["k"] == "adt" and t["path"] == data_path and t.get("fields"):
            lay = {"types": []}
            for i, ft in enumerate(t["fields"][0]):
                c = prog.canon(ft)
                if c == "usize":
                    lay["len"] = i
                elif c.split("<")[0].endswith("SparseSet"):
                    lay["set"] = i
                elif c.endswith("TypeId"):
                    lay["types"].append(i)
                elif t2(prog, ft):
                    lay["types"] += [i] * t2(prog, ft)
            return lay
    return None


P = "P11"


def check_method(prog, rep, kind, lay, f):
    n, fn = f["name"], f["path"]
    su = setup(prog, kind, lay, f)
    if su is None:
        rep.add(P, "anchor", fn, "signature", "undecided", "arguments not recognised")
        return
    I, st, r, ra, rb, args, e, pre, mkview = su
    if n == "make":
        I.loop_hook = loop_hook(kind, lay, r, ra, rb, st, pre)
    else:
        assume_inv(I, st, pre, kind, skip=e if n == "add" else None)
    outs = run(rep, I, f, args, st)
    if outs is None:
        return
    locals_viol(rep, outs, fn)
    panics(rep, P, fn, outs)
    x = sym("?x")

    def member(v, s, y):
        if kind == "non":
            return v.val(s, ("has", "s"), y, {})
        return v.val(s, ("has", "a"), y, {}) and v.val(s, ("lt", "a", "L"), y, {"L": v.L(s)})

    for o in outs:
        if o.kind != "ret":
            continue
        s = o.st
        post = mkview(s)

        def start(s):
            s.assume(ge0(sub(x, ONE)))

        if n == "in_group":
            prove(rep, I, s, P, "grp-member", fn, "in_group tells membership", lambda s: s.norm(o.val) if member(pre, s, e) else neg(s.norm(o.val)))
            prove(rep, I, s, P, "grp-pure", fn, "asking for membership changes nothing",
                  lambda s: [eq(s.norm(post.g), s.norm(pre.g)), eq(post.sto(s, "a"), pre.sto(s, "a")), eq(post.sto(s, "b"), pre.sto(s, "b"))])
            continue
        if n == "in_components":
            prove(rep, I, s, P, "grp-comps", fn, "in_components tells whether both components are there",
                  lambda s: s.norm(o.val) if pre.val(s, ("has", "a"), e, {}) and pre.val(s, ("has", "b"), e, {}) else neg(s.norm(o.val)))
            continue
        # bounds
        if kind != "non":
            def bnd(s):
                c = [le(post.L(s), M.sps_len(I, s, post.sto(s, "a")))]
                if kind == "full":
                    c.append(le(post.L(s), M.sps_len(I, s, post.sto(s, "b"))))
                return c
            prove(rep, I, s, P, "grp-bound", fn, "the front region lies inside the owned storages", bnd)
        for cl in SOUND[kind]:
            def sound(s, cl=cl):
                start(s)
                return clause_holds(post, s, cl, x, {"L": post.L(s)} if kind != "non" else {})
            prove(rep, I, s, P, "grp-sound", fn, "every member has both components, at the same index where owned", sound)

        def complete(s):
            start(s)
            if n == "remove" and s.need(eqi(x, e)):
                return bool_(not member(post, s, x))
            return clause_holds(post, s, COMPLETE[kind], x, {"L": post.L(s)} if kind != "non" else {})
        prove(rep, I, s, P, "grp-complete", fn, {"add": "every id with both components is a member", "make": "every id with both components is a member",
                                                 "remove": "the removed id is no member, every other id with both components is"}[n], complete)
        if n in ("add", "remove"):
            def others(s):
                start(s)
                if s.need(eqi(x, e)):
                    return TRUE
                return bool_(member(pre, s, x) == member(post, s, x))
            prove(rep, I, s, P, "grp-others", fn, "every other id keeps its membership", others)

            def settled(s, v):
                v = s.norm(v)
                while v.op == "sp_add" and s.norm(v.a[2]) is UNIT and s.need(M.sps_has(I, s, v.a[0], v.a[1])):
                    v = s.norm(v.a[0])  # overwriting () with ()
                return v

            def noop(s):
                m = member(pre, s, e)
                both = pre.val(s, ("has", "a"), e, {}) and pre.val(s, ("has", "b"), e, {})
                if (n == "add" and (m or not both)) or (n == "remove" and not m):
                    return [eq(post.sto(s, "a"), pre.sto(s, "a")), eq(post.sto(s, "b"), pre.sto(s, "b"))] + (
                        [eqi(post.L(s), pre.L(s))] if kind != "non" else [eq(settled(s, post.S(s)), pre.S(s))])
                return TRUE
            prove(rep, I, s, P, "grp-noop", fn, "adding a present member or removing an absent one changes nothing", noop)
        for w in "ab":
            def frame(s, w=w):
                start(s)
                h, s0 = post.sto(s, w), pre.sto(s, w)
                if h is s0:
                    return TRUE
                if w == "b" and kind == "partial" or kind == "non":
                    return FALSE
                p, q = s.need(M.sps_has(I, s, h, x)), s.need(M.sps_has(I, s, s0, x))
                if p != q:
                    return FALSE
                if not p:
                    return TRUE
                return eq(M.sps_dat(I, s, h, M.sps_idx(I, s, h, x)), M.sps_dat(I, s, s0, M.sps_idx(I, s, s0, x)))
            prove(rep, I, s, P, "grp-frame", fn, "storages it owns are only reordered, others untouched (%s)" % w, frame)

        def types_kept(s):
            return [eq(M.proj(I, s, s.norm(post.g), fstep(0, i)), M.proj(I, s, s.norm(pre.g), fstep(0, i))) for i in lay["types"]]
        prove(rep, I, s, P, "grp-types", fn, "the group keeps its types", types_kept)


def check(prog, rep, only=None):
    I0 = Interp(prog)
    I0.group_fields()
    for v, name in sorted(I0.group_data().items()):
        kind = kind_of(name)
        if only is not None and kind is not None and kind != only:
            continue
        path = next((t["path"] for t in prog.types if t["k"] == "adt" and t["path"].split("::")[-1] == name), None)
        lay = layout(prog, path) if path else None
        if kind is None or lay is None or len(lay["types"]) != 2 or ("set" if kind == "non" else "len") not in lay:
            rep.add(P, "anchor", name, "representation", "undecided", "group data not recognised")
            continue
        ms = {f["name"]: f for f in prog.roots if prog.self_adt(f) == name and f.get("impl_trait") is None}
        for m in ("add", "remove", "make", "in_group", "in_components"):
            if m not in ms:
                rep.add(P, "anchor", "%s::%s" % (name, m), "method present", "undecided", "missing")
                continue
            check_method(prog, rep, kind, lay, ms[m])
