"""Level 1: the entity manager tracks which ids are alive."""
from .spec import *
from .l1_sparse import panics, locals_viol


def layout(prog, f):
    t = prog.ty(f["impl_self"])
    out = {}
    for i, ft in enumerate(t["fields"][0]):
        c = prog.canon(ft)
        if c == "std::vec::Vec<std::num::NonZero<usize>>":
            out["ent"] = i
        elif c.startswith("std::vec::Vec<"):
            out["flags"] = i
            e = prog.ty(prog.ty(ft)["args"][0])
            if e["k"] != "adt" or "fields" not in e:
                return None
            for v, fs in enumerate(e["fields"]):
                cs = [prog.canon(x) for x in fs]
                if cs == ["usize"]:
                    out["un"] = v
                elif cs == ["std::option::Option<std::num::NonZero<usize>>"]:
                    out["av"] = v
            out["path"] = e["path"]
    return out if {"ent", "flags", "un", "av"} <= set(out) else None


class Em:
    def __init__(self, I, lay, val):
        self.I, self.l, self.v = I, lay, val

    def flags(self, st):
        return st.norm(M.proj(self.I, st, st.norm(self.v), fstep(0, self.l["flags"])))

    def ents(self, st):
        return st.norm(M.proj(self.I, st, st.norm(self.v), fstep(0, self.l["ent"])))

    def flag(self, st, k):
        return st.norm(M.sget(self.I, st, self.flags(st), k))

    def fld(self, st, v, var):
        v = st.norm(v)
        return st.norm(v.a[2] if v.op == "adt" else mk("fld", v, self.l[var], 0))

    def alive(self, st, x):
        if not st.need(conj([lt(x, M.slen(st, self.flags(st))), ge0(sub(x, ONE))])):
            return False
        return st.need(isvar(self.flag(st, x), self.l["un"]))


def args_of(f):
    n = f["name"]
    return {"has": [sym("e")], "remove": [sym("e")], "allocate_n": [sym("=intn")]}.get(n, [sym("arg%d" % i) for i in range(1, f["argc"])])


def begin(prog, f, facts):
    I, st, r, em, lay = setup(prog, f, facts)
    st.assume(ge0(sub(sym("e"), ONE)))
    return I, st, r


def setup(prog, f, facts=None):
    I = Interp(prog)
    I.abs_em = False
    lay = layout(prog, f)
    if lay is None:
        return None
    S = sym("self")
    st = State()
    r = mk("heap", sym("self"))
    st.mem[r] = S
    em = Em(I, lay, S)
    fl, en = mk("fld", S, 0, lay["flags"]), mk("fld", S, 0, lay["ent"])
    M.SEQBASE.update((fl, en))
    if facts is None:
        facts = lengths(prog, "EntityManager", {k: lay[k] for k in ("ent", "flags")}, lambda f, x: begin(prog, f, x), args_of)
    assume_lengths(I, st, S, lay, facts)
    AV, UN = lay["av"], lay["un"]
    st.assume(ge0(sub(M.slen(st, fl), ONE)))

    def ax_flag(I, st, k, t):
        u = mk("fld", t, UN, 0) if t.op != "adt" else (t.a[2] if t.a[1] == UN else None)
        a = mk("fld", t, AV, 0) if t.op != "adt" else (t.a[2] if t.a[1] == AV else None)
        v = st.facts.variant(t)
        if v is None:
            return False
        if v == UN:
            u = st.norm(u)
            if st.decide(eqi(k, ZERO)) is True:
                st.facts.ok = False
                return True
            st.assume(conj([ge0(sub(k, ONE)), lt(u, M.slen(st, en)), eqi(mk("get", en, u), k)]))
            return True
        a = st.norm(a)
        w = st.facts.variant(a)
        if w is None:
            return False
        if w == 1:
            m = st.norm(a.a[2] if a.op == "adt" else mk("fld", a, 1, 0))
            st.assume(conj([ge0(sub(m, ONE)), lt(m, M.slen(st, fl)), eqi(mk("prd", m), k)]))
            st.assume(isvar(st.norm(mk("get", fl, m)), AV))
        return True

    def ax_ent(I, st, i, t):
        if not st.decide(lt(i, M.slen(st, en))):
            return False
        st.assume(conj([ge0(sub(t, ONE)), lt(t, M.slen(st, fl))]))
        t = st.norm(t)
        st.assume(eq(mk("get", fl, t), adt(lay["path"], UN, i)))
        return True

    I.axioms = {fl: ax_flag, en: ax_ent}
    st.assume(isvar(mk("get", fl, ZERO), AV))
    return I, st, r, em, lay


def inv(rep, I, st, fn, em):
    P = "P05"
    lay = em.l
    AV, UN = lay["av"], lay["un"]

    def e0(s):
        if not s.need(ge0(sub(M.slen(s, em.flags(s)), ONE))):
            return FALSE
        return isvar(em.flag(s, ZERO), AV)
    prove(rep, I, st, P, "em-inv", fn, "slot 0 is never an entity", e0)

    def e1(s):
        i = sym("?i")
        if not s.assume(lt(i, M.slen(s, em.ents(s)))):
            return TRUE
        x = M.sget(I, s, em.ents(s), i)
        if not s.need(conj([ge0(sub(x, ONE)), lt(x, M.slen(s, em.flags(s)))])):
            return FALSE
        return eq(em.flag(s, x), adt(lay["path"], UN, i))
    prove(rep, I, st, P, "em-inv", fn, "every listed id is marked alive at its position", e1)

    def e2(s):
        k = sym("?k")
        if not s.assume(conj([ge0(sub(k, ONE)), lt(k, M.slen(s, em.flags(s)))])):
            return TRUE
        v = em.flag(s, k)
        if not s.need(isvar(v, UN)):
            return TRUE
        v = em.flag(s, k)
        j = em.fld(s, v, "un")
        if not s.need(lt(j, M.slen(s, em.ents(s)))):
            return FALSE
        return eqi(M.sget(I, s, em.ents(s), j), k)
    prove(rep, I, st, P, "em-inv", fn, "every id marked alive is listed", e2)

    def nxt(s, k):
        """successor of k in the free chain or None"""
        v = em.flag(s, k)
        if not s.need(isvar(v, AV)):
            return None
        v = em.flag(s, k)
        a = em.fld(s, v, "av")
        if not s.need(is_some(a)):
            return None
        v = em.flag(s, k)  # instantiate what is known about this slot
        a = s.norm(em.fld(s, v, "av"))
        return s.norm(a.a[2] if a.op == "adt" else mk("fld", a, 1, 0))

    def e3(s):
        k = sym("?k")
        if not s.assume(lt(k, M.slen(s, em.flags(s)))):
            return TRUE
        m = nxt(s, k)
        if m is None:
            return TRUE
        if not s.need(conj([ge0(sub(m, ONE)), lt(m, M.slen(s, em.flags(s)))])):
            return FALSE
        return isvar(em.flag(s, m), AV)
    prove(rep, I, st, P, "em-inv", fn, "the free chain only holds ids that are not alive", e3)

    def e4(s):
        k, q = sym("?k"), sym("?q")
        n = M.slen(s, em.flags(s))
        if not s.assume(conj([lt(k, n), lt(q, n), neg(eqi(k, q))])):
            return TRUE
        m = nxt(s, k)
        if m is None:
            return TRUE
        m2 = nxt(s, q)
        if m2 is None:
            return TRUE
        m = nxt(s, k)
        return neg(eqi(m, m2))
    prove(rep, I, st, P, "em-inv", fn, "no id is in the free chain twice", e4)


def written(s, q):
    """Indices at which a sequence was written."""
    out = []
    q = s.norm(q)
    while q.op.startswith("s_") and q.a:
        if q.op == "s_store":
            out.append(q.a[1])
        q = s.norm(q.a[0])
    return out


def reuse(prog, rep, f, n):
    """No id that is not alive is lost: each can be reached from another slot, and the table grows only when none waits."""
    su = setup(prog, f)
    if su is None:
        return
    I, st, r, em, lay = su
    AV = lay["av"]
    fl = mk("fld", em.v, 0, lay["flags"])
    base = I.axioms[fl]

    def ax(I, st, k, t):
        # each waiting id but the head has the slot it is reached from
        if st.facts.variant(t) == AV and k.op != "waits" and st.decide(lt(k, M.slen(st, fl))) is True and st.decide(ge0(sub(k, ONE))) is True:
            p = mk("waits", k)
            st.assume(conj([ge0(p), lt(p, M.slen(st, fl))]))
            v = st.norm(mk("get", fl, p))
            st.assume(isvar(v, AV))
            v = st.norm(v)
            a = st.norm(v.a[2] if v.op == "adt" else mk("fld", v, AV, 0))
            st.assume(is_some(a))
            a = st.norm(a)
            st.assume(eqi(a.a[2] if a.op == "adt" else mk("fld", a, 1, 0), k))
        return base(I, st, k, t)
    I.axioms = dict(I.axioms)
    I.axioms[fl] = ax
    fn = f["path"]
    e, cnt = sym("e"), sym("=intn")
    st.assume(ge0(sub(e, ONE)))
    outs = run(rep, I, f, [ref(r)] + {"remove": [e], "allocate_n": [cnt]}.get(n, []), st)
    for o in outs or []:
        if o.kind != "ret":
            continue
        post = Em(I, lay, o.st.mem.get(o.st.norm(r), em.v))

        def kept(s):
            k = sym("?k")
            if not s.assume(conj([ge0(sub(k, ONE)), lt(k, M.slen(s, post.flags(s)))])):
                return TRUE
            if not s.need(isvar(post.flag(s, k), AV)):
                return TRUE
            # instantiate what was known about the slot
            if s.need(lt(k, M.slen(s, fl))):
                if s.need(isvar(em.flag(s, k), AV)):
                    em.flag(s, k)
            for p in [ZERO, mk("waits", k)] + written(s, post.flags(s)):
                if not s.need(conj([ge0(p), lt(p, M.slen(s, post.flags(s)))])):
                    continue
                if not s.need(isvar(post.flag(s, p), AV)):
                    continue
                a = post.fld(s, post.flag(s, p), "av")
                if not s.need(is_some(a)):
                    continue
                a = s.norm(a)
                if s.need(eqi(a.a[2] if a.op == "adt" else mk("fld", a, 1, 0), k)):
                    return TRUE
            return FALSE
        prove(rep, I, o.st, "P29", "id-reuse", fn, "no removed id is lost", kept)
        if n == "allocate":
            def grows(s):
                a = em.fld(s, em.flag(s, ZERO), "av")
                was, now = M.slen(s, fl), M.slen(s, post.flags(s))
                if s.need(is_some(a)):
                    return eqi(was, now)
                return conj([eqi(now, add(was, ONE)), eqi(o.val, was)])
            prove(rep, I, o.st, "P29", "id-reuse", fn, "the table grows, by one id, only when no removed id waits", grows)
        elif n == "allocate_n":
            prove(rep, I, o.st, "P29", "id-reuse", fn, "the table grows by the size of the batch at most", lambda s: le(M.slen(s, post.flags(s)), add(M.slen(s, fl), cnt)))
        else:
            prove(rep, I, o.st, "P29", "id-reuse", fn, "a removal does not grow the table", lambda s: le(M.slen(s, post.flags(s)), M.slen(s, fl)))


def check(prog, rep):
    ms = {f["name"]: f for f in prog.roots if prog.self_adt(f) == "EntityManager" and f.get("impl_trait") is None}
    for n in sorted({"new", "allocate", "allocate_n", "remove", "has"} - set(ms)):
        rep.add("P05", "anchor", "EntityManager::" + n, "method present", "undecided", "the method is missing")
    x = sym("?x")
    for n in ("allocate", "allocate_n", "remove"):
        if n in ms:
            reuse(prog, rep, ms[n], n)
    for n in ("new", "has", "allocate", "allocate_n", "remove"):
        f = ms.get(n)
        if f is None:
            continue
        fn = f["path"]
        su = setup(prog, f)
        if su is None:
            rep.add("P05", "anchor", fn, "representation", "undecided", "the entity manager's fields are not recognised")
            continue
        I, st, r, em, lay = su
        if n == "new":
            I = Interp(prog)
            I.abs_em = False
            outs = run(rep, I, f, [], State())
            panics(rep, "P05", fn, outs or [])
            for o in outs or []:
                post = Em(I, lay, o.val)
                prove(rep, I, o.st, "P05", "em-new", fn, "a new world has no entity", lambda s: bool_(not post.alive(s, x)))
                inv(rep, I, o.st, fn, post)
            continue
        e = sym("e")
        cnt = sym("=intn")
        st.assume(ge0(sub(e, ONE)))
        outs = run(rep, I, f, [ref(r)] + {"has": [e], "remove": [e], "allocate_n": [cnt]}.get(n, []), st)
        if outs is None:
            continue
        locals_viol(rep, outs, fn)
        panics(rep, "P07" if n in ("has", "remove") else "P05", fn, outs)
        for o in outs:
            if o.kind != "ret":
                continue
            s, v = o.st, o.val
            post = Em(I, lay, s.mem.get(s.norm(r), em.v))
            if n == "has":
                prove(rep, I, s, "P05", "em-has", fn, "has tells whether the id is alive", lambda s: v if em.alive(s, e) else neg(v))
                continue
            inv(rep, I, s, fn, post)

            def frame(s):
                if not s.assume(ge0(sub(x, ONE))):
                    return TRUE
                if n == "allocate":
                    if s.need(eqi(x, v)):
                        return bool_(not em.alive(s, x) and post.alive(s, x))
                elif n == "remove":
                    if s.need(eqi(x, e)):
                        return bool_(not post.alive(s, x))
                else:
                    lo, hi = s.norm(v).a[2], s.norm(v).a[3]
                    if s.need(conj([le(lo, x), lt(x, hi)])):
                        return bool_(not em.alive(s, x) and post.alive(s, x))
                return bool_(em.alive(s, x) == post.alive(s, x))
            w = {"allocate": "the new id was not alive and is now; every other id is as before",
                 "remove": "the id is not alive any more; every other id is as before",
                 "allocate_n": "the new ids were not alive and are now; every other id is as before"}[n]
            prove(rep, I, s, "P05", "em-" + n, fn, w, frame)
            if n == "allocate":
                prove(rep, I, s, "P05", "em-allocate", fn, "ids start from 1", lambda s: ge0(sub(v, ONE)))
            if n == "allocate_n":
                def rng(s):
                    lo, hi = s.norm(v).a[2], s.norm(v).a[3]
                    return [ge0(sub(lo, ONE)), eqi(sub(hi, lo), cnt)]
                prove(rep, I, s, "P06", "em-batch", fn, "a batch is a range of exactly n ids starting from at least 1", rng)

                prove(rep, I, s, "P06", "em-batch", fn, w, frame)
