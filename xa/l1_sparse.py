"""Level 1: the sparse set implements a map (checked on its own code)."""
from .spec import *


def fields(prog, f):
    """Positions of (lookup table, id array, value array) in the type."""
    t = prog.ty(f["impl_self"])
    names = [a for a in t["args"]]
    e, v = prog.canon(names[0]), prog.canon(names[1])
    pos = {}
    for i, ft in enumerate(t["fields"][0]):
        c = prog.canon(ft)
        if c.startswith("std::vec::Vec<std::option::Option<std::num::NonZero<usize>>"):
            pos["idx"] = i
        elif c == "std::vec::Vec<%s>" % e:
            pos["ent"] = i
        elif c == "std::vec::Vec<%s>" % v:
            pos["dat"] = i
    if len(pos) != 3:
        return None
    return pos


class Sp:
    """View of a concrete sparse set value in a state."""

    def __init__(self, I, pos, val):
        self.I, self.pos, self.v = I, pos, val

    def f(self, st, n):
        return st.norm(M.proj(self.I, st, st.norm(self.v), fstep(0, self.pos[n])))

    def len(self, st):
        return M.slen(st, self.f(st, "ent"))

    def has(self, st, x):
        ix = self.f(st, "idx")
        if not st.need(lt(x, M.slen(st, ix))):
            return False
        return st.need(is_some(M.sget(self.I, st, ix, x)))

    def pos_of(self, st, x):
        v = M.sget(self.I, st, self.f(st, "idx"), x)
        p = st.norm(v.a[2] if v.op == "adt" else mk("fld", v, 1, 0))
        return sub(p, ONE)

    def ent(self, st, i):
        return M.sget(self.I, st, self.f(st, "ent"), i)

    def dat(self, st, i):
        return M.sget(self.I, st, self.f(st, "dat"), i)

    def val(self, st, x):
        return self.dat(st, self.pos_of(st, x))


def args_of(f):
    return {"add": [sym("e"), sym("d")], "swap_by_index": [sym("=inti"), sym("=intj")], "remove": [sym("e")], "get_mut": [sym("e")], "get_unchecked_mut": [sym("e")],
            "swap_by_entity": [sym("e"), sym("e2")]}.get(f["name"], [sym("arg%d" % i) for i in range(1, f["argc"])])


def setup(prog, f, facts=None):
    I = Interp(prog)
    I.abs_sps = False
    I.into_id = True
    pos = fields(prog, f)
    if pos is None:
        return None
    S = sym("self")
    st = State()
    r = mk("heap", sym("self"))
    st.mem[r] = S
    I.given |= {"self"}
    sp = Sp(I, pos, S)
    ix, en, da = (mk("fld", S, 0, pos[n]) for n in ("idx", "ent", "dat"))
    for s in (ix, en, da):
        M.SEQBASE.add(s)
    st.assume(eqi(M.slen(st, en), M.slen(st, da)))
    if facts is None:
        facts = lengths(prog, "SparseSet", pos, lambda f, x: setup(prog, f, x)[:3], args_of)
    assume_lengths(I, st, S, pos, facts)

    def ax_idx(I, st, k, t):
        p = mk("fld", t, 1, 0) if t.op != "adt" else (t.a[2] if t.a[1] == 1 else None)
        if p is None:
            return True
        j = sub(st.norm(p), ONE)
        st.assume(ge0(j))  # NonZero
        st.assume(disj([neg(is_some(t)), conj([ge0(j), lt(j, M.slen(st, en)), eqi(mk("get", en, j), k)])]))

    def ax_ent(I, st, i, t):
        if st.decide(lt(i, M.slen(st, en))):
            st.assume(lt(t, M.slen(st, ix)))
            st.assume(eq(mk("get", ix, st.norm(t)), some(add(i, ONE))))
            return True
        return False

    I.axioms = {ix: ax_idx, en: ax_ent}
    return I, st, r, sp, pos


def inv(rep, I, st, fn, sp, prop="P08"):
    """I1-I3 at generic positions of the final value."""
    ok = True
    ok &= bool(prove(rep, I, st, prop, "sparse-inv", fn, "as many ids as values", lambda s: eqi(sp.len(s), M.slen(s, sp.f(s, "dat")))))

    def i2(s):
        i = sym("?i")
        if not s.assume(lt(i, sp.len(s))):
            return TRUE
        e = sp.ent(s, i)
        ix = sp.f(s, "idx")
        if not s.need(lt(e, M.slen(s, ix))):
            return FALSE
        return eq(M.sget(I, s, ix, e), some(add(i, ONE)))

    ok &= bool(prove(rep, I, st, prop, "sparse-inv", fn, "every stored id is found at its own position", i2))

    def i3(s):
        k = sym("?k")
        ix = sp.f(s, "idx")
        if not s.assume(lt(k, M.slen(s, ix))):
            return TRUE
        v = M.sget(I, s, ix, k)
        if not s.need(is_some(v)):
            return TRUE
        v = s.norm(v)
        j = sub(v.a[2] if v.op == "adt" else s.norm(mk("fld", v, 1, 0)), ONE)
        if not s.need(conj([ge0(j), lt(j, sp.len(s))])):
            return FALSE
        return eqi(sp.ent(s, j), k)

    ok &= bool(prove(rep, I, st, prop, "sparse-inv", fn, "every lookup entry points at its id", i3))
    return ok


def panics(rep, prop, fn, outs, allowed=None):
    """Report reachable panics."""
    for o in outs:
        if o.kind == "panic":
            if allowed is not None and allowed(o):
                continue
            if o.st.taint:
                rep.add(prop, "no-panic", fn, "no panic", "undecided", o.st.taint[0])
            else:
                rep.bad(prop, "no-panic", fn, "reachable panic: %s at %s" % (o.msg, where(o.st.stack)), explain(o.st))
            return False
    rep.ok(prop, "no-panic", fn, "no panic is reachable")
    return True


def locals_viol(rep, outs, fn):
    for o in outs:
        for rule, what, stack in o.st.viol:
            rep.bad(rule, {"P24": "unchecked", "P01": "casts", "P26": "moved-once"}.get(rule, "locks"), fn, what, where(stack))
        if M.copies(o.st):
            rep.add("P26", "moved-once", fn, "a component read out of its place does not stay there too", "undecided", show(M.copies(o.st)[0])[:200])


def check(prog, rep):
    ms = {f["name"]: f for f in prog.roots if prog.self_adt(f) == "SparseSet" and f.get("impl_trait") is None}
    need = {"new", "add", "remove", "exist", "get", "get_mut", "get_index", "len", "is_empty", "swap_by_index", "clear", "add_batch"}
    for n in sorted(need - set(ms)):
        rep.add("P08", "anchor", "SparseSet::" + n, "method present", "undecided", "the method is missing")
    x = sym("?x")  # a generic other key

    for n, f in sorted(ms.items()):
        fn = f["path"]
        if n in ("new",):
            I = Interp(prog)
            I.abs_sps = False
            pos = fields(prog, f)
            if pos is None:
                rep.add("P08", "anchor", fn, "representation", "undecided", "the sparse set's fields are not recognised")
                continue
            outs = run(rep, I, f, [], State())
            for o in outs or []:
                sp = Sp(I, pos, o.val)
                prove(rep, I, o.st, "P08", "sparse-new", fn, "a new storage is empty", lambda s: [eqi(sp.len(s), ZERO), bool_(not sp.has(s, x))])
                inv(rep, I, o.st, fn, sp)
            continue
        if n not in ("add", "remove", "exist", "get", "get_mut", "get_index", "len", "is_empty", "swap_by_index", "swap_by_entity", "clear", "get_unchecked",
                     "get_unchecked_mut", "entities", "data", "data_mut"):
            continue
        su = setup(prog, f)
        if su is None:
            rep.add("P08", "anchor", fn, "representation", "undecided", "the sparse set's fields are not recognised")
            continue
        I, st, r, sp, pos = su
        e, d = sym("e"), sym("d")
        i, j = sym("=inti"), sym("=intj")
        args = {"add": [e, d], "remove": [e], "exist": [e], "get": [e], "get_mut": [e], "get_index": [e], "swap_by_index": [i, j], "swap_by_entity": [e, sym("e2")],
                "get_unchecked": [e], "get_unchecked_mut": [e]}.get(n, [])
        starts = [st]
        if n.startswith("get_unchecked"):
            starts = [s for s, h in I.splits(st, lambda s: [(s, sp.has(s, e))]) if h] if not setattr(I, "budget", 1000) else []
        for st1 in starts:
            outs = run(rep, I, f, [ref(r)] + args, st1)
            if outs is None:
                continue
            locals_viol(rep, outs, fn)
            if n == "swap_by_index":
                def allowed(o):
                    # out of range positions are refused
                    I.budget = 2000
                    return all(c for _, c in I.splits(o.st, lambda s: [(s, s.decide(conj([lt(i, sp.len(s)), lt(j, sp.len(s))])) is False)]))
                panics(rep, "P07", fn, outs, allowed)
            elif n == "swap_by_entity":
                def allowed(o):
                    # unknown ids are refused
                    I.budget = 2000
                    return all(c for _, c in I.splits(o.st, lambda s: [(s, not (sp.has(s, e) and sp.has(s, sym("e2"))))]))
                panics(rep, "P25", fn, outs, allowed)
            else:
                panics(rep, "P07", fn, outs)
            for o in outs:
                if o.kind != "ret":
                    continue
                s = o.st
                post = Sp(I, pos, s.mem.get(s.norm(r), sp.v))
                v = o.val
                if n == "exist":
                    prove(rep, I, s, "P08", "sparse-read", fn, "exist tells whether the id is stored",
                          lambda s: v if sp.has(s, e) else neg(v))
                elif n in ("len",):
                    prove(rep, I, s, "P08", "sparse-read", fn, "len is the number of ids", lambda s: eqi(v, sp.len(s)))
                elif n == "is_empty":
                    prove(rep, I, s, "P08", "sparse-read", fn, "is_empty iff no ids", lambda s: v if s.need(eqi(sp.len(s), ZERO)) else neg(v))
                elif n in ("entities", "data", "data_mut"):
                    want = ref(r, fstep(0, pos["ent" if n == "entities" else "dat"]))
                    prove(rep, I, s, "P08", "sparse-read", fn, "%s is the whole array" % n, lambda s: bool_(s.norm(v) is want))
                elif n == "get_index":
                    prove(rep, I, s, "P08", "sparse-read", fn, "get_index is the position of the id",
                          lambda s: eq(v, some(sp.pos_of(s, e))) if sp.has(s, e) else isvar(v, 0))
                elif n in ("get", "get_mut", "get_unchecked", "get_unchecked_mut"):
                    def got(s):
                        if sp.has(s, e):
                            w = ref(r, fstep(0, pos["dat"]), istep(s.norm(sp.pos_of(s, e))))
                            v2 = s.norm(v)
                            if not n.startswith("get_unchecked"):
                                if v2.op != "adt" or v2.a[1] != 1:
                                    return isvar(v2, 1) if v2.op != "adt" else FALSE
                                v2 = v2.a[2]
                            return bool_(s.norm(v2) is s.norm(w))
                        return isvar(v, 0)
                    prove(rep, I, s, "P08", "sparse-read", fn, "%s is the value stored for the id, None when absent" % n, got)
                if n in ("exist", "len", "is_empty", "entities", "data", "data_mut", "get_index", "get", "get_mut", "get_unchecked", "get_unchecked_mut"):
                    w = "lookup leaves the storage unchanged"
                    if s.norm(s.mem.get(s.norm(r))) is s.norm(sp.v):
                        rep.ok("P08", "sparse-read", fn, w)
                    elif s.taint:
                        rep.add("P08", "sparse-read", fn, w, "undecided", s.taint[0])
                    else:
                        rep.bad("P08", "sparse-read", fn, w, "a lookup changes the storage")
                    continue
                inv(rep, I, s, fn, post)
                if n == "clear":
                    prove(rep, I, s, "P08", "sparse-map", fn, "a cleared storage is empty", lambda s: [eqi(post.len(s), ZERO), bool_(not post.has(s, x))])
                    continue

                def other(s):
                    if not n.startswith("swap_by"):
                        if not s.assume(neg(eqi(x, e))):
                            return TRUE
                    a = sp.has(s, x)
                    b = post.has(s, x)
                    if a != b:
                        return FALSE
                    if not a:
                        return TRUE
                    return eq(sp.val(s, x), post.val(s, x))
                prove(rep, I, s, "P08", "sparse-map", fn, "no other id is affected", other)
                if n == "add":
                    prove(rep, I, s, "P08", "sparse-map", fn, "add stores the value for the id",
                          lambda s: eq(post.val(s, e), d) if post.has(s, e) else FALSE)
                    prove(rep, I, s, "P08", "sparse-map", fn, "add grows the storage exactly when the id is new",
                          lambda s: eqi(post.len(s), sp.len(s) if sp.has(s, e) else add(sp.len(s), ONE)))

                    def keep(s):
                        p = sym("?i")
                        if not s.assume(lt(p, sp.len(s))):
                            return TRUE
                        return [eqi(post.ent(s, p), sp.ent(s, p))]
                    prove(rep, I, s, "P08", "sparse-order", fn, "add leaves the positions of stored ids alone", keep)
                elif n == "remove":
                    prove(rep, I, s, "P08", "sparse-map", fn, "the removed id is gone", lambda s: bool_(not post.has(s, e)))

                    def rv(s):
                        v2 = s.norm(v)
                        if sp.has(s, e):
                            return eq(v2, some(sp.val(s, e)))
                        return isvar(v2, 0)
                    prove(rep, I, s, "P08", "sparse-map", fn, "remove returns the stored value, None when absent", rv)
                    prove(rep, I, s, "P08", "sparse-map", fn, "remove shrinks the storage exactly when the id was stored",
                          lambda s: eqi(post.len(s), sub(sp.len(s), ONE) if sp.has(s, e) else sp.len(s)))

                    def keep(s):
                        if not sp.has(s, e):
                            return eqi(post.len(s), sp.len(s))
                        p = sym("?i")
                        if not s.assume(lt(p, sp.pos_of(s, e))):
                            return TRUE
                        return [eqi(post.ent(s, p), sp.ent(s, p))]
                    prove(rep, I, s, "P08", "sparse-order", fn, "remove leaves earlier positions alone", keep)
                elif n.startswith("swap_by"):
                    def sw(s):
                        i, j = sym("=inti"), sym("=intj")
                        if n == "swap_by_entity":
                            if not (sp.has(s, e) and sp.has(s, sym("e2"))):
                                return FALSE
                            i, j = sp.pos_of(s, e), sp.pos_of(s, sym("e2"))
                        if not s.need(conj([lt(i, sp.len(s)), lt(j, sp.len(s))])):
                            return TRUE
                        p = sym("?i")
                        s.assume(lt(p, sp.len(s)))
                        q = p
                        if s.need(eqi(p, i)):
                            q = j
                        elif s.need(eqi(p, j)):
                            q = i
                        return [eqi(post.ent(s, p), sp.ent(s, q)), eq(post.dat(s, p), sp.dat(s, q))]
                    prove(rep, I, s, "P08", "sparse-swap", fn, "exactly the two positions change places", sw)

    for n, f in sorted(ms.items()):
        if n == "add_batch":
            batch_adds(prog, rep, f)
            batch_map(prog, rep, f)


def batch_adds(prog, rep, f):
    """Every pair is added (through the set's own add)."""
    from .l2_world import Rules, cover, events, Dom
    fn = f["path"]
    I = Interp(prog)
    I.sps_skip = {"add_batch"}
    st = State()
    r, ri = mk("heap", sym("self")), mk("heap", sym("ids"))
    st.mem[r], st.mem[ri] = sym("self"), sym("ids")
    ids, data = sym("ids"), sym("data")
    M.SEQBASE.add(ids)
    M.SEQBASE.add(data)
    M.SPSBASE.add(sym("self"))
    outs = run(rep, I, f, [ref(r), ref(ri), data], st)
    if outs is None:
        return
    R = Rules(rep, fn)
    for o in outs:
        s, tr = o.st, o.st.trace
        fits = s.decide(eqi(M.slen(s, ids), M.slen(s, data)))
        if "reads the lookup table" in "".join(s.taint):
            continue
        if o.kind == "panic":
            ch = [e for e in events(tr, "sps", "write")]
            for p in ("P08", "P25"):
                R.check(p, "batch-refuse", "a batch of the wrong length is refused before anything is stored", o, fits is False and not ch, "panic '%s' at %s" % (o.msg, where(s.stack)))
            continue
        for p in ("P08", "P25"):
            R.check(p, "batch-refuse", "a batch of the wrong length is refused before anything is stored", o, fits is True, "returns although the lengths may differ")
        pairs = Dom(lambda s2: M.slen(s2, ids), lambda s2, i: (s2.norm(M.sget(I, s2, ids, i)), s2.norm(M.sget(I, s2, data, i))), "pair")
        hit = lambda p, t, s2: any(e.a[0].a[0] == "add" and s2.norm(e.a[2]) is p[0] and s2.norm(e.a[3]) is p[1] for e in events(t, "sps"))
        why = cover(I, s, tr, pairs, hit, lambda p, s2: False)
        for p in ("P08", "P26"):
            R.check(p, "batch-adds", "every pair of the batch is stored", o, why is None, str(why))
    R.done()


def batch_map(prog, rep, f):
    """Batches of up to two pairs equal adding the pairs in order."""
    for k in range(3):
        su = setup(prog, f)
        if su is None:
            rep.add("P08", "anchor", f["path"], "representation", "undecided", "the sparse set's fields are not recognised")
            return
        I, st, r, sp, pos = su
        fn = f["path"]
        I.unroll_in = {"add_batch", "for_each", "extend", "fold", "collect"}
        es, ds = [sym("e%d" % i) for i in range(k)], [sym("d%d" % i) for i in range(k)]
        ids, data = mk("s_empty"), mk("s_empty")
        for e, d in zip(es, ds):
            ids, data = mk("s_push", ids, e), mk("s_push", data, d)
        ri = mk("heap", sym("ids"))
        st.mem[ri] = ids
        outs = run(rep, I, f, [ref(r), ref(ri), data], st)
        if outs is None:
            continue
        panics(rep, "P25", fn, outs)
        x = sym("?x")
        for o in outs:
            if o.kind != "ret":
                continue
            s = o.st
            post = Sp(I, pos, s.mem.get(s.norm(r), sp.v))
            inv(rep, I, s, fn, post)

            def want(s):
                for e, d in reversed(list(zip(es, ds))):
                    if s.need(eqi(x, e)):
                        return eq(post.val(s, x), d) if post.has(s, x) else FALSE
                a, b = sp.has(s, x), post.has(s, x)
                if a != b:
                    return FALSE
                return eq(sp.val(s, x), post.val(s, x)) if a else TRUE
            for p in ("P08", "P26"):
                prove(rep, I, s, p, "batch-map", fn, "a batch equals adding its pairs in order", want)
