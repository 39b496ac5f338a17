"""Semantic models: memory, sequences, maps, locks, library calls."""
import re
from .terms import *

import os
DBG=os.environ.get('XADBG')
SEQ = {"s_empty", "s_store", "s_push", "s_pop", "s_ext", "s_filt", "s_sub", "s_trunc", "s_del", "s_ins", "s_rev"}
SPS_OPS = {"sp_empty", "sp_add", "sp_rm", "sp_swap", "sp_batch"}
KINDS3 = ("grpval",)
SP = {"ent": 1, "dat": 2}  # positions of the id and value arrays in the sparse set


def sp_idx():
    """Position of the lookup table."""
    return next(i for i in range(3) if i not in SP.values())


# ===================================================================== memory
def target(I, st, v):
    v = st.norm(v)
    if v.op == "ref":
        return v.a[0], v.a[1:]
    if v.op == "box":
        return v.a[0], ()
    if v.op == "guard":
        return mk("inner", v.a[0]), ()
    if v.op == "adt" and len(v.a) == 3 and v.a[2].op in ("ref", "box"):
        return target(I, st, v.a[2])
    return mk("pointee", v), ()


def lock_of(root):
    if root.op in ("inner", "boxof"):
        return root.a[0]
    return None


def lazy(I, st, root):
    if root.op == "pointee":
        return mk("deref", root.a[0])
    if root.op == "inner":
        cls = lockclass(I, root.a[0])
        if cls is not None:
            enter(I, st, root.a[0], cls, frozen(I, st) or mk("ep0", root.a[0]))
            return st.mem[root]
        return mk("deref", root)
    return mk("val", root)


def proj(I, st, v, e):
    k = e.op
    if k == "f":
        vi, i = e.a
        if v.op == "adt":
            if v.a[1] == vi and len(v.a) > 2 + i:
                return v.a[2 + i]
            # a single-field wrapper seen through a projection of its inside
            if len(v.a) == 3 and i == 0:
                return v.a[2]
            st.doubt("projection %s of %s" % (e, show(v)[:60]))
            return st.fresh("odd")
        if v.op == "tup":
            if i < len(v.a):
                return v.a[i]
            st.doubt("projection of a tuple")
            return st.fresh("odd")
        if v.op == "clo":
            return v.a[1 + i]
        if v.op == "st":
            for j in range(1, len(v.a), 2):
                if v.a[j] is e:
                    return v.a[j + 1]
            return proj(I, st, v.a[0], e)
        if v.op == "grpval":
            return mk("gdata", v.a[0], vi, v.a[1])
        if v.op == "gdata" or v.op == "fld" and v.a[0].op in ("gdata", "fld"):
            b, path = v, (i,)
            while b.op == "fld":
                b, path = b.a[0], (b.a[2],) + path
            if b.op == "gdata" and b.a[1] in I.group_fields():
                ts = I.type_paths(b.a[1])
                if path in ts:
                    return mk("gtyp", b.a[0], b.a[1], ts.index(path))
            if v.op == "gdata":
                return mk("fld", v, vi, i)
        if v.op in ("int", "lin") or is_seqop(v):
            return v  # NonZero(inner), Vec internals
        if v.op in SPS_OPS:
            r = sps_field(I, st, v, i)
            if r is not None:
                return r
            if i == sp_idx():
                st.doubt("reads the lookup table of a changed storage directly")
        if v.op in ("box", "ref", "guard"):
            return v
        if I.abs_sps and v in SPSBASE and i == sp_idx():
            table_known(I, st, v)
        return mk("fld", v, vi, i)
    if k == "i":
        return sget(I, st, v, e.a[0])
    if k == "key":
        return map_val(I, st, v, e.a[0])
    if k == "sub":
        return mk("s_sub", v, e.a[0], e.a[1])
    st.doubt("projection %s" % k)
    return mk("pr", v, e)


def upd(I, st, v, elems, new):
    if not elems:
        return new
    e, rest = elems[0], elems[1:]
    if e.op == "f":
        vi, i = e.a
        old = proj(I, st, v, e)
        nv = upd(I, st, st.norm(old), rest, new)
        if v.op == "adt" and v.a[1] == vi and len(v.a) > 2 + i:
            return adt(*(v.a[: 2 + i] + (nv,) + v.a[3 + i:]))
        if v.op == "tup":
            return tup(*(v.a[:i] + (nv,) + v.a[i + 1:]))
        if v.op == "clo":
            return mk("clo", *(v.a[: 1 + i] + (nv,) + v.a[2 + i:]))
        if v.op == "st":
            items = {v.a[j]: v.a[j + 1] for j in range(1, len(v.a), 2)}
            base = v.a[0]
        else:
            items, base = {}, v
        items[e] = nv
        flat = []
        for kk in sorted(items, key=lambda t: t.a):
            flat += [kk, items[kk]]
        return mk("st", base, *flat)
    if e.op == "i":
        if rest:
            new = upd(I, st, st.norm(sget(I, st, v, e.a[0])), rest, new)
        return mk("s_store", v, e.a[0], new)
    if e.op == "key":
        if rest:
            new = upd(I, st, st.norm(map_val(I, st, v, e.a[0])), rest, new)
        return mk("m_ins", v, e.a[0], new)
    if e.op == "sub" and rest and rest[0].op == "i":
        return upd(I, st, v, (istep(add(rest[0].a[0], e.a[0])),) + rest[1:], new)
    st.doubt("update through %s" % e.op)
    return st.fresh("upd")


def access(I, st, root, elems, write):
    """A place under a lock is touched: its guard must be held."""
    L = lock_of(root)
    if L is None:
        return
    L = st.norm(L)
    if L in I.owned:
        return
    I.count("P02:access")
    for g in st.held:
        if g.op == "guard" and g.a[0] is L:
            if write and g.a[1] != "w":
                continue
            return
        if g.op == "excl" and g.a[0] is L:
            return
    for g in st.held:
        if g.op == "gset":
            return
    st.fail("P02", "%s of the data behind %s without holding its %s" % (
        "mutable use" if write else "use", lockname(I, st, L), "write guard" if write else "guard"))


def on_write(I, st, root, elems, v):
    st.ev("write", mk("loc_", root, *elems), v)


# ================================================================== sequences
def is_seqop(v):
    return v.op in SEQ


def is_seq(v):
    return v.op in SEQ or v in SEQBASE


SEQBASE = set()
SPSBASE = set()  # terms used as sparse sets


def slen(st, s):
    if st is not None:
        s = st.norm(s)
    k = s.op
    if k == "s_empty":
        return ZERO
    if k == "s_store":
        return slen(st, s.a[0])
    if k == "s_push":
        return add(slen(st, s.a[0]), ONE)
    if k == "s_ins":
        return add(slen(st, s.a[0]), ONE)
    if k == "s_rev":
        return slen(st, s.a[0])
    if k in ("s_pop", "s_del"):
        return sub(slen(st, s.a[0]), ONE)
    if k == "s_ext" or k == "s_filt":
        n = s.a[1]
        return st.norm(n) if st is not None else n
    if k == "s_trunc":
        return s.a[1]
    if k == "s_sub":
        return sub(s.a[2], s.a[1])
    if k == "adt" and s.a[0] == "std::boxed::Box":
        return slen(st, s.a[2])
    if s.op == "fld" and s.a[1:] == (0, SP["dat"]) and s.a[0] in SPSBASE:
        return slen(st, mk("fld", s.a[0], 0, SP["ent"]))
    SEQBASE.add(s)
    n = mk("len", s)
    return st.norm(n) if st is not None else n


def seq_len_quick(st, t):
    if t.op in SEQ or t in SEQBASE:
        return slen(st, t)
    return None


def sget(I, st, s, i):
    """Element of a sequence; splits the path where an index equality is open."""
    s, i = st.norm(s), st.norm(i)
    while True:
        k = s.op
        if k == "s_store":
            if st.need(eqi(i, s.a[1])):
                return s.a[2]
            s = st.norm(s.a[0])
        elif k == "s_push":
            if st.need(eqi(i, slen(st, s.a[0]))):
                return s.a[1]
            s = st.norm(s.a[0])
        elif k in ("s_pop", "s_trunc"):
            s = st.norm(s.a[0])
        elif k == "s_rev":
            s = st.norm(s.a[0])
            i = st.norm(sub(sub(slen(st, s), ONE), i))
        elif k == "s_sub":
            i = st.norm(add(i, s.a[1]))
            s = st.norm(s.a[0])
        elif k == "s_del":
            if st.need(lt(i, s.a[1])):
                s = st.norm(s.a[0])
            else:
                i, s = add(i, ONE), st.norm(s.a[0])
        elif k == "s_ins":
            if st.need(lt(i, s.a[1])):
                s = st.norm(s.a[0])
            elif st.need(eqi(i, s.a[1])):
                return s.a[2]
            else:
                i, s = sub(i, ONE), st.norm(s.a[0])
        elif k == "s_ext":
            if st.need(lt(i, slen(st, s.a[0]))):
                s = st.norm(s.a[0])
            else:
                bv, el = s.a[2], s.a[3]
                return st.norm(replace(el, {bv: i}))
        elif k == "s_filt":
            b = slen(st, s.a[0])
            if b is not ZERO and st.need(lt(i, b)):
                s = st.norm(s.a[0])
            else:
                return filt_elem(I, st, s, i)
        elif k == "s_empty":
            st.doubt("element of an empty sequence")
            return st.fresh("none")
        else:
            SEQBASE.add(s)
            t = st.norm(mk("get", s, i))
            ax = I.axioms.get(s)
            if ax is not None:
                st.instantiate((s, i), lambda q: ax(I, q, q.norm(i), q.norm(mk("get", q.norm(s), q.norm(i)))))
                t = st.norm(t)
            if I.abs_sps and s.op == "fld" and s.a[0] in SPSBASE and s.a[1:] == (0, sp_idx()):
                if not st.need(sps_has(I, st, s.a[0], i)):
                    return NONE
                return some(add(sps_idx(I, st, s.a[0], i), ONE))
            if I.abs_sps and s.op == "fld" and s.a[1:] == (0, SP["ent"]) and s.a[0] in SPSBASE:
                return sps_ent(I, st, s.a[0], i)
            return t


def preorder(t):
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from preorder(x)


def filt_elem(I, st, s, i):
    """Element i of a sequence collected by a loop: some iteration's element."""
    info, h, alts = I.filt_alts[s.a[2]]
    forms = set()
    for bs, e in alts:
        e = bs.norm(e)
        m = {}
        for t in preorder(e):
            if t.op == "sym" and t not in info.vars and t not in m and I.iter_local(info, t):
                m[t] = sym("lf%d:%d#%d" % (info.id, len(m), info.n0 + 1))
        forms.add(replace(e, m) if m else e)
    if len(forms) != 1:
        return mk("get", s, i)
    e = forms.pop()
    m = {}
    for t in subterms(e):
        if I.iter_local(info, t):
            m[t] = mk("fidx", s, i, mk("str", t.a[0]))
    # what every collecting iteration knew about its element
    common = None
    for bs, e1 in alts:
        ren = {}
        e1 = bs.norm(e1)
        for t in preorder(e1):
            if t.op == "sym" and t not in ren and I.iter_local(info, t):
                t2 = t if t in info.vars else sym("lf%d:%d#%d" % (info.id, sum(1 for k in ren if k not in info.vars), info.n0 + 1))
                ren[t] = m[t2]
        cs = set()
        for k, v in bs.facts.tru.items():
            k2 = bs.norm(k)
            if k2.op not in ("sphas", "ingroup", "mapin", "eq"):
                continue
            loc = [t for t in subterms(k2) if I.iter_local(info, t)]
            if loc and all(t in ren for t in loc):
                cs.add((replace(k2, ren), v))
        common = cs if common is None else common & cs
    key = ("filt", s, i)
    if common:
        def ax(q):
            if q.decide(lt(q.norm(i), slen(q, q.norm(s)))) is not True:
                return False
            for k, v in common:
                k = q.norm(k)
                q.assume(k if v else neg(k))
            return True
        st.instantiate(key, ax)
    return st.norm(replace(e, m))


# ======================================================================= maps
def map_in(I, st, m, k):
    """Condition: key k is in the map."""
    m, k = st.norm(m), st.norm(k)
    while True:
        if m.op == "m_empty":
            return FALSE
        if m.op == "m_ins":
            d = st.need(eq(k, m.a[1]))
            if d:
                return TRUE
            m = st.norm(m.a[0])
        elif m.op == "m_rm":
            if st.need(eq(k, m.a[1])):
                return FALSE
            m = st.norm(m.a[0])
        else:
            return mk("mapin", m, k)


def map_val(I, st, m, k):
    m, k = st.norm(m), st.norm(k)
    while True:
        if m.op == "m_ins":
            if st.need(eq(k, m.a[1])):
                return m.a[2]
            m = st.norm(m.a[0])
        elif m.op == "m_rm":
            m = st.norm(m.a[0])
        else:
            return mk("mapval", m, k)


# ================================================================ sparse sets
TABLES = set()  # storages whose lookup table is read directly


def table_known(I, st, s):
    """The lookup table is longer than every id in the storage."""
    TABLES.add(s)
    for k, v in list(st.facts.tru.items()):
        if v and k.op == "sphas" and k.a[0] is s:
            st.assume(lt(k.a[1], slen(st, mk("fld", s, 0, sp_idx()))))


def sps_base_axiom(I, st, s, e):
    """Ids are looked up through their position and back."""
    p = mk("posv", s, e)
    n = slen(st, mk("fld", s, 0, SP["ent"]))
    st.assume(lt(p, n))
    if s in TABLES:
        st.assume(lt(e, slen(st, mk("fld", s, 0, sp_idx()))))
    st.assume(eq(mk("get", mk("fld", s, 0, SP["ent"]), st.norm(p)), e))


def sps_len(I, st, s):
    s = st.norm(s)
    if s.op == "sp_empty":
        return ZERO
    if s.op == "sp_swap":
        return sps_len(I, st, s.a[0])
    if s.op == "sp_add":
        n = sps_len(I, st, s.a[0])
        return n if st.need(sps_has(I, st, s.a[0], s.a[1])) else add(n, ONE)
    if s.op == "sp_rm":
        n = sps_len(I, st, s.a[0])
        return sub(n, ONE) if st.need(sps_has(I, st, s.a[0], s.a[1])) else n
    if s.op == "sp_batch":
        return st.norm(mk("splen", s))
    SPSBASE.add(s)
    return slen(st, mk("fld", s, 0, SP["ent"]))


def sps_has(I, st, s, e):
    s, e = st.norm(s), st.norm(e)
    if s.op == "sp_empty":
        return FALSE
    if s.op == "sp_swap":
        return sps_has(I, st, s.a[0], e)
    if s.op == "sp_add":
        if st.need(eq(e, s.a[1])):
            return TRUE
        return sps_has(I, st, s.a[0], e)
    if s.op == "sp_rm":
        if st.need(eq(e, s.a[1])):
            return FALSE
        return sps_has(I, st, s.a[0], e)
    if s.op == "sp_batch":
        return mk("sphas", s, e)
    ax = I.sps_ax.get(s)
    if ax is not None:
        st.instantiate(("sp", s, e), lambda q: ax(I, q, q.norm(e)))
    for key, fn in st.hooks.get(s, ()):
        st.instantiate(key + (s, e), fn(e))
    c = st.norm(mk("sphas", s, e))
    if s in TABLES and st.decide(c) is None:
        st.assume(disj([neg(c), lt(e, slen(st, mk("fld", s, 0, sp_idx())))]))
        c = st.norm(c)
    if st.decide(c):
        sps_base_axiom(I, st, s, e)
    elif e.op == "get" and e.a[0] is st.norm(mk("fld", s, 0, SP["ent"])) and st.decide(lt(e.a[1], sps_len(I, st, s))):
        sps_ent(I, st, s, e.a[1])
        return TRUE
    return c


def sps_idx(I, st, s, e):
    """Position of e, which is known to be in s."""
    s, e = st.norm(s), st.norm(e)
    if s.op == "sp_swap":
        p = sps_idx(I, st, s.a[0], e)
        if st.need(eqi(p, s.a[1])):
            return s.a[2]
        if st.need(eqi(p, s.a[2])):
            return s.a[1]
        return p
    if s.op == "sp_add":
        if st.need(sps_has(I, st, s.a[0], e)):
            return sps_idx(I, st, s.a[0], e)
        return sps_len(I, st, s.a[0])
    if s.op == "sp_rm":
        if not st.need(sps_has(I, st, s.a[0], s.a[1])):
            return sps_idx(I, st, s.a[0], e)
        p, q = sps_idx(I, st, s.a[0], e), sps_idx(I, st, s.a[0], s.a[1])
        if st.need(lt(p, q)):
            return p
        return mk("posv", s, e)
    if s.op in ("sp_batch", "sp_empty"):
        return mk("posv", s, e)
    sps_base_axiom(I, st, s, e)
    return st.norm(mk("posv", s, st.norm(e)))


def sps_ent(I, st, s, i):
    """Id at position i < len."""
    s, i = st.norm(s), st.norm(i)
    if s.op == "sp_swap":
        if st.need(eqi(i, s.a[1])):
            return sps_ent(I, st, s.a[0], s.a[2])
        if st.need(eqi(i, s.a[2])):
            return sps_ent(I, st, s.a[0], s.a[1])
        return sps_ent(I, st, s.a[0], i)
    if s.op == "sp_add":
        if st.need(sps_has(I, st, s.a[0], s.a[1])) or not st.need(eqi(i, sps_len(I, st, s.a[0]))):
            return sps_ent(I, st, s.a[0], i)
        return s.a[1]
    if s.op in SPS_OPS:
        return mk("get", mk("fld", s, 0, SP["ent"]), i)
    x = mk("get", mk("fld", s, 0, SP["ent"]), i)

    def ax(q):
        s1, i1 = q.norm(s), q.norm(i)
        d = q.decide(lt(i1, sps_len(I, q, s1)))
        if d:
            x0 = q.norm(x)
            q.assume(mk("sphas", s1, x0))
            q.assume(eqi(mk("posv", q.norm(s1), q.norm(x0)), q.norm(i1)))
        return d is not None

    st.instantiate(("ent", s, i), ax)
    if I.nz_ent:
        st.assume(ge0(sub(st.norm(x), ONE)))
    return st.norm(x)


def sps_dat(I, st, s, i):
    s, i = st.norm(s), st.norm(i)
    if s.op == "sp_swap":
        if st.need(eqi(i, s.a[1])):
            return sps_dat(I, st, s.a[0], s.a[2])
        if st.need(eqi(i, s.a[2])):
            return sps_dat(I, st, s.a[0], s.a[1])
        return sps_dat(I, st, s.a[0], i)
    if s.op == "sp_add":
        if st.need(sps_has(I, st, s.a[0], s.a[1])):
            if st.need(eqi(i, sps_idx(I, st, s.a[0], s.a[1]))):
                return s.a[2]
        elif st.need(eqi(i, sps_len(I, st, s.a[0]))):
            return s.a[2]
        return sps_dat(I, st, s.a[0], i)
    return st.norm(mk("get", mk("fld", s, 0, SP["dat"]), i))


def sps_field(I, st, s, i):
    """The id and value arrays of a changed storage, as sequences."""
    if s.op == "sp_swap" and i in SP.values():
        b = st.norm(proj(I, st, s.a[0], fstep(0, i)))
        x, y = sget(I, st, b, s.a[1]), sget(I, st, b, s.a[2])
        return mk("s_store", mk("s_store", b, s.a[1], y), s.a[2], x)
    return None


# ====================================================================== locks
def lockname(I, st, L):
    return I.lockcls.get(L, "lock") + " " + show(L)


def lock_class(I, ty):
    if isinstance(ty, str) and ty.startswith(RELOCK[0]):
        return ty[len(RELOCK[0]):]
    s = I.p.canon(ty) if ty is not None else "?"
    if "ComponentStorage" in s:
        return "storage"
    if "Resource" in s:
        return "resource"
    if s.split("::")[-1] == "EntityManager":
        return "entities"
    if s == "group::Group" or s.split("::")[-1] == "Group":
        return "group"
    return "other:" + s


RANK = {"entities": 0, "group": 1, "storage": 2}


def lockclass(I, L):
    """What kind of object a lock protects."""
    c = I.lockcls.get(L)
    if c is None:
        for k, v in list(I.lockcls.items()):
            if shape(k) == shape(L):
                c = I.lockcls[L] = v
                break
    return c


def same_lock(I, st, a, b):
    """Do two lock places coincide? True / False / None"""
    if a is b:
        return True
    if a.op == "ref" and b.op == "ref" and a.a[0] is b.a[0] and len(a.a) == len(b.a):
        res = True
        for x, y in zip(a.a[1:], b.a[1:]):
            if x is y:
                continue
            if x.op == "f" and y.op == "f":
                return False
            if x.op == "i" and y.op == "i":
                d = st.decide(eqi(x.a[0], y.a[0]))
            elif x.op == "key" and y.op == "key":
                d = st.decide(eq(x.a[0], y.a[0]))
            else:
                d = None
            if d is False:
                return False
            if d is None:
                res = None
        return res
    if I.lockcls.get(a) != I.lockcls.get(b):
        return False
    return None


def acquire(I, st, lref, mode, ty, blocking=True, upg=False):
    L = st.norm(lref)
    cls = lock_class(I, ty)
    I.lockcls[L] = cls
    I.count("P04:acquire")
    if L in I.owned:
        return mk("guard", L, mode, ZERO)
    for g in st.held if blocking else ():
        if g.op == "gset":
            gl = g.a[1].a[0]
            hc = I.lockcls.get(gl, "?")
        elif g.op == "guard":
            gl = g.a[0]
            hc = I.lockcls.get(gl, "?")
        else:
            continue
        if cls in RANK and hc in RANK:
            if RANK[hc] > RANK[cls]:
                st.fail("P04", "takes the %s lock while holding a %s lock (order: entities, groups, storages)" % (cls, hc))
        elif cls != hc and (cls in RANK) != (hc in RANK):
            pass
        if hc == cls == "storage":
            storage_order(I, st, gl, L)
        if hc == cls == "group" and g.op != "gset":
            group_order(I, st, gl, L)
        if g.op == "gset":
            if hc == cls and not I.gset_disjoint(st, g, L):
                st.fail("P04", "may take a %s lock that is already held from an earlier iteration" % cls)
            continue
        same = same_lock(I, st, gl, L)
        if same is True:
            st.fail("P04", "takes %s while already holding it" % lockname(I, st, L))
        elif same is None and hc == cls:
            if mode == "w" or upg or g.a[1] == "w":
                st.fail("P04", "may take the same %s lock twice: %s and %s" % (cls, show(gl), show(L)))
    ep = st.fresh("ep")
    g = mk("guard", L, mode, ep)
    st.ev("acq", L, mk("str", "u" if upg else mode), mk("str", cls), info=st.held)
    st.held = st.held + (g,)
    enter(I, st, L, cls, frozen(I, st) or ep)
    return g


def lock_key(st, L):
    """The type under which a storage is registered, from its lock's place."""
    ks = [e.a[0] for e in L.a[1:] if e.op == "key"] if L.op == "ref" else []
    return st.norm(ks[-1]) if ks else None


def group_order(I, st, held, L):
    """Groups are locked in the order of their creation."""
    if held.op != "ref" or L.op != "ref" or shape(held) != shape(L) or held is L:
        return
    x, y = [[e.a[0] for e in r.a[1:] if e.op == "i"] for r in (held, L)]
    if len(x) == 1 and len(y) == 1 and st.decide(lt(x[0], y[0])) is not True and st.decide(eqi(x[0], y[0])) is not True:
        st.fail("P04", "takes %s while holding %s, which may have been made later" % (lockname(I, st, L), lockname(I, st, held)))


def storage_order(I, st, held, L):
    """Two storages are locked at once: by order of their types, so that no two
    threads can wait for each other.  Recorded when that order is not known."""
    a, b = lock_key(st, held), lock_key(st, L)
    I.count("P04:pair")
    if a is None or b is None:
        st.ev("pair", held, L, info=False)
        return
    if st.decide(le(mk("tyrank", a), mk("tyrank", b))) is True:
        return
    own = False
    for g in st.held:
        q = g.a[1] if g.op == "gset" else g
        if q.op == "guard" and q.a[1] == "w" and I.lockcls.get(q.a[0]) == "group":
            for x, y in ((a, b), (b, a)):
                if x.op == "gtyp" and (y.op == "gtyp" and x.a[0] is y.a[0] or any(st.norm(mk("gtyp", x.a[0], x.a[1], k)) is y for k in (0, 1))) and (x.a[0] is q.a[0] or g.op == "gset" and shape(x.a[0]) == shape(q.a[0])):
                    own = True
    st.ev("pair", held, L, info=own)


def frozen(I, st):
    """While the id table is locked exclusively no one else can change which
    entities are in a storage or group: contents keep their identity."""
    for g in st.held:
        if g.op == "guard" and g.a[1] == "w" and I.lockcls.get(g.a[0]) == "entities":
            return g.a[2]
    return None


def enter(I, st, L, cls, ep):
    """Contents behind a lock we have just taken."""
    inner = mk("inner", L)
    v = None
    if L.op == "ref":
        try:
            v = st.norm(I.get(st, L.a[0], L.a[1:]))
        except Exception as ex:
            if type(ex).__name__ == "NeedSplit":
                raise
    if v is not None and v.op == "lock":
        st.mem[inner] = v.a[0]
        return
    if frozen(I, st) is not None and inner in st.mem and (cls == "group" or mk("boxof", L) in st.mem):
        return
    if cls == "storage":
        st.mem[inner] = mk("box", mk("boxof", L))
        st.mem[mk("boxof", L)] = mk("locked", L, ep)
        SPSBASE.add(mk("locked", L, ep))
    elif cls == "resource":
        st.mem[inner] = mk("box", mk("boxof", L))
        st.mem[mk("boxof", L)] = mk("locked", L, ep)
    elif cls == "group":
        st.mem[inner] = mk("grpval", L, ep)
        I.group_axioms(st, L)
    else:
        st.mem[inner] = mk("locked", L, ep)


def release(I, st, g):
    g = st.norm(g)
    L = g.a[0]
    if g in st.held:
        h = list(st.held)
        h.remove(g)
        st.held = tuple(h)
        st.ev("rel", L, mk("str", g.a[1]))
        # a lock made in this function keeps its contents
        if L.op == "ref":
            try:
                v = st.norm(I.get(st, L.a[0], L.a[1:]))
                if v.op == "lock":
                    I.put(st, L.a[0], L.a[1:], mk("lock", st.mem.get(mk("inner", L), v.a[0])))
            except Exception as ex:
                if type(ex).__name__ == "NeedSplit":
                    raise
        return True
    # a guard taken from a collection whose elements are guards of one loop
    for s in st.held:
        if s.op == "gset" and covers_gset(s, g):
            return True
    return False


def covers_gset(s, g):
    p = s.a[1]
    return p.op == "guard" and g.op == "guard" and p.a[1] == g.a[1] and shape(p.a[0]) == shape(g.a[0])


def shape(L):
    if L.op != "ref":
        return (L,)
    return (L.a[0],) + tuple((e.op,) if e.op in ("i", "key") else e for e in L.a[1:])


def guards_in(v, out):
    if v.op == "guard":
        out.append(v)
        return
    if v.op in ("ref",):
        return
    for x in v.a:
        if isinstance(x, T):
            guards_in(x, out)


def drop(I, st, v, ty):
    """Drop a value: release guards, run local Drop impls."""
    from .interp import Out
    v = st.norm(v)
    outs = [Out("ret", st, UNIT)]
    t = I.p.ty(ty)
    if v.op == "guard":
        release(I, st, v)
        return outs
    if v.op == "s_filt" or (v.op in SEQ and t["k"] == "adt" and t["path"].endswith("::Vec")):
        drop_seq(I, st, v)
        return outs
    if v.op == "adt" and v.a[0] == "xa::vec":
        drop_seq(I, st, v.a[2])
        return outs
    if t["k"] == "param":
        if v in copies(st):
            st.fail("P26", "drops a component that was also read out of its place: %s" % show(v)[:200])
        st.ev("drop", v)
        return outs
    if t["k"] == "adt" and t.get("local"):
        for f in I.p.roots:
            if f["name"] == "drop" and (f.get("impl_trait") or "").endswith("Drop") and I.p.self_adt(f) == I.p.adt_name(ty):
                return I.exec(st, f, [heapref(I, st, v)])
    if v.op in ("adt", "tup", "clo", "st"):
        gs = []
        guards_in(v, gs)
        for g in gs:
            release(I, st, g)
        for x in v.a:
            if isinstance(x, T) and x.op in SEQ:
                drop_seq(I, st, x)
    elif v.op == "box":
        gs = []
        c = st.mem.get(st.norm(v.a[0]))
        if c is not None:
            guards_in(st.norm(c), gs)
            for g in gs:
                release(I, st, g)
    return outs


def copies(st):
    """Components read out bit by bit that still have their first place."""
    r = []
    for e in st.trace:
        if e.k == "dup":
            r.append(st.norm(e.a[0]))
        elif e.k == "undup" and st.norm(e.a[0]) in r:
            r.remove(st.norm(e.a[0]))
    return r


def drop_seq(I, st, v):
    n = st.norm(slen(st, v)) if v.op == "s_store" else None
    if n is not None and n.op == "int" and 0 <= n.a[0] <= 16:
        # elements were replaced: drop what is there now
        for i in range(n.a[0]):
            gs = []
            guards_in(st.norm(sget(I, st, v, num(i))), gs)
            for g in gs:
                release(I, st, g)
        return
    while v.op in SEQ:
        if v.op == "s_push":
            gs = []
            guards_in(v.a[1], gs)
            for g in gs:
                release(I, st, g)
        elif v.op == "s_filt":
            st.held = tuple(g for g in st.held if not (g.op == "gset" and g.a[0] == v.a[2]))
            st.ev("relset", mk("lid", v.a[2]))
        elif v.op == "s_ext":
            st.held = tuple(g for g in st.held if not (g.op == "gset" and g.a[0] == v.a[4]))
            st.ev("relset", mk("lid", v.a[4]))
        v = st.norm(v.a[0]) if v.op != "s_empty" else UNIT


def heapref(I, st, v, name="h"):
    r = mk("heap", st.fresh(name))
    st.mem[r] = v
    return ref(r)


# ============================================================ casts, operators
def pointee_ty(I, ty):
    t = I.p.ty(ty)
    return t.get("to") if t["k"] in ("ref", "ptr") else None


def erased_locals(I, c):
    return re.sub(r"'[a-z_0-9]+", "", c)


def cast(I, st, kind, v, src, dst):
    if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "FnPtrToPtr", "Subtype"):
        st_, dt = pointee_ty(I, src), pointee_ty(I, dst)
        if st_ is not None and dt is not None and kind != "Subtype" and "ReifyFn" not in kind:
            check_type_key(I, st, v, st_, dt)
        elif "Transmute" in kind:
            if v.op in ("box", "ref", "guard"):
                return v
            if src is not None and I.p.canon(src) != I.p.canon(dst):
                I.count("P01:cast")
                st.fail("P01", "transmutes %s into %s" % (I.p.canon(src), I.p.canon(dst)))
        return v
    if kind == "IntToInt":
        a, b = I.p.ty(src)["s"] if src is not None else "?", I.p.ty(dst)["s"]
        w = {"usize": 64, "u64": 64, "u128": 128, "isize": 63, "i64": 63, "u32": 32, "i32": 31, "u16": 16, "u8": 8, "bool": 1}
        if w.get(a, 0) and w.get(a, 0) <= w.get(b, 0):
            if v.op in ("bool",):
                return num(1 if v.a[0] else 0)
            return v
        if v.op == "int" and 0 <= v.a[0] < 1 << w.get(b, 0):
            return v
        if b in ("u8", "u16", "u32", "u64") and a in w and not is_bool(v):
            lim = num(1 << w[b])
            if st.need(conj([ge0(v), lt(v, lim)])):
                return v
            r = st.fresh("=int")
            st.assume(ge0(r))
            st.assume(lt(r, lim))
            return r
        st.doubt("narrowing cast %s -> %s" % (a, b))
        return st.fresh("=int")
    st.doubt("cast %s" % kind)
    return st.fresh("cast")


def check_type_key(I, st, v, sty, dty):
    """A pointer changes its pointee type."""
    a, b = I.p.canon(sty), I.p.canon(dty)
    if a == b:
        return
    sk, dk = I.p.ty(sty)["k"], I.p.ty(dty)["k"]
    if dk == "dyn" or dk == "slice" and sk == "array":
        if sk not in ("dyn", "slice"):
            # unsizing: remember what the allocation really holds
            root, elems = target(I, st, v)
            if not elems:
                st.rty[root] = mk("str", a)
        return
    if sk == "dyn" or v.op == "ref" and lock_of(v.a[0]) is not None:
        I.count("P01:downcast")
        root, elems = target(I, st, v)
        root = st.norm(root)
        want = st.rty.get(root)
        if want is not None:
            if want.a[0] != b:
                st.fail("P01", "treats a value of type %s as %s" % (want.a[0], b))
            return
        L = lock_of(root)
        if L is None:
            st.doubt("downcast of a pointer of unknown origin")
            return
        key = [e.a[0] for e in L.a[1:] if e.op == "key"] if L.op == "ref" else []
        if not key:
            st.fail("P01", "treats the data behind %s as %s: its type is not known" % (lockname(I, st, L), b))
            return
        k = st.norm(key[-1])
        x = k.a[0] if k.op == "typeid" else None
        cls = I.lockcls.get(L)
        y = I.registered_type(cls, b)
        ok = y is not None and k is st.norm(mk("typeid", y))
        if not ok:
            st.fail("P01", "treats the storage registered for %s as %s" % (x if x else show(k), b))
        st.ev("downcast", root, mk("str", b))
        return
    st.doubt("pointer cast %s -> %s" % (a, b))


def binop(I, st, op, a, b):
    checked = op.endswith("WithOverflow")
    o = op.replace("WithOverflow", "").replace("Unchecked", "")
    if o == "Add":
        r = add(a, b)
        return tup(r, FALSE) if checked else r
    if o == "Sub":
        r = sub(a, b)
        if checked:
            return tup(r, lt(a, b))
        if st.decide(le(b, a)) is not True:
            st.doubt("unchecked subtraction")
        return r
    if o == "Mul":
        if a.op == "int":
            r = scale(b, a.a[0])
        elif b.op == "int":
            r = scale(a, b.a[0])
        else:
            r = mk("mul", *sorted((a, b), key=lambda x: x.id))
        return tup(r, FALSE) if checked else r
    if o == "Eq":
        return eq_val(st, a, b)
    if o == "Ne":
        return neg(eq_val(st, a, b))
    if o == "Lt":
        return lt(a, b)
    if o == "Le":
        return le(a, b)
    if o == "Gt":
        return lt(b, a)
    if o == "Ge":
        return le(b, a)
    if o in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr") and a.op == b.op == "int" and a.a[0] >= 0 and b.a[0] >= 0:
        x, y = a.a[0], b.a[0]
        return num({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shl": x << min(y, 64) & (1 << 64) - 1, "Shr": x >> y}[o])
    if o == "Shr" and b.op == "int" and 0 <= b.a[0] < 63:
        return binop(I, st, "Div", a, num(1 << b.a[0]))
    if o == "Shl" and b.op == "int" and 0 <= b.a[0] < 63:
        return scale(a, 1 << b.a[0])
    from .interp import is_num, is_cond
    bits = not (is_bool(a) or is_bool(b) or is_cond(a) or is_cond(b)) and is_num(a) and is_num(b)
    if o == "BitAnd" and bits:
        r = mk("fld", mk("bits", *sorted((a, b), key=lambda x: x.id)), 0, 0)
        st.assume(ge0(r))
        st.assume(le(r, a))
        st.assume(le(r, b))
        return st.norm(r)
    if o in ("BitOr", "BitXor") and bits:
        st.doubt("operator %s" % op)
        return st.fresh("=int")
    if o == "BitAnd":
        return conj([a, b])
    if o == "BitOr":
        return disj([a, b])
    if o == "BitXor":
        return disj([conj([a, neg(b)]), conj([neg(a), b])])
    if o in ("Div", "Rem") and b.op == "int" and b.a[0] > 0 and not is_bool(a):
        q = mk("fld", mk("divided", a, b), 0, 0)
        r = sub(a, scale(q, b.a[0]))
        st.assume(ge0(q))
        st.assume(ge0(r))
        st.assume(lt(r, b))
        return st.norm(q if o == "Div" else r)
    st.doubt("operator %s" % op)
    return mk("bin_" + o, a, b)


def is_bool(t):
    return t.op in CONDOPS


CONDOPS = ("bool", "ge0", "eqz", "eq", "not", "and", "or", "isvar", "isvar2", "mapin", "sphas", "emhas", "qhas")


def eq_val(st, a, b):
    if b.op == "discr":
        a, b = b, a
    if a.op == "discr" and b.op == "discr":
        for v in range(a.a[1] - 1):
            if st.need(isvar(a.a[0], v, a.a[1])):
                return isvar(b.a[0], v, b.a[1])
        return isvar(b.a[0], a.a[1] - 1, b.a[1])
    if a.op == "discr" and b.op == "int":
        return isvar(a.a[0], b.a[0], a.a[1])
    if a.op in CONDOPS or b.op in CONDOPS:
        return disj([conj([a, b]), conj([neg(a), neg(b)])])
    return eq(a, b)


# ============================================================ library models
TAB = {}


def model(*names):
    def deco(f):
        for n in names:
            TAB[n] = f
        return f
    return deco


def ret(st, v=UNIT):
    from .interp import Out
    return [Out("ret", st, v)]


def forkpanic(st, ok, msg):
    """Fork: [panic outcomes], and True if the good path is possible (assumed)."""
    from .interp import Out
    out = []
    d = st.decide(ok)
    if d is not True:
        bad = st.clone()
        if bad.assume(neg(ok)):
            out.append(Out("panic", bad, None, msg))
    good = d is not False and st.assume(ok)
    return out, good


_key_cache = {}


def key_of(f):
    """Short name of a callee: Type.method or Trait.method."""
    path = f.get("rpath") or f.get("path") or "?"
    tr = f.get("trait")
    k = (path, tr)
    r = _key_cache.get(k)
    if r is not None:
        return r
    name = path.split("::")[-1]
    if tr:
        r = tr.split("<")[0].split("::")[-1] + "." + name
    else:
        p = path
        m = re.match(r"core::slice::<impl \[T\]>::(\w+)", p) or re.match(r"std::slice::<impl \[T\]>::(\w+)", p)
        if m:
            r = "slice." + m.group(1)
        else:
            while True:
                q = re.sub(r"::<[^<>]*>|<[^<>]*>", "", p)
                if q == p:
                    break
                p = q
            parts = [x for x in p.split("::") if x]
            r = ".".join(parts[-2:])
    _key_cache[k] = r
    return r


def lookup(I, f, args, st):
    path = f.get("rpath") or f.get("path") or "?"
    k = key_of(f)
    g = I.p.funcs.get(f["inst"]) if "inst" in f else None
    if I.parts and (g is None or not g["local"]):
        m = part_model(I, f, args, st)
        if m is not None:
            return m
    if g is not None and g["local"]:
        c = contract(I, g, args, st)
        if c is not None:
            return c
        return None
    if k in TAB:
        return TAB[k]
    if k.startswith("Iterator.") and k.split(".")[1] in ITER:
        return iter_model
    if "sync::atomic::Atomic" in path and (g is None or not g["local"]):
        return atomic
    if g is not None:
        return None
    tr = (f.get("trait") or "").split("::")[-1]
    if tr == "Iterator" or tr == "DoubleEndedIterator" or tr == "ExactSizeIterator":
        return iter_model
    return None


# ---- any query as the part of another ------------------------------------------
# A part is a sequence of qlen distinct ids qid(0..); it has at least these ids
# (qhas), an item per id it has, and a position the iteration is at.
def part(name, k=ZERO):
    return adt("xa::qit", 0, mk("str", name), k)


def qid(st, n, i):
    x = st.norm(mk("qid", n, i))
    st.assume(ge0(sub(x, ONE)))
    st.assume(mk("qhas", n, x))
    return st.norm(x)


def qlen(st, n):
    x = mk("qlen", n)
    st.assume(ge0(x))
    return st.norm(x)


def find_part(I, st, a):
    """Place of the part a call is about, or None."""
    v = st.norm(a)
    r = e = None
    for _ in range(6):
        if v.op == "adt":
            return (r, e) if v.a[0] == "xa::qit" and r is not None else None
        if v.op not in ("ref", "box"):
            return None
        r, e = v.a[0], tuple(v.a[1:]) if v.op == "ref" else ()
        try:
            v = st.norm(I.get(st, r, e))
        except Exception as ex:
            if type(ex).__name__ == "NeedSplit":
                raise
            return None
    return None


def part_model(I, f, args, st):
    name = (f.get("path") or "?").split("::")[-1]
    tr = (f.get("trait") or "").split("::")[-1].split("<")[0]
    if tr == "Queryable" and name == "query" and "inst" not in f:
        def query(I, st, a, c):
            t = I.p.canon(c.f["args"][0] if isinstance(c.f.get("args", [None])[0], int) else c.rargs[0])
            r = mk("heap", mk("str", "query of " + t))
            st.mem[r] = part(t)
            st.ev("query", mk("str", t), st.norm(a[0]))
            return ret(st, mk("box", r))
        return query
    if tr not in ("Iterator", "QueryIterator") or not args or name not in PART:
        return None
    if name in ("last", "count") and st.norm(args[0]).op == "adt" and st.norm(args[0]).a[0] == "xa::qit":
        return PART[name]
    at = find_part(I, st, args[0])
    if at is None:
        return None
    return PART[name]


def part_next(I, st, r, e, ids):
    v = st.norm(I.get(st, r, e))
    n, k = v.a[2:]
    if not st.need(lt(k, qlen(st, n))):
        return NONE
    x = qid(st, n, k)
    I.put(st, r, e, adt("xa::qit", 0, n, add(k, ONE)))
    it = mk("qitem", n, x)
    return some(tup(x, it) if ids else it)


def q_from_id(I, st, a, c):
    r, e = find_part(I, st, a[0])
    n = st.norm(I.get(st, r, e)).a[2]
    x = st.norm(a[1])
    return ret(st, some(mk("qitem", n, x)) if st.need(mk("qhas", n, x)) else NONE)


def q_size_hint(I, st, a, c):
    r, e = find_part(I, st, a[0])
    n, k = st.norm(I.get(st, r, e)).a[2:]
    rest = sub(qlen(st, n), k)
    lo, hi = mk("qlow", n, k), mk("qhigh", n, k)
    st.assume(ge0(lo))
    st.assume(le(lo, rest))
    known = mk("qbound", n, k)
    if not st.need(isvar(known, 1, 2)):
        return ret(st, tup(st.norm(lo), NONE))
    st.assume(le(rest, hi))
    return ret(st, tup(st.norm(lo), some(st.norm(hi))))


def q_nth(I, st, a, c):
    r, e = find_part(I, st, a[0])
    n, k = st.norm(I.get(st, r, e)).a[2:]
    i = st.norm(add(k, st.norm(a[1])))
    inside = st.need(lt(i, qlen(st, n)))
    I.put(st, r, e, adt("xa::qit", 0, n, add(i, ONE) if inside else qlen(st, n)))
    return ret(st, some(mk("qitem", n, qid(st, n, i))) if inside else NONE)


def q_last(I, st, a, c):
    v = st.norm(a[0])
    if v.op != "adt":
        v = st.norm(I.get(st, *find_part(I, st, v)))
    n, k = v.a[2:]
    if not st.need(lt(k, qlen(st, n))):
        return ret(st, NONE)
    return ret(st, some(mk("qitem", n, qid(st, n, st.norm(sub(qlen(st, n), ONE))))))


def q_count(I, st, a, c):
    v = st.norm(a[0])
    if v.op != "adt":
        v = st.norm(I.get(st, *find_part(I, st, v)))
    n, k = v.a[2:]
    if not st.need(le(k, qlen(st, n))):
        return ret(st, ZERO)
    return ret(st, st.norm(sub(qlen(st, n), k)))


PART = {"nth": q_nth, "last": q_last, "count": q_count,
        "next": lambda I, st, a, c: ret(st, part_next(I, st, *find_part(I, st, a[0]), False)),
        "next_with_id": lambda I, st, a, c: ret(st, part_next(I, st, *find_part(I, st, a[0]), True)),
        "from_id": q_from_id, "size_hint": q_size_hint}


# ---- contract primitives ------------------------------------------------------
def contract(I, g, args, st):
    if not g.get("impl_self") is not None:
        return None
    ad = I.p.self_adt(g)
    if ad == "SparseSet" and I.abs_sps and g.get("impl_trait") is None and g["name"] in SPS and g["name"] not in I.sps_skip:
        return SPS[g["name"]]
    if ad == "EntityManager" and I.abs_em and g["name"] in EM:
        return EM[g["name"]]
    if I.abs_grp and ad in I.group_data_adts() and g.get("impl_trait") is None and g["name"] in ("add", "remove", "make", "in_group"):
        return group_contract(g["name"], ad)
    return None


def tgt(I, st, a):
    r, e = target(I, st, a)
    return st.norm(r), tuple(st.norm(x) for x in e)


def getv(I, st, a):
    r, e = tgt(I, st, a)
    access(I, st, r, e, False)
    v = st.norm(I.get(st, r, e))
    if v.op == "ement":
        st.doubt("the list of living entities is read element by element")
    return v, r, e


def setv(I, st, a, v):
    r, e = tgt(I, st, a)
    access(I, st, r, e, True)
    I.put(st, r, e, v)


SPS = {}


def spsm(n):
    def d(f):
        SPS[n] = f
        return f
    return d


@spsm("new")
def _(I, st, a, c):
    return ret(st, mk("sp_empty", st.fresh("new")))


def known_true(st, c):
    c = st.norm(c)
    d = st.decide(c)
    if d is None:
        st.retry()
        d = st.decide(st.norm(c))
    return d is True


def sps_loc(r, e):
    return ref(r, *e)


@spsm("add")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    if st.norm(a[2]) is UNIT and known_true(st, sps_has(I, st, s, a[1])):
        return ret(st)  # overwriting () with ()
    st.ev("sps", mk("str", "add"), sps_loc(r, e), a[1], a[2])
    setv(I, st, a[0], mk("sp_add", s, st.norm(a[1]), st.norm(a[2])))
    return ret(st)


@spsm("add_batch")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    ids, _, _ = getv(I, st, a[1])
    data = st.norm(a[2])
    out, good = forkpanic(st, eqi(slen(st, ids), slen(st, data)), "assert_eq in add_batch")
    if good:
        st.ev("sps", mk("str", "add_batch"), sps_loc(r, e), ids, data)
        setv(I, st, a[0], mk("sp_batch", s, ids, data))
        out += ret(st)
    return out


@spsm("remove")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    x = st.norm(a[1])
    st.ev("sps", mk("str", "remove"), sps_loc(r, e), x)
    if st.need(sps_has(I, st, s, x)):
        v = sps_dat(I, st, s, sps_idx(I, st, s, x))
        setv(I, st, a[0], mk("sp_rm", s, x))
        return ret(st, some(v))
    return ret(st, NONE)


@spsm("clear")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    st.ev("sps", mk("str", "clear"), sps_loc(r, e))
    setv(I, st, a[0], mk("sp_empty", ZERO))
    return ret(st)


@spsm("swap_by_index")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    i, j = st.norm(a[1]), st.norm(a[2])
    if st.need(eqi(i, j)):
        return ret(st)
    n = sps_len(I, st, s)
    out, good = forkpanic(st, conj([lt(i, n), lt(j, n)]), "index out of range in swap_by_index")
    if good:
        st.ev("sps", mk("str", "swap"), sps_loc(r, e), i, j)
        setv(I, st, a[0], mk("sp_swap", s, i, j))
        out += ret(st)
    return out


@spsm("exist")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    return ret(st, sps_has(I, st, s, a[1]))


@spsm("len")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    return ret(st, sps_len(I, st, s))


@spsm("is_empty")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    return ret(st, eqi(sps_len(I, st, s), ZERO))


@spsm("get_index")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    if st.need(sps_has(I, st, s, a[1])):
        return ret(st, some(sps_idx(I, st, s, a[1])))
    return ret(st, NONE)


@spsm("get")
@spsm("get_mut")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    if st.need(sps_has(I, st, s, a[1])):
        return ret(st, some(ref(r, *(e + (fstep(0, SP["dat"]), istep(sps_idx(I, st, s, a[1])))))))
    return ret(st, NONE)


@spsm("get_unchecked")
@spsm("get_unchecked_mut")
def _(I, st, a, c):
    s, r, e = getv(I, st, a[0])
    I.count("P24:unchecked")
    if st.decide(sps_has(I, st, s, a[1])) is not True:
        st.fail("P24", "unchecked lookup of an id that is not known to be in the storage")
        if not st.need(sps_has(I, st, s, a[1])):
            # keep the path: what it reads is arbitrary
            return ret(st, heapref(I, st, st.fresh("wild")))
    return ret(st, ref(r, *(e + (fstep(0, SP["dat"]), istep(sps_idx(I, st, s, a[1]))))))


EM = {}


def emm(n):
    def d(f):
        EM[n] = f
        return f
    return d


def em_has(I, st, m, x):
    m, x = st.norm(m), st.norm(x)
    if m.op == "em_new":
        return FALSE
    if m.op == "em_alloc":
        if st.need(eq(x, m.a[1])):
            return TRUE
        return em_has(I, st, m.a[0], x)
    if m.op == "em_rm":
        if st.need(eq(x, m.a[1])):
            return FALSE
        return em_has(I, st, m.a[0], x)
    if m.op == "em_alloc_n":
        if st.need(conj([le(m.a[1], x), lt(x, m.a[2])])):
            return TRUE
        return em_has(I, st, m.a[0], x)
    return mk("emhas", m, x)


@emm("new")
def _(I, st, a, c):
    return ret(st, mk("em_new"))


@emm("has")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    return ret(st, em_has(I, st, m, a[1]))


@emm("entities")
def _(I, st, a, c):
    """The list of living entities, in an order that is not known here."""
    m, r, e = getv(I, st, a[0])
    return ret(st, heapref(I, st, mk("ement", m)))


@emm("allocate")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    x = st.fresh("id")
    st.assume(ge0(sub(x, ONE)))
    st.assume(neg(em_has(I, st, m, x)))
    st.ev("em", mk("str", "alloc"), sps_loc(r, e), x)
    setv(I, st, a[0], mk("em_alloc", m, x))
    return ret(st, x)


@emm("allocate_n")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    x = st.fresh("id")
    st.assume(ge0(sub(x, ONE)))
    y = add(x, st.norm(a[1]))
    st.ev("em", mk("str", "alloc_n"), sps_loc(r, e), x, y)
    setv(I, st, a[0], mk("em_alloc_n", m, x, y))
    return ret(st, adt("std::ops::Range", 0, x, y))


@emm("remove")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    st.ev("em", mk("str", "remove"), sps_loc(r, e), a[1])
    setv(I, st, a[0], mk("em_rm", m, st.norm(a[1])))
    return ret(st)


def group_contract(name, ad):
    def m(I, st, a, c):
        r, e = tgt(I, st, a[0])
        k = 0 if name == "make" else 1
        gw = name != "in_group"
        access(I, st, r, e, gw)
        x = st.norm(a[1]) if k else UNIT
        sides = []
        for b, wr in zip(a[1 + k:], group_writes(I, ad, name)):
            br, be = tgt(I, st, a[1 + k + len(sides)])
            v = st.norm(I.get(st, br, be))
            if v.op == "box":
                br, be = st.norm(v.a[0]), ()
            elif v.op == "ref":
                rr, ee = tgt(I, st, v)
                v2 = st.norm(I.get(st, rr, ee))
                if v2.op == "box":
                    br, be = st.norm(v2.a[0]), ()
            access(I, st, br, be, wr)
            sides.append((br, be, wr))
        locs = [ref(br, *be) for br, be, _ in sides]
        if name == "in_group":
            gv = st.norm(I.get(st, r, e))
            sv = [st.norm(I.get(st, br, be)) for br, be, _ in sides]
            cnd = mk("ingroup", ref(r, *e), x)
            st.ev("grp", mk("str", name), ref(r, *e), x, *locs, info=ad)
            return ret(st, cnd)
        n = st.fresh("gstep")
        st.ev("grp", mk("str", name), ref(r, *e), x, *locs, *(() if r.op == "inner" else (n,)), info=ad)
        if r.op == "inner":
            gv = st.norm(I.get(st, r, ()))
            if gv.op == "grpval":
                I.put(st, r, (), mk("grpval", gv.a[0], n))
        else:
            remade(I, st, r, e, ad, n)
        for br, be, wr in sides:
            if wr:
                old = st.norm(I.get(st, br, be))
                I.put(st, br, be, mk("arranged", old, n))
        return ret(st)
    return m


def remade(I, st, r, e, ad, n):
    """The data of a group that is not behind its lock: everything but its types is new."""
    v = next((v for v, x in I.group_data().items() if x == ad), None)
    if v is None:
        return
    d = st.norm(I.get(st, r, e))
    ps = I.group_types(v)
    path = next(t["path"] for t in I.p.types if t["k"] == "adt" and t["path"].split("::")[-1] == ad)
    I.put(st, r, e, adt(path, 0, *[st.norm(d.a[2 + i] if d.op == "adt" else mk("fld", d, 0, i)) if i in ps else mk("gpart", n, i)
                                   for i in range(len(I.group_fields()[v]))]))


def group_writes(I, ad, name):
    if name == "in_group":
        return (False, False)
    if ad.startswith("Full"):
        return (True, True)
    if ad.startswith("Partial"):
        return (True, False)
    return (False, False)


# ---- Vec and slices -------------------------------------------------------------
@model("Vec.new", "Vec.with_capacity")
def _(I, st, a, c):
    return ret(st, mk("s_empty"))


@model("Vec.push")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    x = st.norm(a[1])
    if r.op not in ("loc", "heap"):
        st.ev("push", ref(r, *e), x)
    setv(I, st, a[0], mk("s_push", v, x))
    return ret(st)


@model("Vec.pop")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = slen(st, v)
    if st.need(eqi(n, ZERO)):
        return ret(st, NONE)
    x = sget(I, st, v, sub(n, ONE))
    setv(I, st, a[0], mk("s_pop", v))
    return ret(st, some(x))


@model("Vec.len", "slice.len", "VecDeque.len")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    return ret(st, slen(st, v))


@model("Vec.is_empty", "slice.is_empty")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    return ret(st, eqi(slen(st, v), ZERO))


@model("Vec.clear")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    drop_seq(I, st, v)
    setv(I, st, a[0], mk("s_empty"))
    return ret(st)


@model("Vec.truncate")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    if st.need(lt(st.norm(a[1]), slen(st, v))):
        setv(I, st, a[0], mk("s_trunc", v, st.norm(a[1])))
    return ret(st)


@model("Vec.resize")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = st.norm(a[1])
    if st.need(le(n, slen(st, v))):
        setv(I, st, a[0], mk("s_trunc", v, n))
    else:
        setv(I, st, a[0], mk("s_ext", v, n, mk("bv", "r"), st.norm(a[2]), 0))
    return ret(st)


@model("Vec.resize_with")
def _(I, st, a, c):
    from .interp import Out
    v, r, e = getv(I, st, a[0])
    n = st.norm(a[1])
    if st.need(le(n, slen(st, v))):
        setv(I, st, a[0], mk("s_trunc", v, n))
        return ret(st)
    res = []
    for o in I.invoke(st, a[2], []):
        if o.kind == "ret":
            s = o.st
            setv(I, s, a[0], mk("s_ext", v, n, mk("bv", "r"), s.norm(o.val), 0))
            if s.norm(o.val).op == "sym":
                s.doubt("resize_with an impure function")
            res.append(Out("ret", s, UNIT))
        else:
            res.append(o)
    return res


@model("Vec.swap_remove")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n, i = slen(st, v), st.norm(a[1])
    out, good = forkpanic(st, lt(i, n), "swap_remove out of bounds")
    if good:
        x, last = sget(I, st, v, i), sget(I, st, v, sub(n, ONE))
        setv(I, st, a[0], mk("s_pop", mk("s_store", v, i, last)))
        out += ret(st, x)
    return out


@model("Vec.remove")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    i = st.norm(a[1])
    out, good = forkpanic(st, lt(i, slen(st, v)), "remove out of bounds")
    if good:
        x = sget(I, st, v, i)
        setv(I, st, a[0], mk("s_del", v, i))
        out += ret(st, x)
    return out


@model("Vec.insert")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    i = st.norm(a[1])
    out, good = forkpanic(st, le(i, slen(st, v)), "insert out of bounds")
    if good:
        setv(I, st, a[0], mk("s_ins", v, i, st.norm(a[2])))
        out += ret(st)
    return out


@model("Vec.reserve", "Vec.reserve_exact", "Vec.shrink_to_fit", "HashMap.reserve")
def _(I, st, a, c):
    return ret(st)


@model("Vec.as_slice", "Vec.as_mut_slice", "Vec.as_ref", "slice.as_ref", "Box.as_ref", "Box.as_mut")
def _(I, st, a, c):
    r, e = tgt(I, st, a[0])
    v = st.norm(I.get(st, r, e))
    if v.op == "box":
        return ret(st, ref(v.a[0]))
    return ret(st, ref(r, *e))


@model("slice.get", "slice.get_mut", "Vec.get")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    i = st.norm(a[1])
    if i.op == "adt":
        lo, hi = bounds(I, st, i, slen(st, v))
        if st.need(conj([le(lo, hi), le(hi, slen(st, v))])):
            return ret(st, some(ref(r, *(e + (mk("sub", lo, hi),)))))
        return ret(st, NONE)
    if st.need(lt(i, slen(st, v))):
        return ret(st, some(ref(r, *(e + (istep(i),)))))
    return ret(st, NONE)


@model("slice.get_unchecked", "slice.get_unchecked_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    i = st.norm(a[1])
    I.count("P24:unchecked")
    if st.decide(lt(i, slen(st, v))) is not True:
        st.fail("P24", "unchecked index %s is not known to be below %s" % (show(i), show(slen(st, v))))
    return ret(st, ref(r, *(e + (istep(i),))))


@model("slice.first", "slice.first_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    if st.need(eqi(slen(st, v), ZERO)):
        return ret(st, NONE)
    return ret(st, some(ref(r, *(e + (istep(ZERO),)))))


@model("slice.last", "slice.last_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = slen(st, v)
    if st.need(eqi(n, ZERO)):
        return ret(st, NONE)
    return ret(st, some(ref(r, *(e + (istep(sub(n, ONE)),)))))


@model("slice.swap")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    i, j = st.norm(a[1]), st.norm(a[2])
    n = slen(st, v)
    out, good = forkpanic(st, conj([lt(i, n), lt(j, n)]), "swap out of bounds")
    if good:
        x, y = sget(I, st, v, i), sget(I, st, v, j)
        setv(I, st, a[0], mk("s_store", mk("s_store", v, i, y), j, x))
        out += ret(st)
    return out


@model("slice.reverse")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    setv(I, st, a[0], v.a[0] if v.op == "s_rev" else mk("s_rev", v))
    return ret(st)


@model("slice.rotate_left", "slice.rotate_right")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n, k = slen(st, v), st.norm(a[1])
    out, good = forkpanic(st, le(k, n), "rotation by more than the length")
    if not good:
        return out
    if v.op in SEQ:
        st.doubt("rotates a built sequence")
    if c.path.endswith("rotate_right"):
        k = st.norm(sub(n, k))
    x = mk("bv", "rot")
    m = st.norm(sub(n, k))
    SEQBASE.add(v)
    w = mk("s_ext", mk("s_empty"), m, x, mk("get", v, add(x, k)), 0)
    setv(I, st, a[0], mk("s_ext", w, n, x, mk("get", v, sub(x, m)), 0))
    return out + ret(st)


@model("slice.fill")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    setv(I, st, a[0], mk("s_ext", mk("s_empty"), slen(st, v), mk("bv", "r"), st.norm(a[1]), 0))
    return ret(st)


@model("slice.to_vec", "slice.into_vec")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    return ret(st, v)


def bounds(I, st, rg, n):
    p = rg.a[0].split("::")[-1]
    f = rg.a[2:]
    if p == "Range":
        return f[0], f[1]
    if p == "RangeFrom":
        return f[0], n
    if p == "RangeTo":
        return ZERO, f[0]
    if p == "RangeFull":
        return ZERO, n
    if p in ("RangeToInclusive",):
        return ZERO, add(f[0], ONE)
    st.doubt("slice range %s" % p)
    return ZERO, n


@model("Index.index", "IndexMut.index_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    i = st.norm(a[1])
    if is_map(I, st, v, c):
        kv, _, _ = getv(I, st, a[1])
        out, good = forkpanic(st, map_in(I, st, v, kv), "no entry for key")
        if good:
            out += ret(st, ref(r, *(e + (mk("key", kv),))))
        return out
    if i.op == "adt":
        n = slen(st, v)
        lo, hi = bounds(I, st, i, n)
        out, good = forkpanic(st, conj([le(lo, hi), le(hi, n)]), "slice out of bounds")
        if good:
            out += ret(st, ref(r, *(e + (mk("sub", lo, hi),))))
        return out
    out, good = forkpanic(st, lt(i, slen(st, v)), "index out of bounds")
    if good:
        out += ret(st, ref(r, *(e + (istep(i),))))
    return out


def is_map(I, st, v, c):
    return v.op.startswith("m_") or "HashMap" in (c.f.get("rpath") or "") or "BTreeMap" in (c.f.get("rpath") or "")


@model("Deref.deref", "DerefMut.deref_mut")
def _(I, st, a, c):
    r, e = tgt(I, st, a[0])
    v = st.norm(I.get(st, r, e))
    if v.op == "guard":
        if c.path.split("::")[-1] == "deref_mut" and v.a[1] != "w":
            st.fail("P02", "mutable access through a read guard")
        inner = mk("inner", v.a[0])
        access(I, st, inner, (), c.path.split("::")[-1] == "deref_mut")
        return ret(st, ref(inner))
    if v.op == "box":
        return ret(st, ref(v.a[0]))
    if v.op == "ref":
        return ret(st, v) if "Box" not in c.path else ret(st, v)
    return ret(st, ref(r, *e))  # Vec -> slice


@model("Box.new", "Box.pin", "Arc.new", "Rc.new")
def _(I, st, a, c):
    r = mk("heap", st.fresh("box"))
    st.mem[r] = st.norm(a[0])
    if c.rargs:
        st.rty[r] = mk("str", I.p.canon(c.rargs[0]))
    return ret(st, mk("box", r))


@model("Box.new_uninit")
def _(I, st, a, c):
    r = mk("heap", st.fresh("box"))
    st.mem[r] = mk("s_empty")
    return ret(st, mk("box", r))


@model("Box.write", "boxed.box_assume_init_into_vec_unsafe", "boxed.box_new")
def _(I, st, a, c):
    v = st.norm(a[0])
    if v.op == "box":
        x = st.norm(I.get(st, v.a[0], ()))
        # MaybeUninit<[T;N]>: the write went to some nested field
        while x.op in ("adt", "st") or (x.op == "tup" and len(x.a) == 1):
            if x.op == "st":
                x = st.norm(x.a[2])
            elif x.op == "adt" and len(x.a) > 2:
                x = st.norm(x.a[-1])
            else:
                x = x.a[0]
        return ret(st, x)
    st.doubt("box_assume_init")
    return ret(st, st.fresh("vec"))


@model("boxed.into_vec", "Box.into_vec")
def _(I, st, a, c):
    v = st.norm(a[0])
    return ret(st, st.norm(I.get(st, v.a[0], ())) if v.op == "box" else v)


# ---- NonZero, TypeId, mem, misc ------------------------------------------------
@model("NonZero.get")
def _(I, st, a, c):
    v = st.norm(a[0])
    st.assume(ge0(sub(v, ONE)))
    return ret(st, v)


@model("NonZero.new")
def _(I, st, a, c):
    v = st.norm(a[0])
    if st.need(eqi(v, ZERO)):
        return ret(st, NONE)
    return ret(st, some(v))


@model("NonZero.new_unchecked")
def _(I, st, a, c):
    v = st.norm(a[0])
    I.count("P24:nonzero")
    if not st.need(ge0(sub(v, ONE))):
        st.fail("P24", "NonZero::new_unchecked(%s): not known to be nonzero" % show(v))
    return ret(st, v)


@model("TypeId.of")
def _(I, st, a, c):
    return ret(st, mk("typeid", I.p.canon(c.rargs[0])))


@model("mem.drop")
def _(I, st, a, c):
    return drop(I, st, a[0], c.rargs[0] if c.rargs else None)


@model("mem.forget", "ManuallyDrop.new")
def _(I, st, a, c):
    if c.path.endswith("new"):
        return ret(st, st.norm(a[0]))
    v = st.norm(a[0])
    t = I.p.ty(c.rargs[0]) if c.rargs and isinstance(c.rargs[0], int) else {}
    if v in copies(st):
        st.ev("undup", v)
    elif t.get("k") == "param":
        st.fail("P26", "forgets a component, which is never dropped: %s" % show(v)[:200])
    return ret(st)



@model("ptr.read", "const_ptr.read", "mut_ptr.read")
def _(I, st, a, c):
    from .interp import is_num
    v, r, e = getv(I, st, a[0])
    t = I.p.ty(c.rargs[0]) if c.rargs and isinstance(c.rargs[0], int) else {}
    if t.get("k") == "param":
        st.ev("dup", v)
    elif not is_num(v):
        st.doubt("a bitwise copy")
    return ret(st, v)


@model("ptr.write", "mut_ptr.write", "ptr.replace", "mut_ptr.replace")
def _(I, st, a, c):
    old, r, e = getv(I, st, a[0])
    t = I.p.ty(c.rargs[0]) if c.rargs and isinstance(c.rargs[0], int) else {}
    gives = c.path.split("::")[-1] == "replace"
    if not gives:
        if old in copies(st):
            st.ev("undup", old)
        elif t.get("k") == "param":
            st.fail("P26", "overwrites a component, which is never dropped: %s" % show(old)[:200])
        elif t.get("k") not in ("int", "uint", "bool", "prim"):
            st.doubt("overwrites a value without dropping it")
    setv(I, st, a[0], st.norm(a[1]))
    return ret(st, old if gives else UNIT)


@model("const_ptr.cast", "mut_ptr.cast")
def _(I, st, a, c):
    v = st.norm(a[0])
    if len(c.rargs) > 1 and all(isinstance(x, int) for x in c.rargs[:2]):
        check_type_key(I, st, v, c.rargs[0], c.rargs[1])
        return ret(st, v)
    return None


@model("ptr.swap", "mut_ptr.swap")
def _(I, st, a, c):
    x, r1, e1 = getv(I, st, a[0])
    y, r2, e2 = getv(I, st, a[1])
    setv(I, st, a[0], y)
    setv(I, st, a[1], x)
    return ret(st)


@model("Vec.set_len")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = st.norm(a[1])
    if st.need(eqi(n, slen(st, v))):
        return ret(st)
    t = I.p.ty(c.rargs[0]) if c.rargs and isinstance(c.rargs[0], int) else {}
    if st.need(lt(n, slen(st, v))):
        if t.get("k") == "param":
            st.fail("P26", "forgets components, which are never dropped")
        setv(I, st, a[0], mk("s_empty") if st.need(eqi(n, ZERO)) else mk("s_trunc", v, n))
    else:
        st.doubt("set_len beyond the length")
        setv(I, st, a[0], st.fresh("seq"))
    return ret(st)


@model("mem.swap")
def _(I, st, a, c):
    x, r1, e1 = getv(I, st, a[0])
    y, r2, e2 = getv(I, st, a[1])
    setv(I, st, a[0], y)
    setv(I, st, a[1], x)
    return ret(st)


@model("mem.replace", "Cell.replace")
def _(I, st, a, c):
    x, r, e = getv(I, st, a[0])
    setv(I, st, a[0], st.norm(a[1]))
    return ret(st, x)


@model("mem.take")
def _(I, st, a, c):
    x, r, e = getv(I, st, a[0])
    d = default_of(I, st, c.rargs[0])
    setv(I, st, a[0], d)
    return ret(st, x)


def default_of(I, st, ty):
    t = I.p.ty(ty)
    p = t.get("path", "")
    if p.endswith("::Vec"):
        return mk("s_empty")
    if p.endswith("HashMap"):
        return mk("m_empty")
    if p == OPT:
        return NONE
    if t["k"] == "int":
        return ZERO
    if t["k"] == "bool":
        return FALSE
    if t["k"] == "tuple" and not t["args"]:
        return UNIT
    if p.endswith("PhantomData"):
        return adt(p, 0)
    st.doubt("default of %s" % t["s"])
    return st.fresh("default")


@model("Default.default", "PhantomData.default")
def _(I, st, a, c):
    return ret(st, default_of(I, st, c.t["rty"] if c.t else None))


@model("Clone.clone", "ToOwned.to_owned")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    return ret(st, v)


@model("PartialEq.eq", "PartialEq.ne", "PartialEq.equal")
def _(I, st, a, c):
    if "inst" in c.f and not c.path.endswith("::ne"):
        g = I.p.funcs[c.f["inst"]]
        if g.get("blocks"):
            return I.exec(st.clone(), g, a)
    x, _, _ = getv(I, st, a[0])
    y, _, _ = getv(I, st, a[1])
    n = 0
    while x.op == "ref" and y.op == "ref" and n < 3:
        x, y = st.norm(I.get(st, x.a[0], x.a[1:])), st.norm(I.get(st, y.a[0], y.a[1:]))
        n += 1
    r = eq_val(st, x, y)
    return ret(st, neg(r) if c.path.endswith("::ne") else r)


def ordm(fn):
    def m(I, st, a, c):
        x, _, _ = getv(I, st, a[0])
        y, _, _ = getv(I, st, a[1])
        x, y = ranked(I, c, x), ranked(I, c, y)
        r = fn(x, y)
        if I.unroll and x.op == y.op == "tyrank":
            # Iterations are told apart here: explore the two orders of the
            # first pair only, all others follow it.
            d = st.decide(r)
            if d is None and st.tydir is not None:
                st.assume(r if st.tydir else neg(r))
                d = st.tydir
            if d is None:
                d = st.need(r)
            if st.tydir is None:
                st.tydir = d
            r = TRUE if d else FALSE
        return ret(st, r)
    return m


def ranked(I, c, x):
    """Type ids are totally ordered by an unknown, fixed rank."""
    return mk("tyrank", x) if c.rargs and I.p.canon(c.rargs[0]) == "std::any::TypeId" or x.op in ("typeid", "gtyp") else x


def orderc(i):
    return adt("std::cmp::Ordering", i)


@model("Ord.cmp", "PartialOrd.partial_cmp")
def _(I, st, a, c):
    x, _, _ = getv(I, st, a[0])
    y, _, _ = getv(I, st, a[1])
    x, y = ranked(I, c, x), ranked(I, c, y)
    r = orderc(0) if st.need(lt(x, y)) else orderc(1) if st.need(eqi(x, y)) else orderc(2)
    return ret(st, some(r) if c.path.endswith("partial_cmp") else r)


TAB["PartialOrd.lt"] = ordm(lt)
TAB["PartialOrd.le"] = ordm(le)
TAB["PartialOrd.gt"] = ordm(lambda x, y: lt(y, x))
TAB["PartialOrd.ge"] = ordm(lambda x, y: le(y, x))


@model("Ord.min", "cmp.min")
def _(I, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return ret(st, x if st.need(le(x, y)) else y)


@model("Ord.max", "cmp.max")
def _(I, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return ret(st, y if st.need(le(x, y)) else x)


@model("usize.next_power_of_two", "num.next_power_of_two")
def _(I, st, a, c):
    n, p = st.norm(a[0]), st.fresh("=int")
    for x in (le(n, p), le(ONE, p), disj([le(p, ONE), le(p, sub(add(n, n), ONE))])):
        st.assume(x)
    return ret(st, p)


@model("usize.saturating_sub", "num.saturating_sub")
def _(I, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return ret(st, sub(x, y) if st.need(le(y, x)) else ZERO)


@model("usize.checked_sub", "num.checked_sub")
def _(I, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return ret(st, some(sub(x, y)) if st.need(le(y, x)) else NONE)


@model("usize.wrapping_sub", "num.wrapping_sub", "num.unchecked_sub")
def _(I, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    if st.need(le(y, x)):
        return ret(st, sub(x, y))
    return ret(st, st.fresh("=int"))


@model("usize.abs_diff", "num.abs_diff")
def _(I, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return ret(st, sub(x, y) if st.need(le(y, x)) else sub(y, x))


@model("usize.checked_add", "num.checked_add", "NonZero.checked_add")
def _(I, st, a, c):
    return ret(st, some(add(st.norm(a[0]), st.norm(a[1]))))


@model("usize.wrapping_add", "num.wrapping_add", "num.saturating_add", "NonZero.saturating_add", "usize.saturating_add", "num.unchecked_add")
def _(I, st, a, c):
    return ret(st, add(st.norm(a[0]), st.norm(a[1])))


@model("Into.into", "From.from")
def _(I, st, a, c):
    src = c.rargs[0] if c.rargs else None
    dst = c.t["rty"] if c.t else None
    v = st.norm(a[0])
    if c.path.endswith("::from") and c.f.get("args"):
        dst = c.f["args"][0]
    if src is not None and dst is not None:
        if I.p.canon(src) == I.p.canon(dst) or I.p.is_nonzero(src) and I.p.ty(dst)["k"] == "int":
            return ret(st, v)
        ds = I.p.canon(dst)
        if I.p.ty(dst)["k"] == "int":
            return ret(st, v if I.p.ty(src)["k"] != "param" or I.into_id else mk("into", v))
        if ds.startswith("std::vec::Vec<"):
            if v.op == "box":
                return ret(st, st.norm(I.get(st, v.a[0], ())))
            if v.op == "ref":
                return ret(st, st.norm(I.get(st, v.a[0], v.a[1:])))
            return ret(st, mk("intovec", v))
        if ds == "group::Group":
            return ret(st, mk("intogroup", v))
        if ds.startswith("std::boxed::Box<"):
            return TAB["Box.new"](I, st, a, c)
    st.doubt("conversion %s" % c.path)
    return ret(st, mk("conv", v))


@model("process.abort", "process.exit", "intrinsics.abort", "hint.unreachable_unchecked")
def _(I, st, a, c):
    from .interp import Out
    if c.path.endswith("unreachable_unchecked"):
        I.count("P24:unreachable")
        st.fail("P24", "reaches unreachable_unchecked")
    return [Out("panic", st, None, c.path.split("::")[-1])]


@model("mem.size_of", "mem.align_of", "mem.needs_drop")
def _(I, st, a, c):
    """The same for a type each time, otherwise unknown."""
    n = c.path.split("::")[-1]
    if n == "needs_drop":
        return ret(st, mk("needsdrop", I.p.canon(c.rargs[0])))
    return ret(st, sym("=int%s:%s" % (n, I.p.canon(c.rargs[0]))))


@model("any.type_name")
def _(I, st, a, c):
    return ret(st, mk("str", I.p.canon(c.rargs[0])))


# ---- panics and formatting ------------------------------------------------------
def panicm(I, st, a, c):
    from .interp import Out
    return [Out("panic", st, None, "panic")]


for n in ("rt.panic_fmt", "panicking.panic_fmt", "panicking.panic", "panicking.assert_failed", "option.unwrap_failed", "option.expect_failed",
          "result.unwrap_failed", "panicking.panic_display", "panicking.panic_explicit", "rt.begin_panic", "panicking.unreachable_display",
          "panicking.panic_nounwind", "panicking.panic_str_2015", "panicking.panic_bounds_check", "rt.panic_display", "panicking.assert_failed_inner",
          "rt.panic_explicit", "panicking.unreachable_default_msg"):
    TAB[n] = panicm


def fmtm(I, st, a, c):
    return ret(st, mk("fmt", *[x for x in a]))


for n in ("Arguments.from_str", "Arguments.new", "Argument.new_display", "Argument.new_debug", "DebugStruct.field", "DebugStruct.finish",
          "Formatter.debug_struct", "Formatter.debug_struct_field2_finish", "Formatter.debug_struct_field3_finish", "Formatter.debug_tuple_field1_finish",
          "Arguments.new_const", "Arguments.new_v1", "fmt.format", "Formatter.write_str", "Formatter.write_fmt"):
    TAB[n] = fmtm


@model("io._print", "io._eprint", "stdio._print", "stdio._eprint")
def _(I, st, a, c):
    return ret(st)


# ---- HashMap ---------------------------------------------------------------------
def keyarg(I, st, a):
    v = st.norm(a)
    n = 0
    while v.op == "ref" and n < 3:
        v = st.norm(I.get(st, v.a[0], v.a[1:]))
        n += 1
    return v


@model("HashMap.new", "HashMap.with_capacity")
def _(I, st, a, c):
    return ret(st, mk("m_empty"))


@model("HashMap.get", "HashMap.get_mut")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    k = keyarg(I, st, a[1])
    if st.need(map_in(I, st, m, k)):
        return ret(st, some(ref(r, *(e + (mk("key", k),)))))
    return ret(st, NONE)


@model("HashMap.contains_key")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    return ret(st, map_in(I, st, m, keyarg(I, st, a[1])))


@model("HashMap.insert")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    k = keyarg(I, st, a[1])
    had = st.need(map_in(I, st, m, k))
    old = some(map_val(I, st, m, k)) if had else NONE
    st.ev("mapins", ref(r, *e), k, st.norm(a[2]), bool_(had))
    setv(I, st, a[0], mk("m_ins", m, k, st.norm(a[2])))
    return ret(st, old)


@model("HashMap.remove")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    k = keyarg(I, st, a[1])
    st.ev("maprm", ref(r, *e), k)
    if st.need(map_in(I, st, m, k)):
        old = some(map_val(I, st, m, k))
        setv(I, st, a[0], mk("m_rm", m, k))
        return ret(st, old)
    return ret(st, NONE)


@model("HashMap.len")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    return ret(st, mk("maplen", m))


@model("HashMap.is_empty")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    return ret(st, eqi(mk("maplen", m), ZERO))


@model("HashMap.entry")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    k = keyarg(I, st, a[1])
    had = st.need(map_in(I, st, m, k))
    return ret(st, adt("std::collections::hash_map::Entry", 0 if had else 1, adt("xa::mapentry", 0, ref(r, *e), k)))


def entry_of(st, v):
    """(reference of the map, key, occupied) of an entry or of its inner part."""
    v = st.norm(v)
    if v.op == "adt" and v.a[0] == "xa::mapentry":
        return v.a[2], st.norm(v.a[3]), None
    if v.op == "adt" and len(v.a) == 3:
        i = st.norm(v.a[2])
        if i.op == "adt" and i.a[0] == "xa::mapentry":
            return i.a[2], st.norm(i.a[3]), v.a[1] == 0
    return None


def entry_ins(I, st, mref, k, x):
    m, r, e = getv(I, st, mref)
    had = st.need(map_in(I, st, m, k))
    st.ev("mapins", ref(r, *e), k, st.norm(x), bool_(had))
    setv(I, st, mref, mk("m_ins", m, k, st.norm(x)))
    return ref(r, *(e + (mk("key", k),)))


def entry_default(kind):
    def f(I, st, a, c):
        en = entry_of(st, a[0])
        if en is None:
            return I.opaque(st, c.f, a, c.t)
        mref, k, occ = en
        if occ:
            return ret(st, ref(mref.a[0], *(tuple(mref.a[1:]) + (mk("key", k),))))
        if kind == "value":
            return ret(st, entry_ins(I, st, mref, k, a[1]))
        out = []
        for o in I.invoke(st, a[1], [] if kind == "with" else [st.norm(k)]):
            if o.kind == "ret":
                o.val = entry_ins(I, o.st, mref, k, o.val)
            out.append(o)
        return out
    return f


TAB["Entry.or_insert"] = entry_default("value")
TAB["Entry.or_insert_with"] = entry_default("with")
TAB["Entry.insert_entry"] = lambda I, st, a, c: I.opaque(st, c.f, a, c.t)


@model("Entry.and_modify")
def _(I, st, a, c):
    en = entry_of(st, a[0])
    if en is None:
        return I.opaque(st, c.f, a, c.t)
    mref, k, occ = en
    if not occ:
        return ret(st, a[0])
    out = []
    for o in I.invoke(st, a[1], [ref(mref.a[0], *(tuple(mref.a[1:]) + (mk("key", k),)))]):
        if o.kind == "ret":
            o.val = a[0]
        out.append(o)
    return out


@model("OccupiedEntry.get", "OccupiedEntry.get_mut", "OccupiedEntry.into_mut")
def _(I, st, a, c):
    v = st.norm(a[0])
    while v.op == "ref":
        v = st.norm(I.get(st, v.a[0], v.a[1:]))
    mref, k, _ = entry_of(st, v)
    return ret(st, ref(mref.a[0], *(tuple(mref.a[1:]) + (mk("key", k),))))


@model("OccupiedEntry.insert")
def _(I, st, a, c):
    v = st.norm(a[0])
    while v.op == "ref":
        v = st.norm(I.get(st, v.a[0], v.a[1:]))
    mref, k, _ = entry_of(st, v)
    m, r, e = getv(I, st, mref)
    old = map_val(I, st, m, k)
    entry_ins(I, st, mref, k, a[1])
    return ret(st, old)


@model("VacantEntry.insert")
def _(I, st, a, c):
    mref, k, _ = entry_of(st, a[0])
    return ret(st, entry_ins(I, st, mref, k, a[1]))


@model("HashMap.clear")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    st.ev("mapclear", ref(r, *e))
    setv(I, st, a[0], mk("m_empty"))
    return ret(st)


def mapiter(kind):
    def f(I, st, a, c):
        m, r, e = getv(I, st, a[0])
        return ret(st, adt("xa::mapit", 0, ref(r, *e), mk("str", kind), ZERO, mk("maplen", m)))
    return f


TAB["HashMap.keys"] = mapiter("keys")
TAB["HashMap.values"] = mapiter("values")
TAB["HashMap.values_mut"] = mapiter("values")
TAB["HashMap.iter"] = mapiter("iter")
TAB["HashMap.iter_mut"] = mapiter("iter")


# ---- RwLock ------------------------------------------------------------------------
@model("RwLock.new", "Mutex.new", "lock_api.const_new")
def _(I, st, a, c):
    return ret(st, mk("lock", st.norm(a[0])))


def lock_ty(I, c):
    return c.rargs[1] if len(c.rargs) > 1 else (c.rargs[0] if c.rargs else None)


@model("RwLock.read", "RwLock.read_recursive", "RwLock.upgradable_read")
def _(I, st, a, c):
    return ret(st, acquire(I, st, a[0], "r", lock_ty(I, c), upg="upgradable" in c.path))


def anybool(st):
    return eq(st.fresh("=int"), ZERO)


@model("RwLock.is_locked", "RwLock.is_locked_exclusive", "Mutex.is_locked")
def _(I, st, a, c):
    """Any other thread may hold the lock; it is certainly held when this one holds it."""
    L = st.norm(a[0])
    excl = "exclusive" in c.path
    if any(g.op == "guard" and same_lock(I, st, g.a[0], L) is True and (not excl or g.a[1] == "w") for g in st.held):
        return ret(st, TRUE)
    return ret(st, anybool(st))


@model("RwLockUpgradableReadGuard.upgrade")
def _(I, st, a, c):
    g = st.norm(a[0])
    if g.op != "guard" or g not in st.held:
        st.doubt("upgrade")
        return ret(st, g)
    L = g.a[0]
    for h in st.held:
        if h is not g and h.op == "guard" and same_lock(I, st, h.a[0], L) is True:
            st.fail("P04", "waits for exclusive access to %s while already holding it" % lockname(I, st, L))
    n = mk("guard", L, "w", g.a[2])
    st.held = tuple(n if h is g else h for h in st.held)
    st.ev("upgrade", L, mk("str", I.lockcls.get(L, "?")))
    return ret(st, n)


# Atomics: another thread may store anything at any time, so a load gives any value.
def atomic(I, st, a, c):
    name = c.path.split("::")[-1]
    if name == "new":
        return ret(st, mk("atomic", st.norm(a[0])))
    if name == "store":
        return ret(st)
    if name in ("into_inner", "get_mut", "as_ptr"):
        st.doubt("atomic " + name)
        return ret(st, st.fresh("atomic"))
    rt = (I.p.ty(c.t["rty"]) if c.t and c.t.get("rty") is not None else {}).get("s") or ""
    x = anybool(st) if "bool" in rt or "AtomicBool" in c.path else st.fresh("=int")
    if name.startswith("compare_exchange") or name == "fetch_update":
        s2 = st.clone()
        return ret(st, adt("std::result::Result", 0, x)) + ret(s2, adt("std::result::Result", 1, x))
    return ret(st, x)


@model("RwLock.write")
def _(I, st, a, c):
    return ret(st, acquire(I, st, a[0], "w", lock_ty(I, c)))


def try_lock(mode):
    """A lock that may be refused whenever someone else could hold it."""
    def f(I, st, a, c):
        L = st.norm(a[0])
        out = []
        if L in I.owned:
            return ret(st, some(acquire(I, st, a[0], mode, lock_ty(I, c), False)))
        if not any(g.op == "guard" and same_lock(I, st, g.a[0], L) is True and "w" in (mode, g.a[1]) for g in st.held):
            s = st.clone()
            out += ret(s, some(acquire(I, s, a[0], mode, lock_ty(I, c), False)))
        return out + ret(st, NONE)
    return f


for _n in ("try_read", "try_read_recursive", "try_read_for", "try_read_until"):
    TAB["RwLock." + _n] = try_lock("r")
for _n in ("try_write", "try_write_for", "try_write_until"):
    TAB["RwLock." + _n] = try_lock("w")


@model("RwLock.data_ptr")
def _(I, st, a, c):
    """The data without its lock: touching it needs a guard all the same."""
    L = st.norm(a[0])
    cls = lock_class(I, lock_ty(I, c))
    I.lockcls[L] = cls
    if not any(g.op in ("guard", "excl") and g.a[0] is L for g in st.held):
        enter(I, st, L, cls, st.fresh("ep"))
    return ret(st, ref(mk("inner", L)))


@model("RwLock.get_mut")
def _(I, st, a, c):
    L = st.norm(a[0])
    cls = lock_class(I, lock_ty(I, c))
    I.lockcls[L] = cls
    ex = mk("excl", L)
    if ex not in st.held:
        st.held = st.held + (ex,)
        enter(I, st, L, cls, st.fresh("ep"))
    return ret(st, ref(mk("inner", L)))


@model("RwLock.into_inner")
def _(I, st, a, c):
    v = st.norm(a[0])
    return ret(st, v.a[0] if v.op == "lock" else mk("unlocked", v))


@model("RwLockWriteGuard.downgrade")
def _(I, st, a, c):
    g = st.norm(a[0])
    if g.op == "guard":
        n = mk("guard", g.a[0], "r", g.a[2])
        st.held = tuple(n if h is g else h for h in st.held)
        st.ev("downgrade", g.a[0])
        return ret(st, n)
    st.doubt("downgrade")
    return ret(st, g)


def regrab(I, st, place):
    """The lock of the guard at this place is taken again; its contents may have changed meanwhile."""
    r, e = tgt(I, st, place)
    g = st.norm(I.get(st, r, e))
    if g.op != "guard" or g not in st.held:
        from .interp import Give
        raise Give("a guard out of many gives up its lock for a while")
    return r, e, g


def let_go(I, st, place):
    x = regrab(I, st, place)
    if x is not None:
        release(I, st, x[2])
    return x


def take_back(I, st, x):
    if x is None:
        return
    r, e, g = x
    cls = I.lockcls.get(g.a[0], "?")
    n = acquire(I, st, g.a[0], g.a[1], RELOCK[0] + cls)
    I.put(st, r, e, n)


RELOCK = ["class:"]


@model("RwLockReadGuard.bump", "RwLockWriteGuard.bump")
def _(I, st, a, c):
    take_back(I, st, let_go(I, st, a[0]))
    return ret(st)


@model("RwLockReadGuard.unlocked", "RwLockWriteGuard.unlocked", "RwLockReadGuard.unlocked_fair", "RwLockWriteGuard.unlocked_fair")
def _(I, st, a, c):
    x = let_go(I, st, a[0])
    out = []
    for o in I.invoke(st, st.norm(a[1]), []):
        if o.kind == "ret":
            take_back(I, o.st, x)
        out.append(o)
    return out


@model("RwLockReadGuard.unlock_fair", "RwLockWriteGuard.unlock_fair")
def _(I, st, a, c):
    return drop(I, st, a[0], c.rargs[0] if c.rargs else None)


# ================================================================== iterators
@model("slice.iter", "slice.iter_mut", "Vec.iter", "Vec.iter_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    return ret(st, adt("xa::slice", 0, ref(r, *e), ZERO, slen(st, v)))


@model("slice.chunks", "slice.chunks_mut", "slice.chunks_exact", "slice.chunks_exact_mut", "slice.windows")
def _(I, st, a, c):
    """Pieces of n: all but the last full, only full ones (exact), or one from every position (windows)."""
    v, r, e = getv(I, st, a[0])
    n = st.norm(a[1])
    kind = "windows" if "windows" in c.path else "exact" if "exact" in c.path else "all"
    out, good = forkpanic(st, lt(ZERO, n), "chunk size must be non-zero")
    if good:
        out += ret(st, adt("xa::chunks", 0, ref(r, *e), mk("str", kind), n, ZERO, slen(st, v)))
    return out


@model("ChunksExact.remainder", "ChunksExact.into_remainder", "ChunksExactMut.into_remainder")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0]) if st.norm(a[0]).op == "ref" else (st.norm(a[0]), None, None)
    if v.op != "adt" or v.a[0] != "xa::chunks":
        st.doubt("remainder of chunks")
        return ret(st, st.fresh("rem"))
    b, _, n, _, hi = v.a[2:]
    rem, q = st.fresh("=int"), st.fresh("=int")
    for x in (le(ZERO, rem), lt(rem, n), le(rem, hi), le(ZERO, q)):
        st.assume(x)
    if n.op == "int":
        st.assume(eq(hi, add(rem, scale(q, n.a[0]))))
    return ret(st, ref(b.a[0], *(b.a[1:] + (mk("sub", sub(hi, rem), hi),))))


@model("IntoIterator.into_iter")
def _(I, st, a, c):
    v = st.norm(a[0])
    ty = c.rargs[0] if c.rargs else None
    if v.op == "ref":
        x = st.norm(I.get(st, v.a[0], v.a[1:]))
        n = 0
        rv = v
        if is_iter(x) or x.op == "adt" and I.p.trait_impls("std::iter::Iterator", "next") and has_next(I, x):
            return ret(st, v)
        path = c.path
        if "Vec" in path or "[T]" in path or is_seq(x):
            return ret(st, adt("xa::slice", 0, rv, ZERO, slen(st, x)))
        if "HashMap" in path:
            return ret(st, adt("xa::mapit", 0, rv, mk("str", "iter"), ZERO, mk("maplen", x)))
        if "Option" in path:
            st.doubt("iteration over an option")
            return ret(st, st.fresh("it"))
        return ret(st, v)
    if is_iter(v) or v.op == "adt" and has_next(I, v):
        return ret(st, v)
    if is_seq(v) or "Vec" in c.path or "[T" in c.path:
        return ret(st, adt("xa::vec", 0, v, ZERO, slen(st, v)))
    if v.op == "adt" and v.a[0] == OPT:
        s = mk("s_empty")
        if v.a[1] == 1:
            s = mk("s_push", s, v.a[2])
        return ret(st, adt("xa::vec", 0, s, ZERO, slen(st, s)))
    return ret(st, v)


def is_iter(v):
    return v.op == "adt" and (v.a[0].startswith("xa::") or v.a[0].split("::")[-1] == "Range")


def has_next(I, v):
    return next_impl(I, v) is not None


def next_impl(I, v, name="next"):
    for f in I.p.roots:
        if f["name"] == name and (f.get("impl_trait") or "").endswith("Iterator") and f.get("impl_self") is not None:
            t = I.p.ty(f["impl_self"])
            if t["k"] == "adt" and t["path"] == v.a[0]:
                return f
    return None


def step(I, st, it, back=False):
    """Advance the iterator at reference `it`: list of (state, None | value)."""
    from .interp import Out
    r, e = tgt(I, st, it)
    v = st.norm(I.get(st, r, e))
    n = 0
    while v.op in ("ref", "box") and n < 6:
        r, e = tgt(I, st, v)
        v = st.norm(I.get(st, r, e))
        n += 1
    if v.op != "adt":
        # an iterator of unknown type
        x = st.fresh("item")
        st.ev("next", ref(r, *e), x)
        if not I.open_iter:
            st.doubt("iterator of unknown type")
        return [(st, x)]
    if v.a[0] == OPT:
        v = adt("xa::once", 0, v)
        I.put(st, r, e, v)
    k = v.a[0]
    F = v.a[2:]
    sid = v.a[:2]

    def save(s, *f):
        I.put(s, r, e, adt(*(sid + f)))

    if k == "xa::qit" and not back:
        return [(st, part_next(I, st, r, e, False))]
    if k in ("xa::slice", "xa::vec") or k.split("::")[-1] == "Range":
        base = None
        lo, hi = F[-2], F[-1]
        if not st.need(lt(lo, hi)):
            return [(st, NONE)]
        if back:
            hi = sub(hi, ONE)
            at = hi
        else:
            at = lo
            lo = add(lo, ONE)
        if k == "xa::slice":
            b = F[0]
            x = ref(b.a[0], *(b.a[1:] + (istep(at),)))
        elif k == "xa::vec":
            x = sget(I, st, F[0], at)
        else:
            x = at
        save(st, *(F[:-2] + (lo, hi)))
        return [(st, some(x))]
    if k == "xa::chunks" and (not back or F[1].a[0] == "windows"):
        b, kind, n, lo, hi = F
        if kind.a[0] == "all":
            if not st.need(lt(lo, hi)):
                return [(st, NONE)]
            up = st.norm(add(lo, n)) if st.need(le(add(lo, n), hi)) else hi
        else:
            if not st.need(le(add(lo, n), hi)):
                return [(st, NONE)]
            up = st.norm(add(lo, n))
        if kind.a[0] == "windows":
            if back:
                x = (sub(hi, n), hi)
                save(st, b, kind, n, lo, sub(hi, ONE))
            else:
                x = (lo, up)
                save(st, b, kind, n, add(lo, ONE), hi)
        else:
            x = (lo, up)
            save(st, b, kind, n, up, hi)
        return [(st, some(ref(b.a[0], *(b.a[1:] + (mk("sub", *x),)))))]
    if k == "xa::stepby" and not back:
        first = st.norm(F[2])
        inner = ref(r, *(e + (fstep(0, 0),)))
        if not st.need(eq(first, ZERO)):
            w = it_skip(I, st, st.norm(I.get(st, r, e + (fstep(0, 0),))), sub(F[1], ONE))
            if w is None:
                st.doubt("iterator %s" % k)
                return [(st, st.fresh("item"))]
            I.put(st, r, e + (fstep(0, 0),), w)
        I.put(st, r, e + (fstep(0, 2),), ONE)
        return step(I, st, inner)
    if k == "xa::mapit":
        m, kind, lo, hi = F
        if not st.need(lt(lo, hi)):
            return [(st, NONE)]
        mv = st.norm(I.get(st, m.a[0], m.a[1:]))
        key = mk("mapkey", mv, lo)
        st.assume(mk("mapin", mv, key))
        vref = ref(m.a[0], *(m.a[1:] + (mk("key", key),)))
        save(st, m, kind, add(lo, ONE), hi)
        if kind.a[0] == "values":
            return [(st, some(vref))]
        kref = heapref(I, st, key)
        return [(st, some(kref if kind.a[0] == "keys" else tup(kref, vref)))]
    if k in ("xa::zip", "xa::map", "xa::enum", "xa::cloned", "xa::rev", "xa::take", "xa::chain", "xa::inspect"):
        inner = ref(r, *(e + (fstep(0, 0),)))
        if k == "xa::rev":
            return step(I, st, inner, not back)
        if k == "xa::take":
            if not st.need(ge0(sub(F[1], ONE))):
                return [(st, NONE)]
            I.put(st, r, e + (fstep(0, 1),), sub(F[1], ONE))
            return step(I, st, inner, back)
        out = []
        for s, o in step(I, st, inner, back):
            o = s.norm(o)
            for s, o in opt_cases(s, o):
                if o is NONE:
                    if k == "xa::chain":
                        out += step(I, s, ref(r, *(e + (fstep(0, 1),))), back)
                    else:
                        out.append((s, NONE))
                    continue
                x = o.a[2]
                if k == "xa::zip":
                    for s2, o2 in step(I, s, ref(r, *(e + (fstep(0, 1),))), back):
                        for s3, o3 in opt_cases(s2, s2.norm(o2)):
                            if o3 is NONE:
                                out.append((s3, NONE))
                            else:
                                out.append((s3, some(tup(x, o3.a[2]))))
                elif k == "xa::map":
                    for q in I.invoke(s, ref(r, *(e + (fstep(0, 1),))), [x]):
                        if q.kind == "ret":
                            out.append((q.st, some(q.st.norm(q.val))))
                        else:
                            out.append((q.st, q))
                elif k == "xa::enum":
                    cur = I.get(s, r, e + (fstep(0, 1),))
                    I.put(s, r, e + (fstep(0, 1),), add(cur, ONE))
                    out.append((s, some(tup(cur, x))))
                elif k == "xa::cloned":
                    c, _, _ = getv(I, s, x)
                    out.append((s, some(c)))
                elif k == "xa::chain":
                    out.append((s, o))
                else:
                    s.doubt("iterator %s" % k)
                    out.append((s, o))
        return out
    if k == "xa::from_fn" and not back:
        return [(q.st, q.st.norm(q.val) if q.kind == "ret" else q) for q in I.invoke(st, ref(r, *(e + (fstep(0, 0),))), [])]
    if k == "xa::once":
        if st.norm(F[0]) is NONE:
            return [(st, NONE)]
        save(st, NONE)
        return [(st, F[0])]
    if k in SYN_NEXT:
        res = []
        for q in I.exec(st, SYN[SYN_NEXT[k]], [ref(r, *e)]):
            res.append((q.st, q.val if q.kind == "ret" else q))
        return res
    f = next_impl(I, v)
    if f is not None and not back:
        res = []
        for q in I.exec(st, f, [ref(r, *e)]):
            res.append((q.st, q.val if q.kind == "ret" else q))
        return res
    st.doubt("iterator %s" % k)
    return [(st, st.fresh("item"))]


def opt_cases(s, o):
    from .interp import Out
    if isinstance(o, Out):
        return [(s, o)]
    if o.op == "adt":
        return [(s, NONE if o.a[1] == 0 else o)]
    if s.need(is_some(o)):
        return [(s, some(s.norm(mk("fld", o, 1, 0))))]
    return [(s, NONE)]


def outs_of(pairs):
    from .interp import Out
    return [x if isinstance(x, Out) else Out("ret", s, s.norm(x)) for s, x in pairs]


ITER = {"next", "next_back", "map", "enumerate", "cloned", "copied", "rev", "take", "skip", "zip", "chain", "filter", "filter_map", "by_ref",
        "any", "all", "find", "position", "for_each", "fold", "collect", "count", "find_map", "size_hint", "len", "last", "into_iter", "take_while",
        "nth", "flat_map", "flatten", "peekable", "step_by", "try_for_each", "sum", "min", "max", "unzip", "partition", "skip_while", "inspect", "cycle"}


@model("iter.from_fn")
def _(I, st, a, c):
    return ret(st, adt("xa::from_fn", 0, st.norm(a[0])))


@model("iter.once")
def _(I, st, a, c):
    return ret(st, adt("xa::once", 0, some(st.norm(a[0]))))


@model("iter.empty")
def _(I, st, a, c):
    return ret(st, adt("xa::once", 0, NONE))


@model("RangeInclusive.new")
def _(I, st, a, c):
    return ret(st, adt("std::ops::Range", 0, st.norm(a[0]), add(st.norm(a[1]), ONE)))


@model("iter.zip")
def _(I, st, a, c):
    out = []
    return ret(st, adt("xa::zip", 0, st.norm(a[0]), st.norm(a[1])))


def to_iter(I, st, v, c=None):
    v = st.norm(v)
    if v.op == "ref":
        x = st.norm(I.get(st, v.a[0], v.a[1:]))
        if is_seq(x) or x.op in SEQ:
            return adt("xa::slice", 0, v, ZERO, slen(st, x))
        return v
    if v.op in SEQ or is_seq(v):
        return adt("xa::vec", 0, v, ZERO, slen(st, v))
    if v.op in ("intovec",):
        return adt("xa::vec", 0, v, ZERO, slen(st, v))
    return v


def iter_model(I, st, a, c):
    from .interp import Out
    name = c.path.split("::")[-1]
    if (c.f.get("path") or "").split("::")[-1] in ITER:
        name = c.f["path"].split("::")[-1]
    v = st.norm(a[0])
    if name == "next":
        return outs_of(step(I, st, v))
    if name == "next_back":
        return outs_of(step(I, st, v, True))
    if name in ("by_ref", "into_iter"):
        return ret(st, v)
    if name == "map":
        return ret(st, adt("xa::map", 0, v, st.norm(a[1])))
    if name == "enumerate":
        return ret(st, adt("xa::enum", 0, v, ZERO))
    if name in ("cloned", "copied"):
        return ret(st, adt("xa::cloned", 0, v))
    if name == "rev":
        return ret(st, adt("xa::rev", 0, v))
    if name == "take":
        return ret(st, adt("xa::take", 0, v, st.norm(a[1])))
    if name == "skip":
        w = it_skip(I, st, v, st.norm(a[1]))
        if w is not None:
            return ret(st, w)
    if name == "step_by":
        n = st.norm(a[1])
        out, good = forkpanic(st, lt(ZERO, n), "assertion failed: step != 0")
        return out + (ret(st, adt("xa::stepby", 0, v, n, ZERO)) if good else [])
    if name == "nth" and v.op == "ref":
        r, e = tgt(I, st, v)
        w = it_skip(I, st, st.norm(I.get(st, r, e)), st.norm(a[1]))
        if w is not None:
            I.put(st, r, e, w)
            return outs_of(step(I, st, v))
    if name == "zip":
        return ret(st, adt("xa::zip", 0, v, to_iter(I, st, a[1])))
    if name == "chain":
        return ret(st, adt("xa::chain", 0, v, to_iter(I, st, a[1])))
    if name == "filter":
        return ret(st, adt("xa::filter", 0, v, st.norm(a[1])))
    if name == "filter_map":
        return ret(st, adt("xa::filter_map", 0, v, st.norm(a[1])))
    if name in ("size_hint", "len"):
        n = it_len(I, st, v)
        if n is None:
            st.doubt("length of an iterator")
            n = st.fresh("=int")
            st.ev("size_hint", v, n)
            r = mk("hint", n)
            return ret(st, tup(n, some(n)) if name == "size_hint" else n)
        if name == "len":
            return ret(st, n)
        return ret(st, tup(n, some(n)))
    if name in SYN:
        if name == "collect":
            rt = I.p.ty(c.t["rty"]) if c.t else {}
            if not rt.get("path", "").endswith("::Vec"):
                st.doubt("collect into %s" % rt.get("s"))
        return I.exec(st, SYN[name], a)
    st.doubt("iterator method %s" % name)
    return ret(st, st.fresh("it"))


def it_skip(I, st, v, n):
    """The iterator without its first n items, or None."""
    if v.op != "adt":
        return None
    k = v.a[0]
    if k in ("xa::slice", "xa::vec") or k.split("::")[-1] == "Range":
        lo, hi = v.a[-2], v.a[-1]
        nl = st.norm(add(lo, n))
        if not st.need(le(nl, hi)):
            nl = hi
        return adt(*(v.a[:-2] + (nl, hi)))
    if k == "xa::cloned":
        w = it_skip(I, st, st.norm(v.a[2]), n)
        return adt(k, 0, w) if w is not None else None
    if k == "xa::enum":
        w = it_skip(I, st, st.norm(v.a[2]), n)
        return adt(k, 0, w, st.norm(add(v.a[3], n))) if w is not None else None
    if k == "xa::zip":
        w, x = it_skip(I, st, st.norm(v.a[2]), n), it_skip(I, st, st.norm(v.a[3]), n)
        return adt(k, 0, w, x) if w is not None and x is not None else None
    return None


def it_len(I, st, v):
    n = 0
    while v.op in ("ref", "box") and n < 5:
        r, e = tgt(I, st, v)
        v = st.norm(I.get(st, r, e))
        n += 1
    if v.op != "adt":
        return None
    k = v.a[0]
    if k in ("xa::slice", "xa::vec", "xa::mapit") or k.split("::")[-1] == "Range":
        lo, hi = v.a[-2], v.a[-1]
        return sub(hi, lo) if st.need(le(lo, hi)) else ZERO
    if k in ("xa::map", "xa::enum", "xa::cloned", "xa::rev"):
        return it_len(I, st, v.a[2])
    return None


@model("Extend.extend", "Vec.extend_from_slice", "Vec.extend")
def _(I, st, a, c):
    return I.exec(st, SYN["extend"], [st.norm(a[0]), to_iter(I, st, a[1])])


@model("Vec.append")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[1])
    setv(I, st, a[1], mk("s_empty"))
    return I.exec(st, SYN["extend"], [st.norm(a[0]), adt("xa::vec", 0, v, ZERO, slen(st, v))])


@model("slice.contains", "Vec.contains")
def _(I, st, a, c):
    r, e = tgt(I, st, a[0])
    v = st.norm(I.get(st, r, e))
    if v.op == "ement":
        return ret(st, em_has(I, st, v.a[0], getv(I, st, a[1])[0]))
    v, r, e = getv(I, st, a[0])
    return I.exec(st, SYN["contains"], [adt("xa::slice", 0, ref(r, *e), ZERO, slen(st, v)), st.norm(a[1])])


@model("Vec.drain")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = slen(st, v)
    lo, hi = bounds(I, st, st.norm(a[1]), n)
    out, good = forkpanic(st, conj([le(lo, hi), le(hi, n)]), "drain out of bounds")
    if not good:
        return out
    if st.need(eqi(hi, n)):
        rest = mk("s_empty") if st.need(eqi(lo, ZERO)) else mk("s_trunc", v, lo)
    elif st.need(eqi(lo, ZERO)):
        rest = mk("s_sub", v, hi, n)
    else:
        st.doubt("drains the middle of a vector")
        rest = st.fresh("seq")
    setv(I, st, a[0], rest)
    return out + ret(st, adt("xa::vec", 0, v, lo, hi))


@model("Vec.split_off")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n, i = slen(st, v), st.norm(a[1])
    out, good = forkpanic(st, le(i, n), "split_off out of bounds")
    if good:
        whole = st.need(eqi(i, ZERO))
        setv(I, st, a[0], mk("s_empty") if whole else mk("s_trunc", v, i))
        out += ret(st, v if whole else mk("s_sub", v, i, n))
    return out


@model("Vec.retain", "Vec.retain_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    setv(I, st, a[0], mk("s_empty"))
    return I.exec(st, SYN["extend"], [st.norm(a[0]), adt("xa::filter", 0, adt("xa::vec", 0, v, ZERO, slen(st, v)), st.norm(a[1]))])


@model("Vec.capacity")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = st.fresh("=intcap")
    st.assume(le(slen(st, v), n))
    return ret(st, n)


@model("slice.split_at", "slice.split_at_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n, i = slen(st, v), st.norm(a[1])
    out, good = forkpanic(st, le(i, n), "split_at out of bounds")
    if good:
        out += ret(st, mk("tup", ref(r, *(e + (mk("sub", ZERO, i),))), ref(r, *(e + (mk("sub", i, n),)))))
    return out


@model("slice.split_first", "slice.split_first_mut", "slice.split_last", "slice.split_last_mut")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    n = slen(st, v)
    if st.need(eqi(n, ZERO)):
        return ret(st, NONE)
    m = sub(n, ONE)
    if "split_first" in c.path:
        x, rest = ZERO, mk("sub", ONE, n)
    else:
        x, rest = m, mk("sub", ZERO, m)
    return ret(st, some(mk("tup", ref(r, *(e + (istep(x),))), ref(r, *(e + (rest,))))))


@model("HashMap.get_key_value")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    k = keyarg(I, st, a[1])
    if st.need(map_in(I, st, m, k)):
        return ret(st, some(mk("tup", heapref(I, st, k, "key"), ref(r, *(e + (mk("key", k),))))))
    return ret(st, NONE)


@model("HashMap.remove_entry")
def _(I, st, a, c):
    m, r, e = getv(I, st, a[0])
    k = keyarg(I, st, a[1])
    st.ev("maprm", ref(r, *e), k)
    if st.need(map_in(I, st, m, k)):
        old = some(mk("tup", k, map_val(I, st, m, k)))
        setv(I, st, a[0], mk("m_rm", m, k))
        return ret(st, old)
    return ret(st, NONE)


@model("Vec.dedup", "slice.sort", "slice.sort_unstable", "Vec.splice", "slice.copy_within")
def _(I, st, a, c):
    v, r, e = getv(I, st, a[0])
    st.doubt("unmodelled %s" % c.path)
    setv(I, st, a[0], st.fresh("seq"))
    return ret(st, st.fresh("res"))


@model("xa.next")
def _(I, st, a, c):
    return outs_of(step(I, st, a[0]))


@model("xa.call")
def _(I, st, a, c):
    args = list(a[1:])
    return I.invoke(st, a[0], args)


@model("xa.drop")
def _(I, st, a, c):
    """Drop an item an adaptor throws away: what matters is the locks it holds."""
    v = st.norm(a[0])
    gs = []
    guards_in(v, gs)
    for g in gs:
        release(I, st, g)
    for x in [v] + [x for x in v.a if isinstance(x, T)]:
        if x.op in SEQ and v.op != "ref":
            drop_seq(I, st, x)
    return ret(st, UNIT)


@model("xa.eqref")
def _(I, st, a, c):
    x, _, _ = getv(I, st, a[0])
    y, _, _ = getv(I, st, a[1])
    return ret(st, eq_val(st, x, y))


# ---- synthetic functions for iterator adaptors ---------------------------------
class Asm:
    """A tiny assembler for loops over an iterator."""
    nid = [-1]

    def __init__(self, name, argc):
        self.name, self.n = name, argc + 1
        self.blocks = []
        self.argc = argc

    def local(self):
        self.n += 1
        return self.n - 1

    def block(self):
        self.blocks.append({"s": [], "t": None, "cleanup": False})
        return len(self.blocks) - 1

    def s(self, b, dst, rv):
        self.blocks[b]["s"].append(["=", [dst] if isinstance(dst, int) else dst, rv, 0])

    def t(self, b, t):
        t.setdefault("at", None)
        self.blocks[b]["t"] = t

    def call(self, b, name, args, dst, to):
        self.t(b, {"k": "call", "f": {"path": "xa::" + name, "rpath": "xa::" + name}, "args": [["c", [x]] if isinstance(x, int) else x for x in args],
                   "dst": [dst], "to": to, "rty": None})

    def dropto(self, x, to):
        """A block that drops x and goes on."""
        b, u = self.block(), self.local()
        self.call(b, "drop", [x], u, to)
        return b

    def done(self):
        i = Asm.nid[0]
        Asm.nid[0] -= 1
        return {"id": i, "path": "Iterator::" + self.name, "name": self.name, "local": False, "args": [], "span": ["", 0], "closure": False,
                "argc": self.argc, "spread": None, "locals": [None] * self.n, "names": {}, "blocks": self.blocks, "impl_self": None}


def bconst(b):
    return ["k", {"ty": None, "bool": b}]


def build(name, argc, byref, init, body, end):
    """init(asm, block); body(asm, block, item, loop, exit_) ; end(asm, block)."""
    A = Asm(name, argc)
    it, o, x, d = A.local(), A.local(), A.local(), A.local()
    b0, b1, b2, b3, b4 = A.block(), A.block(), A.block(), A.block(), A.block()
    A.s(b0, it, ["use", ["c", [1]]] if byref else ["ref", True, [1]])
    init(A, b0)
    A.t(b0, {"k": "goto", "to": b1})
    A.call(b1, "next", [it], o, b2)
    A.s(b2, d, ["discr", [o], 2])
    A.t(b2, {"k": "switch", "on": ["c", [d]], "vals": [[0, b4]], "else": b3, "ty": None})
    A.s(b3, x, ["use", ["c", [o, ["v", 1], ["f", 0, None]]]])
    body(A, b3, x, b1, b4)
    end(A, b4)
    A.t(b4, {"k": "return"})
    return A.done()


def ret_block(A, rv):
    b = A.block()
    A.s(b, 0, rv)
    A.t(b, {"k": "return"})
    return b


def OptAgg(v, *ops):
    return ["agg", "adt", [["c", [o]] if isinstance(o, int) else o for o in ops], {"path": OPT, "v": v, "ty": None}]


def _syn():
    S = {}
    nop = lambda A, b: None

    def pred_loop(name, byitem_ref, on_true, on_false, endv):
        def body(A, b, x, loop, ex):
            arg = x
            if byitem_ref:
                arg = A.local()
                A.s(b, arg, ["ref", False, [x]])
            r = A.local()
            b2 = A.block()
            A.call(b, "call", [2, arg], r, b2)
            t = on_true(A, x) if on_true else loop
            f = on_false(A, x) if on_false else A.dropto(x, loop) if byitem_ref else loop
            A.t(b2, {"k": "switch", "on": ["c", [r]], "vals": [[0, f]], "else": t, "ty": None, "bool": True})
        return build(name, 2, True, nop, body, lambda A, b: A.s(b, 0, endv))

    S["any"] = pred_loop("any", False, lambda A, x: ret_block(A, ["use", bconst(True)]), None, ["use", bconst(False)])
    S["all"] = pred_loop("all", False, None, lambda A, x: ret_block(A, ["use", bconst(False)]), ["use", bconst(True)])
    S["find"] = pred_loop("find", True, lambda A, x: ret_block(A, OptAgg(1, x)), None, OptAgg(0))
    S["xa_filter_next"] = None

    def filt_body(A, b, x, loop, ex):
        arg = A.local()
        A.s(b, arg, ["ref", False, [x]])
        r, fr = A.local(), A.local()
        A.s(b, fr, ["ref", True, [1, ["*"], ["f", 1, None]]])
        b2 = A.block()
        A.call(b, "call", [fr, arg], r, b2)
        A.t(b2, {"k": "switch", "on": ["c", [r]], "vals": [[0, A.dropto(x, loop)]], "else": ret_block(A, OptAgg(1, x)), "ty": None, "bool": True})

    def inner_init(A, b):
        # the iterator is field 0 of the adaptor behind argument 1
        A.blocks[b]["s"][-1] = ["=", [2], ["ref", True, [1, ["*"], ["f", 0, None]]], 0]

    f = build("filter.next", 1, True, inner_init, filt_body, lambda A, b: A.s(b, 0, OptAgg(0)))
    S["filter_next"] = f

    def fmap_body(A, b, x, loop, ex):
        r, fr, d = A.local(), A.local(), A.local()
        A.s(b, fr, ["ref", True, [1, ["*"], ["f", 1, None]]])
        b2 = A.block()
        A.call(b, "call", [fr, x], r, b2)
        A.s(b2, d, ["discr", [r], 2])
        A.t(b2, {"k": "switch", "on": ["c", [d]], "vals": [[0, loop]], "else": ret_block(A, ["use", ["c", [r]]]), "ty": None})

    S["filter_map_next"] = build("filter_map.next", 1, True, inner_init, fmap_body, lambda A, b: A.s(b, 0, OptAgg(0)))

    def findmap_body(A, b, x, loop, ex):
        r, d = A.local(), A.local()
        b2 = A.block()
        A.call(b, "call", [2, x], r, b2)
        A.s(b2, d, ["discr", [r], 2])
        A.t(b2, {"k": "switch", "on": ["c", [d]], "vals": [[0, loop]], "else": ret_block(A, ["use", ["c", [r]]]), "ty": None})

    S["find_map"] = build("find_map", 2, True, nop, findmap_body, lambda A, b: A.s(b, 0, OptAgg(0)))

    def foreach_body(A, b, x, loop, ex):
        r = A.local()
        A.call(b, "call", [2, x], r, loop)

    S["for_each"] = build("for_each", 2, False, nop, foreach_body, lambda A, b: A.s(b, 0, ["agg", "tuple", [], {}]))

    def collect_init(A, b):
        A.acc = A.local()
        A.s(b, A.acc, ["agg", "array", [], {}])

    def collect_body(A, b, x, loop, ex):
        r, u = A.local(), A.local()
        A.s(b, r, ["ref", True, [A.acc]])
        A.t(b, {"k": "call", "f": {"path": "std::vec::Vec::<T, A>::push", "rpath": "std::vec::Vec::<T, A>::push"}, "args": [["c", [r]], ["c", [x]]],
                "dst": [u], "to": loop, "rty": None})

    S["collect"] = build("collect", 1, False, collect_init, collect_body, lambda A, b: A.s(b, 0, ["use", ["c", [A.acc]]]))

    def extend_body(A, b, x, loop, ex):
        u = A.local()
        A.t(b, {"k": "call", "f": {"path": "std::vec::Vec::<T, A>::push", "rpath": "std::vec::Vec::<T, A>::push"}, "args": [["c", [1]], ["c", [x]]],
                "dst": [u], "to": loop, "rty": None})

    def ext_init(A, b):
        A.blocks[b]["s"][-1] = ["=", [3], ["ref", True, [2]], 0]

    S["extend"] = build("extend", 2, True, ext_init, extend_body, lambda A, b: A.s(b, 0, ["agg", "tuple", [], {}]))

    def fold_body(A, b, x, loop, ex):
        A.call(b, "call", [3, 2, x], 2, loop)

    S["fold"] = build("fold", 3, False, nop, fold_body, lambda A, b: A.s(b, 0, ["use", ["c", [2]]]))

    def count_init(A, b):
        A.acc = A.local()
        A.s(b, A.acc, ["use", ["k", {"ty": None, "num": 0}]])

    def count_body(A, b, x, loop, ex):
        A.s(b, A.acc, ["bin", "Add", ["c", [A.acc]], ["k", {"ty": None, "num": 1}]])
        A.t(b, {"k": "goto", "to": A.dropto(x, loop)})

    S["count"] = build("count", 1, False, count_init, count_body, lambda A, b: A.s(b, 0, ["use", ["c", [A.acc]]]))

    def last_init(A, b):
        A.acc = A.local()
        A.s(b, A.acc, OptAgg(0))

    def last_body(A, b, x, loop, ex):
        A.s(b, A.acc, OptAgg(1, x))
        A.t(b, {"k": "goto", "to": loop})

    S["last"] = build("last", 1, False, last_init, last_body, lambda A, b: A.s(b, 0, ["use", ["c", [A.acc]]]))

    def pos_body(A, b, x, loop, ex):
        r = A.local()
        b2, b3 = A.block(), A.block()
        A.call(b, "call", [2, x], r, b2)
        A.t(b2, {"k": "switch", "on": ["c", [r]], "vals": [[0, b3]], "else": ret_block(A, OptAgg(1, A.acc)), "ty": None, "bool": True})
        A.s(b3, A.acc, ["bin", "Add", ["c", [A.acc]], ["k", {"ty": None, "num": 1}]])
        A.t(b3, {"k": "goto", "to": loop})

    S["position"] = build("position", 2, True, count_init, pos_body, lambda A, b: A.s(b, 0, OptAgg(0)))

    def cont_body(A, b, x, loop, ex):
        r = A.local()
        b2 = A.block()
        A.call(b, "eqref", [x, 2], r, b2)
        A.t(b2, {"k": "switch", "on": ["c", [r]], "vals": [[0, loop]], "else": ret_block(A, ["use", bconst(True)]), "ty": None, "bool": True})

    S["contains"] = build("contains", 2, False, nop, cont_body, lambda A, b: A.s(b, 0, ["use", bconst(False)]))
    S = {k: v for k, v in S.items() if v is not None}
    return S


SYN = _syn()
SYN_NEXT = {"xa::filter": "filter_next", "xa::filter_map": "filter_map_next"}
