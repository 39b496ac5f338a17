"""Hash-consed value numbers (terms).

A term is an operator with arguments. Integers are kept in linear normal form,
so that syntactic identity is equality of value numbers. Nothing here knows
about paths; see facts.py for that.
"""


class T:
    __slots__ = ("op", "a", "id")

    def __init__(self, op, a, i):
        self.op, self.a, self.id = op, a, i

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(op, a, len(_tab))
        _tab[k] = t
    return t


TRUE, FALSE = mk("bool", True), mk("bool", False)
UNIT = mk("tup")
_fresh = [0]


def fresh(name):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (name, _fresh[0]))


def num(n):
    return mk("int", n)


ZERO, ONE = num(0), num(1)


def sym(n):
    return mk("sym", n)


def lin_of(t):
    """term -> (const, {atom: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def of_lin(c, m):
    items = tuple(sorted(((x, k) for x, k in m.items() if k), key=lambda p: p[0].id))
    if not items:
        return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, kb=1):
    if b.op == "int":
        if b.a[0] == 0:
            return a
        if a.op == "int":
            return num(a.a[0] + kb * b.a[0])
    ca, ma = lin_of(a)
    cb, mb = lin_of(b)
    for x, k in mb.items():
        ma[x] = ma.get(x, 0) + kb * k
    return of_lin(ca + kb * cb, ma)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, m = lin_of(a)
    return of_lin(c * k, {x: v * k for x, v in m.items()})


def is_intlike(t):
    return t.op in ("int", "lin")


# ---- conditions -----------------------------------------------------------
def bool_(b):
    return TRUE if b else FALSE


def ge0(t):
    if t.op == "int":
        return bool_(t.a[0] >= 0)
    return mk("ge0", t)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def eqi(a, b):
    d = sub(a, b)
    if d.op == "int":
        return bool_(d.a[0] == 0)
    # canonical sign
    c, m = lin_of(d)
    first = min(m, key=lambda x: x.id)
    if m[first] < 0:
        d = scale(d, -1)
    return mk("eqz", d)


CTOR = ("adt", "tup", "int", "typeid", "bool", "clo", "str")


def eq(a, b):
    if a is b:
        return TRUE
    if is_intlike(a) or is_intlike(b):
        return eqi(a, b)
    if a.op == "adt" and b.op == "adt":
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
            return FALSE
        return conj([eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == "tup" and b.op == "tup" and len(a.a) == len(b.a):
        return conj([eq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "bool" or b.op == "bool":
        if a.op != "bool":
            a, b = b, a
        return b if a.a[0] else neg(b)
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.op == "mapkey" and b.op == "mapkey" and a.a[0] is b.a[0]:
        return eqi(a.a[1], b.a[1])  # keys of a map are distinct
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def neg(c):
    if c.op == "bool":
        return bool_(not c.a[0])
    if c.op == "not":
        return c.a[0]
    if c.op == "ge0":
        return ge0(sub(scale(c.a[0], -1), ONE))
    if c.op == "and":
        return disj([neg(x) for x in c.a])
    if c.op == "or":
        return conj([neg(x) for x in c.a])
    return mk("not", c)


def conj(cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        out.extend(c.a if c.op == "and" else [c])
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def disj(cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        out.extend(c.a if c.op == "or" else [c])
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


OPT = "std::option::Option"


def isvar(x, v, n=2):
    """x is of variant v, out of n variants"""
    if x.op == "adt":
        return bool_(x.a[1] == v)
    if n == 2:
        c = mk("isvar2", x)
        return c if v == 1 else neg(c)
    return mk("isvar", x, v)


def is_some(x):
    return isvar(x, 1)


def adt(path, v, *fields):
    return mk("adt", path, v, *fields)


NONE = adt(OPT, 0)


def some(x):
    return adt(OPT, 1, x)


def tup(*a):
    return mk("tup", *a)


def ref(root, *elems):
    return mk("ref", root, *elems)


def fstep(v, i):
    return mk("f", v, i)


def istep(i):
    return mk("i", i)


# ---- generic rebuild --------------------------------------------------------
def rebuild(op, a):
    """Smart constructor: the arguments may have changed."""
    if op == "lin":
        out = num(a[0])
        for x, k in a[1]:
            out = add(out, scale(x, k))
        return out
    if op == "ge0":
        return ge0(a[0])
    if op == "eqz":
        return eqi(a[0], ZERO)
    if op == "eq":
        return eq(a[0], a[1])
    if op == "not":
        return neg(a[0])
    if op == "and":
        return conj(list(a))
    if op == "or":
        return disj(list(a))
    if op == "isvar":
        return isvar(a[0], a[1], 3)
    if op == "isvar2":
        return isvar(a[0], 1)
    if op == "fld" and a[0].op == "adt":
        if a[0].a[1] == a[1] and len(a[0].a) > 2 + a[2]:
            return a[0].a[2 + a[2]]
    if op == "fld" and a[0].op in ("tup",):
        return a[0].a[a[2]]
    if op == "len" and a[0].op.startswith("s_"):
        return seqlen(a[0])
    return mk(op, *a)


def seqlen(s):
    k = s.op
    if k == "s_empty":
        return ZERO
    if k == "s_store":
        return seqlen(s.a[0])
    if k in ("s_push", "s_ins"):
        return add(seqlen(s.a[0]), ONE)
    if k == "s_rev":
        return seqlen(s.a[0])
    if k in ("s_pop", "s_del"):
        return sub(seqlen(s.a[0]), ONE)
    if k in ("s_ext", "s_filt", "s_trunc"):
        return s.a[1]
    if k == "s_sub":
        return sub(s.a[2], s.a[1])
    return mk("len", s)


def subst(t, f, memo, act=None):
    """Rewrite bottom-up; f(term) -> replacement or None. A rewriting that leads
    back to the term being rewritten stops there."""
    r = memo.get(t)
    if r is not None:
        return r
    if act is None:
        act = set()
    if not t.a:
        r = f(t) or t
    else:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = subst(x, f, memo, act)
                ch = ch or y is not x
                na.append(y)
            elif isinstance(x, tuple):
                ys = tuple((subst(p, f, memo, act), k) for p, k in x)
                ch = ch or any(p is not q for (p, _), (q, _) in zip(ys, x))
                na.append(ys)
            else:
                na.append(x)
        r = rebuild(t.op, tuple(na)) if ch else t
        s = f(r)
        if s is not None and s is not r and r not in act:
            act.add(r)
            q = subst(s, f, memo, act)
            act.discard(r)
            r = q
    memo[t] = r
    return r


def replace(t, m):
    return subst(t, lambda x: m.get(x), {})


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for x in t.a:
        if isinstance(x, T):
            subterms(x, seen)
        elif isinstance(x, tuple):
            for p, _ in x:
                subterms(p, seen)
    return seen


def occurs(x, t):
    return x in subterms(t)


_loc = {}


def locality(t):
    """The innermost loop a term belongs to (0: none)."""
    r = _loc.get(t)
    if r is None:
        r = 0
        if t.op == "sym" and t.a[0][0] == "h":
            m = t.a[0][1:].split(":")[0]
            r = int(m) if m.isdigit() else 0
        for x in t.a:
            if isinstance(x, T):
                r = max(r, locality(x))
            elif isinstance(x, tuple):
                for p, _ in x:
                    r = max(r, locality(p))
        _loc[t] = r
    return r


def size(t):
    return len(subterms(t))


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 7:
        return "…"
    s = lambda x: show(x, d + 1)
    if t.op == "int":
        return str(t.a[0])
    if t.op == "sym":
        return t.a[0]
    if t.op == "bool":
        return "true" if t.a[0] else "false"
    if t.op == "lin":
        out = []
        for x, k in t.a[1]:
            out.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + s(x))
        r = "".join(out)
        if t.a[0]:
            r += "%+d" % t.a[0]
        return r.lstrip("+")
    if t.op == "ge0":
        return "%s>=0" % s(t.a[0])
    if t.op == "eqz":
        return "%s==0" % s(t.a[0])
    if t.op == "eq":
        return "%s==%s" % (s(t.a[0]), s(t.a[1]))
    if t.op == "not":
        return "!(%s)" % s(t.a[0])
    if t.op == "isvar2":
        return "%s is Some/#1" % s(t.a[0])
    if t.op == "isvar":
        return "%s is #%s" % (s(t.a[0]), t.a[1])
    if t.op == "adt":
        n = t.a[0].split("::")[-1]
        if t.a[0] == OPT:
            n = ["None", "Some"][t.a[1]]
        elif t.a[1]:
            n += "#%d" % t.a[1]
        return n + ("(%s)" % ",".join(s(x) for x in t.a[2:]) if len(t.a) > 2 else "")
    if t.op == "tup":
        return "(%s)" % ",".join(s(x) for x in t.a)
    if t.op == "ref":
        return "&" + s(t.a[0]) + "".join(s(x) for x in t.a[1:])
    if t.op == "f":
        return ".%s%s" % ("" if not t.a[0] else "%d:" % t.a[0], t.a[1])
    if t.op == "i":
        return "[%s]" % s(t.a[0])
    if t.op == "fld":
        return "%s.%s%s" % (s(t.a[0]), "" if not t.a[1] else "%d:" % t.a[1], t.a[2])
    return "%s(%s)" % (t.op, ",".join(s(x) if isinstance(x, T) else str(x) for x in t.a))
