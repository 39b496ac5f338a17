"""Path facts: equalities (by substitution), linear inequalities, disequalities,
variant and predicate facts. A small abstract domain with a bounded
Fourier-Motzkin closure; it only ever answers yes / no / unknown."""
from .terms import *


class Facts:
    __slots__ = ("sub", "ineq", "neq", "ne", "tru", "var", "novar", "clauses", "ok", "_memo", "ver")

    def __init__(self):
        self.sub = {}
        self.ineq = []  # linear terms known >= 0
        self.neq = []  # linear terms known != 0
        self.ne = []  # (a, b) known different, non-integers
        self.tru = {}  # predicate term -> bool
        self.var = {}  # term -> variant
        self.novar = {}  # term -> frozenset of excluded variants
        self.clauses = []  # lists of conditions, one of which holds
        self.ok = True
        self._memo = {}
        self.ver = 0

    def copy(self):
        f = Facts.__new__(Facts)
        f.sub = dict(self.sub)
        f.ineq = list(self.ineq)
        f.neq = list(self.neq)
        f.ne = list(self.ne)
        f.tru = dict(self.tru)
        f.var = dict(self.var)
        f.novar = dict(self.novar)
        f.clauses = list(self.clauses)
        f.ok = self.ok
        f._memo = dict(self._memo)
        f.ver = self.ver
        return f

    # ---- normal form ------------------------------------------------------
    def norm(self, t):
        if not self.sub:
            return t
        return subst(t, self.sub.get, self._memo)

    # ---- inequalities -----------------------------------------------------
    def _infeasible(self, extra):
        """Is ineq + extra (each a (c, {atom:k}) meaning >=0) without solution?"""
        atoms = set()
        for _, m in extra:
            atoms.update(m)
        pool = self.ineq
        lins = [lin_of(t) for t in pool]
        used = []
        left = list(range(len(pool)))
        ch = True
        while ch:
            ch = False
            keep = []
            for i in left:
                m = lins[i][1]
                if not m or not atoms.isdisjoint(m):
                    used.append(i)
                    n = len(atoms)
                    atoms.update(m)
                    ch = ch or len(atoms) > n
                else:
                    keep.append(i)
            left = keep
        key = (frozenset(pool[i].id for i in used), tuple((c, tuple(sorted((x.id, k) for x, k in m.items()))) for c, m in extra))
        r = _FM.get(key)
        if r is None:
            # every integer of the program is unsigned
            r = fm(list(extra) + [lins[i] for i in used] + [(0, {x: 1}) for x in atoms])
            _FM[key] = r
        if r == 2:
            LIM[0] += 1
        return r == 1

    def _all_infeasible(self):
        key = (frozenset(t.id for t in self.ineq), ())
        r = _FM.get(key)
        if r is None:
            r = _FM[key] = fm([lin_of(t) for t in self.ineq] + [(0, {a: 1}) for t in self.ineq for a in lin_of(t)[1]])
        return r == 1

    def _entails_ge0(self, t):
        c, m = lin_of(t)
        if not m:
            return c >= 0
        if c >= 0 and all(k > 0 for k in m.values()):
            return True
        return self._infeasible([(-c - 1, {x: -k for x, k in m.items()})])

    # ---- decide -----------------------------------------------------------
    def decide(self, c):
        """True / False / None"""
        if not self.ok:
            return True
        c = self.norm(c)
        if c.op == "bool":
            return c.a[0]
        if c in self.tru:
            return self.tru[c]
        if c.op == "not":
            d = self.decide(c.a[0])
            return None if d is None else not d
        if c.op == "and":
            ds = [self.decide(x) for x in c.a]
            if any(d is False for d in ds):
                return False
            return True if all(d for d in ds) else None
        if c.op == "or":
            ds = [self.decide(x) for x in c.a]
            if any(d for d in ds):
                return True
            return False if all(d is False for d in ds) else None
        if c.op == "ge0":
            if self._entails_ge0(c.a[0]):
                return True
            if self._entails_ge0(sub(scale(c.a[0], -1), ONE)):
                return False
            return None
        if c.op == "eqz":
            d = c.a[0]
            if d in self.neq or scale(d, -1) in self.neq:
                return False
            p, n = self._entails_ge0(d), self._entails_ge0(scale(d, -1))
            if p and n:
                return True
            if self._entails_ge0(sub(d, ONE)) or self._entails_ge0(sub(scale(d, -1), ONE)):
                return False
            return None
        if c.op == "eq":
            if (c.a[0], c.a[1]) in self.ne or (c.a[1], c.a[0]) in self.ne:
                return False
            # integers hiding behind plain atoms
            d = sub(c.a[0], c.a[1]) if self._maybe_int(c.a[0]) and self._maybe_int(c.a[1]) else None
            if d is not None:
                if d in self.neq or scale(d, -1) in self.neq:
                    return False
                if self._entails_ge0(sub(d, ONE)) or self._entails_ge0(sub(scale(d, -1), ONE)):
                    return False
            va, vb = self.variant(c.a[0]), self.variant(c.a[1])
            if va is not None and vb is not None and va != vb:
                return False
            return None
        if c.op == "isvar2":
            v = self.variant(c.a[0])
            return None if v is None else v == 1
        if c.op == "isvar":
            v = self.variant(c.a[0])
            if v is not None:
                return v == c.a[1]
            if c.a[1] in self.novar.get(c.a[0], ()):
                return False
            return None
        return self.tru.get(c)

    def _maybe_int(self, t):
        return t.op not in ("adt", "tup", "ref", "typeid", "bool", "clo", "str")

    def variant(self, t):
        if t.op == "adt":
            return t.a[1]
        return self.var.get(t)

    # ---- assume -----------------------------------------------------------
    def assume(self, c):
        if not self.ok:
            return False
        c = self.norm(c)
        d = self.decide(c)
        if d is False:
            self.ok = False
            return False
        if d is True:
            return True
        if c.op == "and":
            for x in c.a:
                if not self.assume(x):
                    return False
            return True
        if c.op == "or":
            self.clauses.append(list(c.a))
            self.tru[c] = True
            return self._units()
        if c.op == "ge0":
            self._add_ineq(c.a[0])
        elif c.op == "eqz":
            self._equate_int(c.a[0])
        elif c.op == "eq":
            self._equate(c.a[0], c.a[1])
        elif c.op == "isvar2":
            self.var[c.a[0]] = 1
        elif c.op == "isvar":
            self.var[c.a[0]] = c.a[1]
        elif c.op == "not":
            x = c.a[0]
            if x.op == "eqz":
                self._add_neq(x.a[0])
            elif x.op == "eq":
                self.ne.append((x.a[0], x.a[1]))
                if self._maybe_int(x.a[0]) and self._maybe_int(x.a[1]):
                    self._add_neq(sub(x.a[0], x.a[1]))
            elif x.op == "isvar2":
                self.var[x.a[0]] = 0
            elif x.op == "isvar":
                self.novar[x.a[0]] = self.novar.get(x.a[0], frozenset()) | {x.a[1]}
            else:
                self.tru[x] = False
        else:
            self.tru[c] = True
        if self.ok and self.clauses:
            self._units()
        if self.ok and self.decide(c) is None:
            self.tru[self.norm(c)] = True
        return self.ok

    def _units(self):
        ch = True
        while ch and self.ok:
            ch = False
            for cl in list(self.clauses):
                ds = [self.decide(x) for x in cl]
                if any(d is True for d in ds):
                    if cl in self.clauses:
                        self.clauses.remove(cl)
                    continue
                live = [x for x, d in zip(cl, ds) if d is None]
                if not live:
                    self.ok = False
                    return False
                if len(live) == 1:
                    if cl in self.clauses:
                        self.clauses.remove(cl)
                    ch = True
                    self.assume(live[0])
                    break
        return self.ok

    def _add_ineq(self, t):
        for n in self.neq:
            if n is t or scale(n, -1) is t:
                t = sub(t, ONE)
        self.ineq.append(t)
        if self._infeasible([lin_of(t)]):
            self.ok = False
            return
        self._tighten()

    def _tighten(self):
        """d != 0 together with d >= 0 gives d >= 1; opposite bounds give equality."""
        ch = True
        while ch and self.ok:
            ch = False
            for n in list(self.neq):
                for s in (1, -1):
                    d = scale(n, s)
                    if self._entails_ge0(d) and not self._entails_ge0(sub(d, ONE)):
                        self.ineq.append(sub(d, ONE))
                        if self._infeasible([lin_of(sub(d, ONE))]):
                            self.ok = False
                            return
                        ch = True
        # implied equalities between two atoms: make them substitutions
        for t in list(self.ineq):
            c, m = lin_of(t)
            if 1 <= len(m) <= 3 and self._entails_ge0(scale(t, -1)):
                self._equate_int(t)
                return

    def _add_neq(self, d):
        self.neq.append(d)
        self._tighten()

    def _equate_int(self, d):
        c, m = lin_of(d)
        if not m:
            if c != 0:
                self.ok = False
            return
        best = None
        for x, k in m.items():
            if abs(k) != 1:
                continue
            rest = of_lin(-c * k, {y: -j * k for y, j in m.items() if y is not x})
            if any(occurs(x, y) for y in m if y is not x):
                continue
            rank = (min(self._rank(x), 0), locality(x), self._rank(x), size(x), x.id)
            if best is None or rank > best[0]:
                best = (rank, x, rest)
        if best is None:
            self.ineq.append(d)
            self.ineq.append(scale(d, -1))
            if self._infeasible([]):
                self.ok = False
            return
        self._substitute(best[1], best[2])

    @staticmethod
    def _rank(x):
        if x.op in CTOR and x.op != "typeid":  # two type parameters may stand for one type
            return -1
        if x.op == "sym":
            return 0 if x.a[0].startswith("=") else 1
        return 2

    def _equate(self, a, b):
        if a.op == "adt" or b.op == "adt":
            if b.op == "adt":
                a, b = b, a
            if b.op == "adt":
                if a.a[0] != b.a[0] or a.a[1] != b.a[1]:
                    self.ok = False
                    return
                for x, y in zip(a.a[2:], b.a[2:]):
                    if not self.assume(eq(x, y)):
                        return
                return
            v = self.variant(b)
            if v is not None and v != a.a[1]:
                self.ok = False
                return
            if not occurs(b, a):
                self._substitute(b, a)
            return
        ra, rb = [(min(self._rank(x), 0), locality(x), self._rank(x), size(x), x.id) for x in (a, b)]
        if ra < rb:
            a, b = b, a
        if self._rank(a) < 0:
            self.ok = False
            return
        if occurs(a, b):
            a, b = b, a
            if occurs(a, b) or self._rank(a) < 0:
                return
        self._substitute(a, b)

    def _substitute(self, x, y):
        y = self.norm(y)
        if y is x:
            return
        if occurs(x, y):
            if is_intlike(y) and x in lin_of(y)[1]:
                self.assume(eqi(x, y))
            else:
                self.tru[eq(x, y)] = True
            return
        self.sub[x] = y
        self._memo = {}
        self.ver += 1
        # keep the map idempotent
        for k in list(self.sub):
            if k is not x:
                self.sub[k] = self.norm(self.sub[k])
        self._memo = {}
        # congruence: a left-hand side may have become a different term
        for k in list(self.sub):
            if k is x or k not in self.sub:
                continue
            a, b = self.norm(k), self.norm(self.sub[k])
            if a is not b:
                del self.sub[k]
                self._memo = {}
                if not self.assume(eq(self.norm(k), b)):
                    return
        x, y = x, self.norm(y)
        if x in self.tru:
            b = self.tru.pop(x)
            self.assume(y if b else neg(y))
        if x in self.var:
            v = self.var.pop(x)
            self._set_var(y, v)
        if x in self.novar:
            for v in self.novar.pop(x):
                self.assume(neg(isvar(y, v, 3)))
        old = self.ineq
        self.ineq = []
        for t in old:
            n = self.norm(t)
            if n.op == "int":
                if n.a[0] < 0:
                    self.ok = False
                    return
            elif n not in self.ineq:
                self.ineq.append(n)
        old = self.neq
        self.neq = []
        for t in old:
            n = self.norm(t)
            if n.op == "int":
                if n.a[0] == 0:
                    self.ok = False
                    return
            elif n not in self.neq:
                self.neq.append(n)
        old = self.ne
        self.ne = []
        for a, b in old:
            e = eq(self.norm(a), self.norm(b))
            if e is TRUE:
                self.ok = False
                return
            if e is not FALSE:
                if e.op == "eq":
                    self.ne.append((e.a[0], e.a[1]))
                else:
                    self.assume(neg(e))
        for tab in (self.tru, self.var, self.novar):
            for k in list(tab):
                if k not in tab:
                    continue
                n = self.norm(k)
                if n is not k:
                    v = tab.pop(k)
                    if tab is self.tru:
                        self.assume(n if v else neg(n))
                    elif tab is self.var:
                        self._set_var(n, v)
                    else:
                        for q in v:
                            self.assume(neg(isvar(n, q, 3)))
                    if not self.ok:
                        return
        self.clauses = [[self.norm(x) for x in cl] for cl in self.clauses]
        if self._infeasible([]) if not self.ineq else self._all_infeasible():
            self.ok = False
            return
        self._tighten()

    def _set_var(self, t, v):
        w = self.variant(t)
        if w is None:
            self.var[t] = v
        elif w != v:
            self.ok = False


_FM = {}
LIM = [0]  # how often the elimination gave up


def fm(sys_, limit=600):
    """Bounded Fourier-Motzkin over >=0 rows: 1 infeasible, 0 not shown, 2 gave up."""
    rows = set()
    for c, m in sys_:
        m = {x: k for x, k in m.items() if k}
        if not m:
            if c < 0:
                return 1
            continue
        rows.add((c, tuple(sorted(m.items(), key=lambda p: p[0].id))))
    while rows:
        # strongest constant per linear form
        best = {}
        for c, m in rows:
            if m not in best or c < best[m]:
                best[m] = c
        rows = {(c, m) for m, c in best.items()}
        cnt = {}
        for c, m in rows:
            for x, k in m:
                p = cnt.setdefault(x, [0, 0])
                p[0 if k > 0 else 1] += 1
        x = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1] - cnt[y][0] - cnt[y][1], y.id))
        pos, neg_, rest = [], [], set()
        for c, m in rows:
            k = dict(m).get(x, 0)
            if k > 0:
                pos.append((c, dict(m), k))
            elif k < 0:
                neg_.append((c, dict(m), -k))
            else:
                rest.add((c, m))
        for c1, m1, k1 in pos:
            for c2, m2, k2 in neg_:
                m = {}
                for y, k in m1.items():
                    m[y] = m.get(y, 0) + k * k2
                for y, k in m2.items():
                    m[y] = m.get(y, 0) + k * k1
                m = {y: k for y, k in m.items() if k}
                c = c1 * k2 + c2 * k1
                if not m:
                    if c < 0:
                        return 1
                else:
                    g = 0
                    from math import gcd
                    for k in m.values():
                        g = gcd(g, abs(k))
                    if g > 1:
                        m = {y: k // g for y, k in m.items()}
                        c = c // g  # floor: integers
                    rest.add((c, tuple(sorted(m.items(), key=lambda p: p[0].id))))
        if len(rest) > limit:
            return 2
        rows = rest
    return 0
