"""Obligations, contracts and their bookkeeping."""
from .terms import *
from .facts import Facts, LIM
from .interp import Interp, State, NeedSplit, Give, Out
from . import models as M


class Report:
    """What one contract run decided."""

    def __init__(self):
        self.obl = []  # (prop, rule, func, what, status, detail)
        self.funcs = set()
        self.paths = 0
        self.known = []

    def add(self, prop, rule, func, what, status, detail=""):
        self.obl.append((prop, rule, func, what, status, detail))

    def bad(self, prop, rule, func, what, detail=""):
        self.add(prop, rule, func, what, "violated", detail)

    def ok(self, prop, rule, func, what):
        self.add(prop, rule, func, what, "ok")


class Spec:
    """One analysed entry point: interpreter + report."""

    def __init__(self, prog, rep):
        self.p = prog
        self.rep = rep

    def interp(self):
        return Interp(self.p)


def where(stack):
    return " > ".join("%s:%s" % (x[0].split("::", 0)[0], x[1]) for x in stack[-4:]) if stack else ""


def explain(st, n=14):
    """A short account of the path: the facts that led here."""
    f = st.facts
    out = []
    for k, v in [x for x in f.tru.items() if x[0].op not in ("or", "and")][:n]:
        out.append(("" if v else "not ") + show(k))
    for k, v in list(f.var.items())[:n]:
        out.append("%s is variant %s" % (show(k), v))
    for t in f.ineq[:n]:
        out.append(show(t) + ">=0")
    for t in f.neq[:n]:
        out.append(show(t) + "!=0")
    for a, b in f.ne[:n]:
        out.append("%s != %s" % (show(a), show(b)))
    for a, b in list(f.sub.items())[:n]:
        out.append("%s = %s" % (show(a), show(b)))
    return "; ".join(out)[:1500]


def refuted(st, depth=3, fuel=None):
    """Does case analysis over the open clauses close the path?"""
    if fuel is None:
        fuel = [60]
    st.retry()
    if not st.facts.ok:
        return True
    if depth == 0:
        return False
    for t in st.facts.ineq:
        c, m = lin_of(t)
        if len(m) == 1 and 1 <= c <= 4 and list(m.values()) == [-1] and fuel[0] > 0:
            a = next(iter(m))
            for i in range(c + 1):
                fuel[0] -= 1
                s = st.clone()
                if s.assume(eqi(a, num(i))) and not refuted(s, depth - 1, fuel):
                    break
            else:
                return True
    seen = set()
    for cl in list(st.facts.clauses):
        live = [x for x in cl if st.decide(x) is None]
        k = tuple(live)
        if k in seen or not 2 <= len(live) <= 3:
            continue
        seen.add(k)
        if fuel[0] <= 0:
            return False
        fuel[0] -= 1
        done = True
        for x in live:
            t = st.clone()
            if t.assume(x) and not refuted(t, depth - 1, fuel):
                done = False
                break
        if done:
            return True
    return False


def prove(rep, I, st, prop, rule, func, what, fn):
    """Decide fn(state) -> condition on every case of the path."""
    I.budget = max(I.budget, 4000)
    if not st.facts.ok:
        return True
    try:
        res = I.splits(st, lambda s: [(s, fn(s))])
    except Give as e:
        rep.add(prop, rule, func, what, "undecided", str(e))
        return None
    good = True
    for s, c in res:
        if not s.facts.ok:
            continue
        conds = c if isinstance(c, list) else [c]
        for c1 in conds:
            d = s.decide(c1)
            if d is True:
                continue
            s.retry()
            t = s.clone()
            if not t.assume(neg(c1)):
                continue
            if refuted(t):
                continue
            good = False
            if LIM[0] != getattr(I, "lim0", LIM[0]):
                rep.add(prop, rule, func, what, "undecided", "arithmetic bound of the analysis")
            elif s.taint:
                rep.add(prop, rule, func, what, "undecided", "; ".join(s.taint[:3]))
            else:
                rep.bad(prop, rule, func, what, "not implied: %s | on the path: %s" % (show(s.norm(c1))[:300], explain(s)))
            return False
    rep.ok(prop, rule, func, what)
    return good


def run(rep, I, f, args, st, what=""):
    """Outcomes of f, or [] with an undecided note."""
    rep.funcs.add(f["path"])
    I.lim0 = LIM[0]
    try:
        outs = I.run(f, args, st)
    except Give as e:
        rep.add("*", "analysis", f["path"], what or "analysis", "undecided", str(e))
        return None
    except RecursionError as e:
        rep.add("*", "analysis", f["path"], what or "analysis", "undecided", "recursion")
        return None
    rep.paths += len(outs)
    for o in outs:
        o.st.retry()
    return [o for o in outs if o.st.facts.ok]


def lengths(prog, adt, bases, begin, args):
    """Number fields of a type that always equal the length of one of its arrays,
    possibly less one: what `new` makes true and every changing method keeps.

    bases: array name -> field.  begin(f, facts) -> (I, st, r) with the facts assumed.
    args(f): the arguments of method f after self, or None."""
    memo = prog.__dict__.setdefault("_lengths", {})
    if adt in memo:
        return memo[adt]
    memo[adt] = []
    ms = [f for f in prog.roots if prog.self_adt(f) == adt]
    t = next((prog.ty(f["impl_self"]) for f in ms if prog.ty(f["impl_self"]).get("fields")), None)
    nums = [i for i, x in enumerate(t["fields"][0]) if prog.canon(x) == "usize"] if t else []
    if not nums:
        return []
    facts = [(i, b, o) for i in nums for b in sorted(bases) for o in (0, 1)]

    def holds(I, s, v, fact):
        i, b, o = fact
        s.retry()
        v = s.norm(v)
        n = M.slen(s, s.norm(M.proj(I, s, v, fstep(0, bases[b]))))
        return s.decide(eqi(add(s.norm(M.proj(I, s, v, fstep(0, i))), num(o)), n)) is True

    def values(f, facts):
        if f["name"] == "new":
            I = begin(f, [])[0]
            return [(I, o.st, o.val) for o in I.run(f, [], State()) if o.kind == "ret"]
        I, st, r = begin(f, facts)
        return [(I, o.st, o.st.mem.get(o.st.norm(r))) for o in I.run(f, [ref(r)] + args(f), st) if o.kind == "ret"]

    todo = [f for f in ms if f["name"] == "new" or f["argc"] and prog.ty(f["locals"][1])["k"] == "ref" and prog.ty(f["locals"][1]).get("mut")]
    if not any(f["name"] == "new" for f in todo):
        return []
    while facts:
        left = facts
        for f in todo:
            try:
                for I, s, v in values(f, facts):
                    if s.facts.ok:
                        left = [x for x in left if holds(I, s, v, x)]
            except (Give, RecursionError):
                left = []
        if left == facts:
            break
        facts = left
    memo[adt] = facts
    return facts


def assume_lengths(I, st, v, bases, facts):
    for i, b, o in facts:
        st.assume(eqi(add(mk("fld", v, 0, i), num(o)), M.slen(st, mk("fld", v, 0, bases[b]))))
