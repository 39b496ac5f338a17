"""Which elements of a collection does a path treat?"""
from .terms import *
from .interp import Interp

U = 4


def flat(trace, depth=0):
    """All events of a trace, those of loop iterations included: (event, loops around it)."""
    for i, e in enumerate(trace):
        if e.k == "loop":
            for b in e.info.backs:
                for x, l in flat(b.trace, depth + 1):
                    yield x, (i,) + l
        else:
            yield e, (i,)


def events(trace, *kinds):
    return [e for e, _ in flat(trace) if e.k in kinds]


class Dom:
    """A collection: its length and the description of element i."""

    def __init__(self, length, elem, name):
        self.length, self.elem, self.name = length, elem, name


def traversals(st, trace, n):
    """Loops that run over all positions 0..n: (position, loop, index of the current iteration)."""
    out = []
    for i, e in enumerate(trace):
        if e.k != "loop":
            continue
        info = e.info
        for h, (t0, l) in info.vars.items():
            d = info.steps.get(h)
            if d is None or d.op != "int":
                continue
            z = st.norm(t0)
            end = st.norm(h)
            if d.a[0] == 1 and z is ZERO and st.decide(le(n, end)) is True:
                out.append((i, info, h, h))
            elif d.a[0] == -1 and st.decide(eqi(z, n)) is True and st.decide(le(end, ZERO)) is True:
                out.append((i, info, h, sub(h, ONE)))
    return out


def cover(I, st, trace, dom, pred, excl, depth=0):
    """Is every element of dom treated on this path?

    pred(elem, trace, state): the trace treats elem; excl(elem, state): elem needs no treatment.
    Returns None when it is, else a reason."""
    n = st.norm(dom.length(st))
    if I.unroll:
        for k in range(U + 1):
            t = st.clone()
            if not t.assume(eqi(n, num(k))):
                continue
            t.retry()
            if not t.facts.ok:
                continue
            for i in range(k):
                el = dom.elem(t, num(i))
                if pred(el, trace, t) or excl(el, t):
                    continue
                return "%s number %d of %d is not treated" % (dom.name, i + 1, k)
        return None
    why = "no loop runs over every %s" % dom.name
    if st.decide(eqi(n, ZERO)):
        return None
    el = dom.elem(st, sym("?el"))
    s = st.clone()
    s.assume(lt(sym("?el"), n))
    if pred(el, trace, s) or excl(el, s):
        return None
    best = None
    for pos, info, h, at in traversals(st, trace, n):
        bad = None
        for b in info.backs:
            el = dom.elem(b, b.norm(at))
            if pred(el, b.trace, b) or excl(el, b):
                continue
            r = collected(I, st, trace, pos, info, h, b, el, dom, pred, excl, depth) if depth < 3 else "nested too deeply"
            if r is not None:
                bad = r
                break
        if bad is None:
            return None
        best = bad
    return best or why


def collected(I, st, trace, pos, info, h, b, el, dom, pred, excl, depth):
    """The iteration keeps the element in a collection that is worked off later."""
    for g, z in info.closed.items():
        v = b.norm(I.get(b, *info.vars[g][1]))
        if v.op != "s_push" or v.a[0] is not b.norm(g):
            continue
        S = st.norm(g)
        if S.op not in ("s_filt", "s_ext"):
            continue
        if S.op == "s_filt":
            d2 = Dom(lambda s, S=S: s.norm(S.a[1]), lambda s, i, S=S: dom.elem(s, s.norm(mk("fidx", S, i, mk("str", h.a[0])))), "collected " + dom.name)
        else:
            d2 = dom
        return cover(I, st, trace[pos + 1:], d2, pred, excl, depth + 1)
    return "one iteration leaves a %s out" % dom.name
