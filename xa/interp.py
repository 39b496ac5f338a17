"""Path-sensitive abstract interpreter over the exported MIR."""
import os
from .terms import *
from .terms import _fresh
from .facts import Facts
from .prog import Prog, succs


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Dead(Exception):
    """The path is infeasible."""


class Give(Exception):
    """The analysis gives up (too many paths, unsupported construct)."""


class Ev:
    __slots__ = ("k", "a", "at", "info")

    def __init__(self, k, a, at, info=None):
        self.k, self.a, self.at, self.info = k, a, at, info

    def __repr__(self):
        return "%s%s@%s" % (self.k, list(self.a), self.at)


def fld_path(x, base):
    """The fields that lead from base to x, or None."""
    out = []
    while x is not base:
        if x.op != "fld" or x.a[1] != 0:
            return None
        out.append(x.a[2])
        x = x.a[0]
    return tuple(reversed(out))


class Out:
    """Outcome of a function: kind ret / panic."""
    __slots__ = ("kind", "st", "val", "msg")

    def __init__(self, kind, st, val=None, msg=None):
        self.kind, self.st, self.val, self.msg = kind, st, val, msg


DBG = os.environ.get("XADBG")
_ACTIVE = set()  # axiom instances being assumed right now


class State:
    __slots__ = ("mem", "facts", "trace", "held", "viol", "taint", "rty", "_ver", "log", "replay", "stack", "inst", "pend", "rough", "hooks", "tydir")

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.trace = ()
        self.held = ()
        self.viol = ()
        self.taint = ()
        self.rty = {}
        self._ver = 0
        self.log = None
        self.replay = None
        self.stack = ()
        self.inst = frozenset()
        self.pend = ()
        self.hooks = {}  # base storage -> axiom schemes about its ids
        self.tydir = None  # how the first comparison of two unknown types went
        self.rough = False  # went through a loop that was not summarised exactly

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace, s.held, s.viol, s.taint = self.trace, self.held, self.viol, self.taint
        s.rty = dict(self.rty)
        s._ver = self._ver
        s.log, s.replay = None, None
        s.stack = self.stack
        s.inst = self.inst
        s.pend, s.rough = self.pend, self.rough
        s.hooks = self.hooks
        s.tydir = self.tydir
        return s

    def hook(self, base, key, ax):
        self.hooks = dict(self.hooks)
        self.hooks[base] = self.hooks.get(base, ()) + ((key, ax),)

    def norm(self, t):
        return self.facts.norm(t)

    def assume(self, c):
        r = self.facts.assume(c)
        if r and self.facts.ver != self._ver:
            self._rekey()
        return r

    def _rekey(self):
        self._ver = self.facts.ver
        for k in list(self.mem):
            n = self.facts.norm(k)
            if n is not k:
                self.mem[n] = self.mem.pop(k)
        for k in list(self.rty):
            n = self.facts.norm(k)
            if n is not k:
                self.rty[n] = self.rty.pop(k)
        self.held = tuple(h if h.op == "gset" else self.facts.norm(h) for h in self.held)

    def decide(self, c):
        return self.facts.decide(c)

    def need(self, c):
        """Decide c or split the path on it."""
        if not self.facts.ok:
            raise Dead()
        c = self.facts.norm(c)
        if c.op == "and":
            return all(self.need(x) for x in c.a)
        if c.op == "or":
            return any(self.need(x) for x in c.a)
        d = self.facts.decide(c)
        if d is None and self.pend:
            self.retry()
            d = self.facts.decide(c)
        if not self.facts.ok:
            raise Dead()
        if d is None:
            raise NeedSplit(self.facts.norm(c))
        return d

    def instantiate(self, key, fn):
        """Assume an axiom instance once; fn answers False to be asked again."""
        if key in self.inst or key in _ACTIVE:
            return
        p = [k for k, _ in self.pend]
        _ACTIVE.add(key)
        try:
            again = fn(self) is False
        finally:
            _ACTIVE.discard(key)
        if again:
            if key not in p:
                self.pend = self.pend + ((key, fn),)
        else:
            self.inst = self.inst | {key}
            if key in p:
                self.pend = tuple(x for x in self.pend if x[0] != key)

    def retry(self):
        """Instantiate the axioms that waited for more facts."""
        for _ in range(4):
            old = self.pend
            self.pend = ()
            for key, fn in old:
                if key in self.inst or key in _ACTIVE:
                    continue
                _ACTIVE.add(key)
                try:
                    again = fn(self) is False
                finally:
                    _ACTIVE.discard(key)
                if again:
                    self.pend = self.pend + ((key, fn),)
                else:
                    self.inst = self.inst | {key}
                if not self.facts.ok:
                    return
            if len(self.pend) == len(old):
                return

    def fresh(self, name):
        if self.replay:
            t = self.replay.pop(0)
        else:
            t = fresh(name)
        if self.log is not None:
            self.log.append(t)
        return t

    def site(self):
        return self.stack[-1] if self.stack else ("?", 0)

    def ev(self, k, *a, info=None):
        self.trace = self.trace + (Ev(k, a, self.stack, info),)

    def fail(self, rule, what):
        if not self.taint:
            self.viol = self.viol + ((rule, what, self.stack),)
        else:
            self.doubt("open after a doubt: %s %s" % (rule, what))

    def doubt(self, why):
        if why not in self.taint:
            self.taint = self.taint + (why,)


class LoopInfo:
    """Summary of one loop: header state, back-edge outcomes, loop integers."""

    def __init__(self, key):
        self.key = key
        self.head = None  # State at the header (generic iteration)
        self.entry = None  # State before the loop
        self.backs = []  # State at the back edge; trace = the iteration
        self.vars = {}  # symbol -> (initial term, (root, elems))
        self.filts = {}

    def __repr__(self):
        return "loop%s" % (self.key,)


class Frame:
    __slots__ = ("f", "n", "id")
    cnt = [0]

    def __init__(self, f):
        self.f = f
        Frame.cnt[0] += 1
        self.id = Frame.cnt[0]

    def loc(self, n):
        return mk("loc", self.id, n)


def scaled(n):
    """With loops unrolled a few times only, sizes the source names are made as small."""
    return Interp.UNROLL - 1 if Interp.SCALE and isinstance(n, int) and 4 <= n <= 1 << 20 else n


MAXPATHS = 150000
MAXUNR = 600000


#: paths of the functions that were interpreted, in this process
SEEN = set()


class Interp:
    GROUPS = None  # at most this many groups in the world
    SCALE = False  # literal sizes are made smaller than the unrolling
    UNROLL = 0  # > 0: loops are unrolled this often instead of summarised

    def __init__(self, prog):
        self.p = prog
        self.tenv = {}
        self.parts = False  # queries of type parameters are modelled
        self.abs_sps = True  # SparseSet methods are contract primitives
        self.abs_em = True
        self.abs_grp = True
        self.loop_hook = None
        self.budget = 0
        self.loopn = 0
        self.covered = set()
        self.unknown = {}
        self.checks = {}  # rule -> number of decided obligations
        self.fnvals = []
        self.owned = set()
        self.lockcls = {}
        self.given = set()
        self.filt_alts = {}
        self.nz_ent = True
        self.open_iter = False
        self.into_id = True
        self.axioms = {}
        self.sps_ax = {}
        self.unroll = Interp.UNROLL
        self.notes = []
        self.sps_skip = set()  # sparse set methods analysed with their body
        self.unroll_in = set()  # functions whose loops are unrolled
        from . import models
        self.M = models
        self._synthetic()

    def _synthetic(self):
        for f in self.M.SYN.values():
            self.p.funcs[f["id"]] = f

        for t in self.p.types:
            if t["k"] == "adt" and t["path"].split("::")[-1] == "SparseSet" and t.get("fields") and len(t["args"]) >= 2:
                e, v = self.p.canon(t["args"][0]), self.p.canon(t["args"][1])
                if e == v:
                    continue
                for i, ft in enumerate(t["fields"][0]):
                    c = self.p.canon(ft)
                    if c == "std::vec::Vec<%s>" % e:
                        self.M.SP["ent"] = i
                    elif c == "std::vec::Vec<%s>" % v:
                        self.M.SP["dat"] = i
                break

    # ---- facts about the program's own types ---------------------------------
    def group_adt(self):
        for path, a in self.p.adts.items():
            if path.split("::")[-1] == "Group" and len(a["variants"]) > 1:
                return path
        return None

    def group_fields(self):
        """variant of Group -> field types of the data it carries"""
        if getattr(self, "_gf", None) is None:
            self._gf, self._gd = {}, {}
            g = self.group_adt()
            if g:
                for t in self.p.types:
                    if t["k"] == "adt" and t["path"] == g and "fields" in t:
                        for i, fs in enumerate(t["fields"]):
                            dt = self.p.ty(fs[0]) if fs else None
                            if dt and dt["k"] == "adt" and dt.get("fields"):
                                self._gf[i] = dt["fields"][0]
                                self._gd[i] = dt["path"].split("::")[-1]
                        break
        return self._gf

    def group_types(self, v):
        """Fields of the data of variant v that hold its types."""
        return [p[0] for p in self.type_paths(v)]

    def type_paths(self, v):
        """Where the data of variant v holds its types: first type, second type,
        in the order its `types` method gives them, else in field order."""
        c = self.p.__dict__.setdefault("_type_paths", {})
        if v not in c:
            out = []
            def leaves(i, path):
                if self.p.canon(i) == "std::any::TypeId":
                    out.append(path)
                    return
                t = self.p.ty(i)
                fs = t["fields"][0] if t["k"] == "adt" and len(t.get("fields") or ()) == 1 else t.get("args", ()) if t["k"] == "tuple" else ()
                if len(path) < 3:
                    for n, x in enumerate(fs):
                        leaves(x, path + (n,))
            for n, x in enumerate(self.group_fields()[v]):
                leaves(x, (n,))
            c[v] = out
            c[v] = self.typed_order(v, out)
        return c[v]

    def typed_order(self, v, paths):
        name = self.group_data()[v]
        f = next((f for f in self.p.roots if f["name"] == "types" and f.get("impl_trait") is None and self.p.self_adt(f) == name), None)
        if f is None or len(paths) != 2:
            return paths
        I = Interp(self.p)
        st = State()
        r = mk("heap", "group")
        d = sym("data")
        st.mem[r] = d
        try:
            outs = I.run(f, [ref(r)], st)
        except (Give, RecursionError):
            return paths
        res = set()
        for o in outs:
            x = o.st.norm(o.val) if o.kind != "panic" else None
            if x is None or x.op != "tup" or len(x.a) != 2:
                return paths
            res.add(tuple(fld_path(o.st.norm(y), d) for y in x.a))
        if len(res) == 1:
            got = list(next(iter(res)))
            if sorted(got, key=str) == sorted(paths, key=str):
                return got
        return paths

    def group_data(self):
        self.group_fields()
        return self._gd

    def group_data_adts(self):
        return set(self.group_data().values())

    def world_field(self, pred):
        """Index of the World field whose type satisfies pred(canon)."""
        for t in self.p.types:
            if t["k"] == "adt" and t["path"].split("::")[-1] == "World" and t.get("fields"):
                return [i for i, ft in enumerate(t["fields"][0]) if pred(self.p.canon(ft))]
        return []

    def comp_field(self):
        r = self.world_field(lambda c: "HashMap" in c and "ComponentStorage" in c)
        return r[0] if r else None

    def group_axioms(self, st, L):
        """Invariant of World::groups (kept by make_group, P12): the two types of
        a group differ and are registered components."""
        for v in self.group_fields():
            a, b = mk("gtyp", L, v, 0), mk("gtyp", L, v, 1)
            st.assume(neg(eq(a, b)))
        kind = mk("gkind", L)
        cf = self.comp_field()
        if cf is None or L.op != "ref" or len(L.a) < 3:
            return
        if not (L.a[-1].op == "i" and L.a[-2].op == "f"):
            return
        comps = st.norm(self.get(st, L.a[0], L.a[1:-2] + (fstep(0, cf),)))
        for v in self.group_fields():
            for i in (0, 1):
                k = mk("gtyp", L, v, i)
                c = mk("mapin", comps, k)
                st.assume(disj([neg(isvar(kind, v, 3)), c]))

    def stored_type(self, cls, x):
        if cls == "storage":
            return "sparse_set::SparseSet<std::num::NonZero<usize>,%s>" % x
        return x

    def registered_type(self, cls, b):
        """The type whose container is b."""
        if cls != "storage":
            return b
        pre = "sparse_set::SparseSet<std::num::NonZero<usize>,"
        return b[len(pre):-1] if b.startswith(pre) and b.endswith(">") else None

    def gset_disjoint(self, st, g, L):
        """Can L coincide with a lock taken by an earlier iteration of the same
        loop? No when its index is the loop's own strictly increasing counter."""
        pat = g.a[1].a[0]
        if pat.op != "ref" or L.op != "ref" or self.M.shape(pat) != self.M.shape(L):
            return False
        lid = g.a[0]
        for x, y in zip(pat.a[1:], L.a[1:]):
            if x is y and x.op == "i":
                for t in subterms(x.a[0]):
                    if t.op == "sym" and t.a[0].startswith("h%d:" % lid):
                        return True
        return False

    def iter_local(self, info, t):
        """Is t a symbol that belongs to one iteration of the loop?"""
        if t.op != "sym":
            return False
        if t in info.vars:
            return True
        n = t.a[0]
        if n.startswith("h"):
            m = n[1:].split(":")[0]
            if m.isdigit():
                return int(m) >= info.id
        if "#" in n:
            return int(n.rsplit("#", 1)[1]) > info.n0
        return False

    def count(self, rule):
        self.checks[rule] = self.checks.get(rule, 0) + 1

    # ======================================================== running things
    def run(self, f, args, st=None, tenv=None):
        """Analyse function f with the given argument terms."""
        if isinstance(f, int):
            f = self.p.funcs[f]
        st = st.clone() if st is not None else State()
        old = self.tenv
        if tenv is not None:
            self.tenv = tenv
        self.budget = MAXUNR if self.unroll else MAXPATHS
        try:
            return self.exec(st, f, args)
        finally:
            self.tenv = old

    def call(self, st, f, args, tenv=None):
        """Like run, within a budget already set."""
        old = self.tenv
        if tenv is not None:
            self.tenv = tenv
        try:
            return self.exec(st, f, args)
        finally:
            self.tenv = old

    def splits(self, st, fn):
        """Run fn(state) -> list, forking the path whenever it needs a decision."""
        work, out = [(st, None)], []
        n = 0
        while work:
            s0, replay = work.pop()
            n += 1
            self.budget -= 1
            if n > (20000 if self.unroll else 400) or self.budget < 0:
                if DBG:
                    print("SPLITS", len(work), self.splitlog[-12:])
                raise Give("too many case splits")
            s = s0.clone()
            s.log = []
            s.replay = list(replay) if replay else None
            try:
                r = fn(s)
                for o in r:
                    pass
                out.extend(r)
            except Dead:
                continue
            except NeedSplit as e:
                self.splitlog = getattr(self, "splitlog", [])[-20:] + [e.cond]
                for c in (neg(e.cond), e.cond):
                    s2 = s0.clone()
                    if s2.assume(c):
                        work.append((s2, s.log))
        return out

    # ============================================================== function
    def exec(self, st, f, args):
        if len(st.stack) > 40 or sum(1 for x in st.stack if x[2] == f["id"]) > 2:
            st.doubt("recursion in %s" % f["path"])
            return [Out("ret", st, st.fresh("rec"))]
        self.covered.add(f["id"])
        SEEN.add(f["path"])
        fr = Frame(f)
        base = st.stack
        st.stack = base + ((f["path"], 0, f["id"]),)
        args = list(args)
        if f.get("spread"):
            k = f["spread"] - 1
            if k < len(args) and args[k].op == "tup" and f["argc"] != len(args):
                pass
        for i in range(f["argc"]):
            if i >= len(args):
                break
            v = args[i]
            lt_ = self.p.ty(f["locals"][i + 1]) if f["locals"][i + 1] is not None else None
            if f["closure"] and i == 0 and lt_ and lt_["k"] == "ref" and v.op == "clo":
                r = mk("heap", Frame.cnt[0], "clo")
                st.mem[r] = v
                v = ref(r)
            elif f["closure"] and i == 0 and lt_ and lt_["k"] != "ref" and v.op == "ref":
                v = self.load(st, v.a[0], v.a[1:])
            st.mem[fr.loc(i + 1)] = v
        outs = []
        for kind, s, x in self.region(fr, st, 0, None, None):
            if kind == "ret":
                val = s.mem.get(fr.loc(0), UNIT)
                val = s.norm(val)
                self.pop(s, fr)
                s.stack = base
                outs.append(Out("ret", s, val))
            else:
                self.pop(s, fr)
                outs.append(Out("panic", s, None, x))
                s.stack = base
        return outs

    def pop(self, s, fr):
        for k in [k for k in s.mem if k.op == "loc" and k.a[0] == fr.id]:
            del s.mem[k]

    # =============================================================== regions
    def region(self, fr, st, start, blocks, header, first=True):
        """Explore from `start`. Returns (kind, state, x): ret, panic(msg),
        back (header reached again), exit(block outside the region)."""
        work = [(st, start, 0, first)]
        out = []
        loops = self.p.loops(fr.f)
        while work:
            s, b, k, entering = work.pop()
            if header is not None and not entering and k == 0:
                if b == header:
                    out.append(("back", s, None))
                    continue
                if b not in blocks:
                    out.append(("exit", s, b))
                    continue
            if k == 0 and b in loops and not (entering and b == header):
                for kind, s2, x in self.loop(fr, s, b, loops[b]):
                    if kind == "exit":
                        work.append((s2, x, 0, False))
                    else:
                        out.append((kind, s2, x))
                continue
            self.budget -= 1
            if self.budget < 0:
                raise Give("path budget exhausted in %s" % fr.f["path"])
            pos = [k]
            try:
                res = self.block(fr, s, b, pos)
            except Dead:
                continue
            except NeedSplit as e:
                for c in (neg(e.cond), e.cond):
                    s2 = s.clone()
                    if s2.assume(c):
                        work.append((s2, b, pos[0], True if pos[0] else entering))
                continue
            for kind, s2, x in res:
                if kind == "go":
                    work.append((s2, x, 0, False))
                else:
                    out.append((kind, s2, x))
        return out

    # ================================================================ loops
    def loop(self, fr, st0, header, body):
        """Fixpoint over one natural loop: havoc what changes, keep the candidate
        invariants that are inductive, then describe growing sequences in closed
        form. Returns the outcomes that leave the loop."""
        key = (fr.f["id"], header)
        self.loopn += 1
        lid = self.loopn
        if self.unroll or fr.f["name"] in self.unroll_in:
            res, work = [], [(st0, self.unroll or 4)]
            while work:
                s0, n = work.pop()
                for k, s, x in self.region(fr, s0, header, body, header, True):
                    if k != "back":
                        res.append((k, s, x))
                    elif n:
                        work.append((s, n - 1))
            return res
        hav = {}  # (root, elems) -> symbol
        init = {}
        gset = []  # guards kept from one iteration to the next
        dead = set()  # candidate invariants that failed
        hk = None
        rnd0 = {}
        hcnt = -1
        for rnd in range(40):
            self.budget -= 3
            n0 = _fresh[0]
            st = st0.clone()
            st.trace = ()
            for (root, elems), h in hav.items():
                self.put(st, root, elems, h)
            syms = {h: (init[l], l) for l, h in hav.items()}
            live = [c for c in self.candidates(st0, st, syms, lid) if c[0] not in dead]
            if self.loop_hook:
                hk = self.loop_hook(self, fr, st0, syms, lid)
                for c in hk or []:
                    if c[0] in dead:
                        continue
                    if rnd0.setdefault(c[0], None) is None:
                        rnd0[c[0]] = c[1].check(self, st0.clone(), lambda h: st0.norm(syms[h][0])) is True
                    if rnd0[c[0]]:
                        live.append(c)
            for n, c in live:
                if hasattr(c, "assume"):
                    c.assume(self, st, lambda h, st=st: st.norm(h))
                else:
                    st.assume(c(st, lambda h: h))
            for g in gset:
                st.held = st.held + (g,)
            head = st.clone()
            outs = self.region(fr, st, 0 if False else header, body, header, True)
            backs = [(s, x) for k, s, x in outs if k == "back"]
            # 1. locations that change
            new = {}
            for s, _ in backs:
                self.diff(head, s, new)
            new = {l: v for l, v in new.items() if l not in hav}
            if new:
                for l, v in new.items():
                    if any(l[0] is m[0] and l[1][:len(m[1])] == m[1] for m in hav):
                        continue
                    hcnt += 1
                    hav[l] = mk("sym", "h%d:%d" % (lid, hcnt))
                    init[l] = self.get(st0.clone(), l[0], l[1])
                for l in list(hav):
                    if any(l is not m and l[0] is m[0] and l[1][:len(m[1])] == m[1] and len(m[1]) < len(l[1]) for m in hav):
                        del hav[l]
                dead, rnd0 = set(), {}
                continue
            # 2. inductive invariants
            bad = False
            for n, c in live:
                for s, _ in backs:
                    try:
                        cur = lambda h, s=s: s.norm(self.get(s, *syms[h][1]))
                        r = c.check(self, s, cur) if hasattr(c, "check") else s.decide(c(s, cur))
                    except NeedSplit:
                        r = None
                    if r is not True:
                        if DBG:
                            print("candidate dropped", lid, n)
                        dead.add(n)
                        bad = True
                        break
            if bad:
                continue
            # 3. guards kept across iterations
            newg = []
            for s, _ in backs:
                for g in s.held:
                    if g not in head.held:
                        g2 = g if g.op == "gset" else mk("gset", lid, s.norm(mk("guard", g.a[0], g.a[1], sym("ep*"))))
                        if g2 not in gset and g2 not in newg:
                            newg.append(g2)
            if newg:
                gset += newg
                bad = True
                continue
            for s, _ in backs:
                for g in head.held:
                    if s.norm(g) not in s.held:
                        self.lostguard = True
                        st0.doubt("a lock held before a loop is released in it")
            if not bad:
                break
        else:
            raise Give("loop in %s does not stabilise" % fr.f["path"])
        if backs and not gset and self.few(hav, init, syms, backs):
            res = self.exact(fr, st0, header, body)
            if res is not None:
                return res
        info = LoopInfo(key)
        info.id, info.n0 = lid, n0
        info.fn = fr.f["path"]
        info.stack = st0.stack
        info.entry, info.head = st0, head
        info.backs = [s for s, _ in backs]
        info.vars = syms
        info.inv = [n for n, _ in live]
        info.steps = {}
        for h, (t0, l) in syms.items():
            steps = set()
            for s, _ in backs:
                v = s.norm(self.get(s, *l))
                steps.add(s.norm(sub(v, s.norm(h))) if v.op not in CTOR or v.op == "int" else None)
            info.steps[h] = steps.pop() if len(steps) == 1 else None
        gfail = []
        for g in gset:
            self.count("P04:collected")
            if g.a[0] != lid:
                continue
            ok = False
            for t in subterms(g.a[1].a[0]):
                if t in syms:
                    d = info.steps.get(t)
                    ok = ok or d is not None and d.op == "int" and d.a[0] > 0
            if not ok:
                gfail.append(g)
        closed = {}
        for h, (t0, l) in syms.items():
            z = self.summarise_seq(info, h, t0, l)
            if z is not None:
                closed[h] = z
        info.closed = closed
        res = []
        info_ev = Ev("loop", (), st0.stack, info)
        for k, s, x in outs:
            if k == "back":
                continue
            for h, z in closed.items():
                n = sym("n%d:%s" % (lid, h.a[0].split(":")[1]))
                if not s.assume(eqi(n, mk("len", h))):
                    break
                s.facts._substitute(h, z(s.norm(n)))
                s._rekey()
            if not s.facts.ok:
                continue
            for g in gfail:
                s.fail("P04", "locks collected by a loop may coincide: %s" % show(g.a[1].a[0]))
            for b, _ in backs:  # what goes wrong in an iteration goes wrong in the loop
                s.viol += tuple(v for v in b.viol if v not in s.viol)
                s.taint += tuple(v for v in b.taint if v not in s.taint)
            s.trace = st0.trace + (info_ev,) + s.trace
            s.rough = s.rough or any(h not in closed for h in syms)
            res.append((k, s, x))
        if not res and not backs:
            pass
        return res

    def few(self, hav, init, syms, backs):
        """Does a counter bound the number of iterations by a small constant?"""
        for h, (t0, l) in syms.items():
            if t0.op != "int" or not -4 <= t0.a[0] <= 4:
                continue
            steps = set()
            for s in backs:
                s = s[0]
                v = s.norm(self.get(s, *l))
                d = s.norm(sub(v, s.norm(h)))
                up = d.op == "int" and d.a[0] > 0 and s.decide(le(s.norm(h), num(3))) is True
                steps.add(up)
            if steps == {True}:
                return True
        return False

    def exact(self, fr, st0, header, body, most=5):
        """The loop iteration by iteration, when it ends within a few."""
        res, work = [], [(st0, 0)]
        while work:
            s0, n = work.pop()
            for k, s, x in self.region(fr, s0, header, body, header, True):
                if k != "back":
                    res.append((k, s, x))
                elif n >= most:
                    return None
                else:
                    work.append((s, n + 1))
        return res

    def diff(self, a, b, out):
        for r, va in a.mem.items():
            rb = b.facts.norm(r)
            if rb not in b.mem:
                continue
            self.diffv(a, b, r, (), va, b.mem[rb], out)

    def diffv(self, a, b, root, elems, va, vb, out):
        va2, vb2 = b.norm(va), b.norm(vb)
        if va2 is vb2:
            return
        if va2.op == "adt" and vb2.op == "adt" and va2.a[:2] == vb2.a[:2] and len(va2.a) == len(vb2.a):
            for i, (x, y) in enumerate(zip(va2.a[2:], vb2.a[2:])):
                self.diffv(a, b, root, elems + (fstep(va2.a[1], i),), x, y, out)
            return
        if va2.op == "tup" and vb2.op == "tup" and len(va2.a) == len(vb2.a):
            for i, (x, y) in enumerate(zip(va2.a, vb2.a)):
                self.diffv(a, b, root, elems + (fstep(0, i),), x, y, out)
            return
        if va2.op == "clo" and vb2.op == "clo" and va2.a[0] == vb2.a[0]:
            for i, (x, y) in enumerate(zip(va2.a[1:], vb2.a[1:])):
                self.diffv(a, b, root, elems + (fstep(0, i),), x, y, out)
            return
        if vb2.op == "st" or va2.op == "st":
            ka, kb = st_items(va2), st_items(vb2)
            base_a = va2.a[0] if va2.op == "st" else va2
            base_b = vb2.a[0] if vb2.op == "st" else vb2
            if base_a is base_b:
                for k in set(ka) | set(kb):
                    x = ka.get(k) or mk("fld", base_a, k.a[0], k.a[1])
                    y = kb.get(k) or mk("fld", base_b, k.a[0], k.a[1])
                    self.diffv(a, b, root, elems + (k,), x, y, out)
                return
        if va2.op in ("box", "ref", "guard") and va2.op == vb2.op == "box":
            pass
        out[(root, elems)] = va

    def candidates(self, st0, st, syms, lid):
        """Candidate loop invariants: (name, cond(state, value-of-symbol))."""
        out = []
        M = self.M
        ints, seqs = [], []
        for h, (t0, l) in syms.items():
            z = st0.norm(t0)
            if M.is_seq(z):
                seqs.append((h, z))
            elif is_num(z) or z.op in ("fld", "len", "get"):
                ints.append((h, z))
        terms = [(("v", h.a[0]), z, (lambda h: lambda s, cur: cur(h))(h)) for h, z in ints]
        for h, z in seqs:
            terms.append((("l", h.a[0]), M.slen(st0, z), (lambda h: lambda s, cur: M.slen(s, cur(h)))(h)))
        for n, z, g in terms:
            out.append((("ge0", n), lambda s, cur, z=z, g=g: le(s.norm(z), g(s, cur))))
            out.append((("le0", n), lambda s, cur, z=z, g=g: le(g(s, cur), s.norm(z))))
        # upper bounds: any integer term of the entry state the value is below
        bounds = self.bound_terms(st0)
        for n, z, g in terms:
            for i, b in enumerate(bounds):
                if st0.decide(le(z, b)):
                    out.append((("ub", n, b.id), lambda s, cur, b=b, g=g: le(g(s, cur), s.norm(b))))
        for i, (n, z, g) in enumerate(terms):
            for n2, z2, g2 in terms[i + 1:]:
                d = sub(z, z2)
                out.append((("dif", n, n2), lambda s, cur, d=d, g=g, g2=g2: eqi(sub(g(s, cur), g2(s, cur)), s.norm(d))))
                if st0.decide(le(z, z2)):
                    out.append((("le", n, n2), lambda s, cur, g=g, g2=g2: le(g(s, cur), g2(s, cur))))
                if st0.decide(le(z2, z)):
                    out.append((("le", n2, n), lambda s, cur, g=g, g2=g2: le(g2(s, cur), g(s, cur))))
        return out

    def bound_terms(self, st0):
        seen, out = set(), []
        for v in list(st0.mem.values()):
            v = st0.norm(v)
            for t in subterms(v):
                if t in seen:
                    continue
                seen.add(t)
                if t.op in ("lin",) or t.op in ("len", "slen", "splen", "maplen", "arg_int"):
                    out.append(t)
                elif t.op == "sym" and t.a[0].startswith(("=int", "h")):
                    out.append(t)
                b = self.M.seq_len_quick(st0, t)
                if b is not None and b not in seen:
                    seen.add(b)
                    out.append(b)
        return out[:40]

    def summarise_seq(self, info, h, t0, l):
        """Closed form of a sequence the loop only appends to: a function of the
        final length, or None."""
        M = self.M
        t0 = info.entry.norm(t0)
        if not M.is_seq(t0):
            return None
        alts = []
        uncond = True
        for s in info.backs:
            v = s.norm(self.get(s, *l))
            elems = []
            while v.op == "s_push":
                elems.append(v.a[1])
                v = s.norm(v.a[0])
            if v is not s.norm(h):
                return None
            if not elems:
                uncond = False
            elif len(elems) > 1:
                return None
            else:
                alts.append((s, elems[0]))
        if not alts:
            return None
        if uncond:
            es = {s.norm(e) for s, e in alts}
            bv = mk("bv", info.id)
            if len(es) == 1:
                hs = info.backs[0]
                e2 = hs.norm(es.pop())
                nl = hs.norm(mk("len", h))
                c, m = lin_of(nl)
                loc = [x for x in m if any(self.iter_local(info, t) for t in subterms(x))]
                if len(loc) == 1 and m[loc[0]] == 1:
                    f = loc[0]
                    rest = of_lin(c, {x: k for x, k in m.items() if x is not f})
                    e3 = replace(e2, {f: sub(bv, rest)})
                    if not any(self.iter_local(info, t) for t in subterms(e3)):
                        return lambda n: mk("s_ext", t0, n, bv, e3, info.id)
        self.filt_alts[info.id] = (info, h, alts)
        return lambda n: mk("s_filt", t0, n, info.id)

    # ======================================================== memory access
    def get(self, st, root, elems):
        root = st.norm(root)
        v = st.mem.get(root)
        if v is None:
            v = self.M.lazy(self, st, root)
            st.mem[root] = v
        for e in elems:
            v = self.M.proj(self, st, st.norm(v), st.norm(e))
        return st.norm(v)

    load = get

    def put(self, st, root, elems, new):
        root = st.norm(root)
        if not elems:
            st.mem[root] = new
            return
        v = st.mem.get(root)
        if v is None:
            v = self.M.lazy(self, st, root)
        st.mem[root] = self.M.upd(self, st, st.norm(v), tuple(st.norm(e) for e in elems), new)

    def place(self, st, fr, pl, write=False):
        """Resolve a place to (root, elems, type id)."""
        root, elems = fr.loc(pl[0]), ()
        ty = fr.f["locals"][pl[0]]
        var = 0
        i = 1
        while i < len(pl):
            e = pl[i]
            if e[0] == "*":
                v = self.get(st, root, elems)
                t = self.p.ty(ty)
                root, elems = self.M.target(self, st, v)
                ty = t.get("to") if t["k"] in ("ref", "ptr") else (t["args"][0] if t["k"] == "adt" and t.get("args") else None)
                if i == len(pl) - 1 or True:
                    self.M.access(self, st, root, elems, write)
            elif e[0] == "f":
                elems = elems + (fstep(var, e[1]),)
                ty = e[2]
                var = 0
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "i":
                elems = elems + (istep(self.get(st, fr.loc(e[1]), ())),)
                t = self.p.ty(ty)
                ty = t.get("to")
            elif e[0] == "c":
                n = num(e[1])
                if e[2]:
                    n = sub(self.M.slen(st, self.get(st, root, elems)), n)
                elems = elems + (istep(n),)
                ty = self.p.ty(ty).get("to")
            else:
                st.doubt("place projection %s" % e[0])
                elems = elems + (mk("odd", str(e)),)
            i += 1
        return root, elems, ty

    def typed(self, st, v, ty):
        if ty is not None and self.p.is_nonzero(ty) and v.op not in ("int",):
            st.assume(ge0(sub(v, ONE)))
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            r, e, ty = self.place(st, fr, o[1])
            return self.typed(st, self.get(st, r, e), ty)
        c = o[1]
        if "bool" in c:
            return bool_(c["bool"])
        if "num" in c:
            return num(scaled(c["num"]))
        t = self.p.ty(c["ty"])
        if "int" in c and t["k"] != "bool":
            return num(scaled(c["int"]))
        if "int" in c:
            return bool_(bool(c["int"])) if t["k"] == "bool" else num(c["int"])
        if "fn" in c:
            self.fnvals.append(c["fn"])
            return mk("fnval", len(self.fnvals) - 1)
        s = c.get("s", "")
        if s == "()":
            return UNIT
        if t["k"] == "adt" and s.endswith("::None"):
            return NONE
        return mk("const", s, t["s"])

    def rvalue(self, st, fr, rv, dst_ty=None):
        k = rv[0]
        M = self.M
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            r, e, ty = self.place(st, fr, rv[2], rv[1])
            return ref(r, *e)
        if k == "cast":
            kind, o, ty = rv[1], rv[2], rv[3]
            if kind == "BoxDerefTransmute":
                r, e, _ = self.place(st, fr, o[1][:-1])
                v = self.get(st, r, e)
                r, e = M.target(self, st, v)
                return ref(r, *e)
            v = self.operand(st, fr, o)
            src = None
            if o[0] in ("c", "m"):
                src = self.place(st, fr, o[1])[2]
            return M.cast(self, st, kind, v, src, ty)
        if k == "bin":
            return M.binop(self, st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if v.op in ("bool", "ge0", "eqz", "eq", "not", "and", "or", "isvar", "isvar2") or True:
                    return neg(v)
            if rv[1] == "PtrMetadata":
                r, e = M.target(self, st, v)
                return M.slen(st, self.get(st, r, e))
            st.doubt("unary %s" % rv[1])
            return st.fresh("un")
        if k == "discr":
            r, e, ty = self.place(st, fr, rv[1])
            v = self.get(st, r, e)
            n = rv[2] if len(rv) > 2 else self.p.nvariants(ty)
            if v.op == "grpval":
                return mk("discr", mk("gkind", v.a[0]), 3)
            if v.op in ("bool",):
                return num(1 if v.a[0] else 0)
            if v.op == "adt" and v.a[0] == "std::cmp::Ordering":
                return num((255, 0, 1)[v.a[1]])
            return mk("discr", v, n)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if rv[1] == "adt":
                return adt(rv[3]["path"], rv[3]["v"], *ops)
            if rv[1] == "tuple":
                return tup(*ops)
            if rv[1] == "array":
                s = mk("s_empty")
                for o in ops:
                    s = mk("s_push", s, o)
                return s
            if rv[1] == "closure":
                return mk("clo", rv[3]["inst"], *ops)
        if k == "repeat":
            try:
                n = int(rv[2].split("_")[0])
                v = self.operand(st, fr, rv[1])
                s = mk("s_empty")
                if n <= 8:
                    for _ in range(n):
                        s = mk("s_push", s, v)
                    return s
            except ValueError:
                pass
        st.doubt("rvalue %s" % k)
        return st.fresh("rv")

    # ================================================================ blocks
    def block(self, fr, st, b, pos):
        """Execute one block from statement pos[0]: list of (kind, state, x)."""
        bl = fr.f["blocks"][b]
        for n in range(pos[0], len(bl["s"])):
            pos[0] = n
            s = bl["s"][n]
            k = s[0]
            if k == "=":
                self.line(st, fr, s[3])
                v = self.rvalue(st, fr, s[2])
                if v.op in ("fld", "get", "sym") and len(s[1]) == 1:
                    v = self.typed(st, v, fr.f["locals"][s[1][0]])
                r, e, _ = self.place(st, fr, s[1], True)
                if e == () and r.op == "loc":
                    st.mem[r] = v
                else:
                    self.assign(st, r, e, v)
            elif k == "dead":
                pass
            elif k == "setd":
                r, e, ty = self.place(st, fr, s[1], True)
                st.doubt("set discriminant")
            elif k == "assume":
                c = self.operand(st, fr, s[1])
            if not st.facts.ok:
                return []
        pos[0] = len(bl["s"])
        t = bl["t"]
        self.line(st, fr, t["at"][1] if t.get("at") else 0)
        k = t["k"]
        if k == "goto":
            return [("go", st, t["to"])]
        if k == "return":
            return [("ret", st, None)]
        if k == "unreachable":
            return []
        if k == "unwind":
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            c = self.operand(st, fr, t["cond"])
            if not t["exp"]:
                c = neg(c)
            out = []
            d = st.decide(c)
            if d is not True:
                bad = st.clone()
                if bad.assume(neg(c)):
                    out.append(("panic", bad, "assert: " + t["msg"].split("(")[0]))
            if d is not False:
                if st.assume(c):
                    out.append(("go", st, t["to"]))
            return out
        if k == "drop":
            r, e, ty = self.place(st, fr, t["place"])
            v = self.get(st, r, e)
            res = []
            for o in self.splits(st, lambda s: self.M.drop(self, s, v, ty)):
                res.append(("go", o.st, t["to"]) if o.kind == "ret" else ("panic", o.st, o.msg))
            return res
        if k == "call":
            return self.callterm(fr, st, t)
        st.doubt("terminator %s" % k)
        return []

    def assign(self, st, r, e, v):
        if r.op != "loc" and r.op != "heap":
            self.M.on_write(self, st, r, e, v)
        self.put(st, r, e, v)

    def line(self, st, fr, n):
        top = st.stack[-1]
        if top[1] != n and n:
            st.stack = st.stack[:-1] + ((top[0], n, top[2]),)

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t["on"])
        out = []
        conds = []
        for val, b in t["vals"]:
            if v.op == "discr":
                c = isvar(v.a[0], val, v.a[1])
            elif t.get("bool") or (t.get("ty") is not None and self.p.ty(t["ty"])["k"] == "bool"):
                c = v if val else neg(v)
            elif v.op == "bool":
                c = v if val else neg(v)
            else:
                c = eqi(v, num(val))
            conds.append((c, b))
        rest = [neg(c) for c, _ in conds]
        exhaustive = v.op == "discr" and len(conds) >= v.a[1]
        for c, b in conds:
            s = st.clone()
            if s.assume(c):
                out.append(("go", s, b))
        if not exhaustive:
            s = st.clone()
            if all(s.assume(c) for c in rest):
                out.append(("go", s, t["else"]))
        return out

    # ================================================================= calls
    def callterm(self, fr, st, t):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        for a in args:
            pass
        res = []
        for o in self.callee(st, f, args, t, fr):
            if o.kind == "panic":
                res.append(("panic", o.st, o.msg))
                continue
            if t["to"] is None:
                continue

            def fin(s, o=o):
                r, e, ty = self.place(s, fr, t["dst"], True)
                v = self.typed(s, s.norm(o.val), ty)
                if r.op == "loc" and not e:
                    s.mem[r] = v
                else:
                    self.assign(s, r, e, v)
                return [("go", s, t["to"])] if s.facts.ok else []

            if len(t["dst"]) == 1:
                res += fin(o.st)
            else:
                res += self.splits(o.st, fin)
        return res

    def callee(self, st, f, args, t=None, fr=None):
        """Outcomes of calling a resolved callee with argument terms."""
        if "op" in f:
            v = self.operand(st, fr, f["op"])
            return self.invoke(st, v, args)
        if "ctor" in f:
            return [Out("ret", st.clone(), adt(f["ctor"]["path"], f["ctor"]["v"], *args))]
        m = self.M.lookup(self, f, args, st)
        if m is not None:
            return self.splits(st, lambda s: m(self, s, args, Call(f, t)))
        if "inst" in f:
            g = self.p.funcs[f["inst"]]
            if g["closure"] and len(args) == 2 and args[1].op == "tup" and f.get("trait", "").split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
                args = [args[0]] + list(args[1].a)
            return self.exec(st.clone(), g, args)
        tr = f.get("trait", "")
        if tr.split("::")[-1] in ("FnOnce", "FnMut", "Fn") and args:
            return self.invoke(st, args[0], list(args[1].a) if len(args) > 1 and args[1].op == "tup" else args[1:])
        # a call the type checker leaves open: a virtual call or a call on a parameter
        if f.get("trait") and f["path"]:
            name = f["path"].split("::")[-1]
            if f.get("kind") == "virtual":
                impls = self.p.trait_impls(f["trait"], name)
                if len(impls) == 1:
                    return self.exec(st.clone(), impls[0], args)
                if not impls:
                    for g in self.p.roots:
                        if g.get("trait") == f["trait"] and g["name"] == name:
                            return self.exec(st.clone(), g, args)
            elif args and f["trait"].endswith("ComponentStorage"):
                # from a provided method of a trait with one implementor
                impls = self.p.trait_impls(f["trait"], name)
                if len(impls) == 1:
                    return self.exec(st.clone(), impls[0], args)
        return self.opaque(st, f, args, t)

    def invoke(self, st, fn, args):
        """Call a closure or function value."""
        fn = st.norm(fn)
        env = fn
        n = 0
        while fn.op == "ref" and n < 4:
            fn = self.get(st, fn.a[0], fn.a[1:])
            n += 1
        if fn.op == "clo":
            g = self.p.funcs[fn.a[0]]
            return self.exec(st.clone(), g, [env if env.op == "ref" else fn] + list(args))
        if fn.op == "pushfn":
            # the analysis' own closure: keeps every item it is called with
            st = st.clone()
            if len(args) == 2:
                return [Out("ret", st, mk("s_push", st.norm(args[0]), st.norm(args[1])))]
            st.ev("sink", st.norm(args[0]))
            return [Out("ret", st, UNIT)]
        if fn.op == "fnval":
            return self.callee(st, self.fnvals[fn.a[0]], list(args), None, None)
        st = st.clone()
        st.doubt("call through an unknown function value")
        st.ev("unknown_call", fn)
        return [Out("ret", st, st.fresh("fn"))]

    def opaque(self, st, f, args, t):
        path = f.get("rpath", f.get("path", "?"))
        self.unknown[path] = self.unknown.get(path, 0) + 1
        s = st.clone()
        s.doubt("call of unmodelled %s" % path)
        r = s.fresh("ext:" + path.split("::")[-1])
        for a in args:
            if a.op == "ref" and a.a[0].op in ("loc", "heap"):
                self.put(s, a.a[0], a.a[1:], s.fresh("hav"))
        s.ev("unknown", mk("str", path), *args)
        return [Out("ret", s, r)]


class Call:
    __slots__ = ("f", "t")

    def __init__(self, f, t):
        self.f, self.t = f, t

    @property
    def rargs(self):
        return self.f.get("rargs") or self.f.get("args") or []

    @property
    def path(self):
        return self.f.get("rpath") or self.f.get("path")


def is_num(t):
    if t.op == "sym":
        return True
    return t.op in ("int", "lin", "len", "posv", "get", "fld", "splen", "sel", "maplen", "qid", "qlen", "qlow", "qhigh", "em_id", "arg_int", "into", "idx", "sel", "ent")


def is_cond(t):
    return t.op in ("bool", "ge0", "eqz", "eq", "not", "and", "or", "isvar", "isvar2", "mapin", "sphas", "emhas", "qhas")


def st_items(v):
    if v.op != "st":
        return {}
    return {v.a[i]: v.a[i + 1] for i in range(1, len(v.a), 2)}
