#!/usr/bin/env python3
"""Decide one property of xecs from /repo's current source.

usage: check.py <property> [--tier quick|thorough] [-v]
Exit 0: every obligation of the property is discharged or left open (listed in the evidence).
Exit 1: at least one obligation is refuted; a VIOLATION line names the replay file.
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)

from xa import export as X          # noqa: E402
from xa import registry as R        # noqa: E402
from xa.prog import Prog            # noqa: E402
from xa.spec import Report, Interp  # noqa: E402
from xa.facts import LIM            # noqa: E402
from xa.interp import SEEN          # noqa: E402

PROG = None


def key(o):
    return (o[0], o[1], o[2], "" if o[1] == "no-panic" else o[3])


def pkey(o):
    """Identity of an obligation in the known-findings file."""
    return "property=%s rule=%s func=%s what=%s" % (o[0], o[1], o[2], o[3])


def work(task):
    name, unroll, q = task
    t0 = time.time()
    rep = Report()
    err = None
    # tens: 1 scales literal sizes down, 2 looks at worlds without groups, 3 at worlds with at most one
    Interp.UNROLL, Interp.SCALE, Interp.GROUPS = unroll % 10, unroll // 10 == 1, {2: 0, 3: 1}.get(unroll // 10)
    LIM[0] = 0
    SEEN.clear()
    try:
        R.JOBS[name](PROG, rep)
    except Exception:
        err = traceback.format_exc()
        rep.add("*", "analysis", name, "analysis", "undecided", "the analyser failed: " + err.strip().split("\n")[-1])
    q.put((name, unroll, rep.obl, sorted(rep.funcs | SEEN), rep.paths, round(time.time() - t0, 2), err))


#: when a check has to be done, and how many seconds it gets
END = [None]
TOTAL = 700


def run_tasks(tasks, limit, width):
    """Run every task in its own process; tasks over the limit are stopped."""
    ctx = mp.get_context("fork")
    out, todo, live = {}, list(tasks), {}
    q = ctx.Queue()
    import queue
    while todo or live:
        if END[0] and time.time() > END[0]:
            # the whole check has a limit: what is still running stays open
            for t, (p, s) in list(live.items()):
                p.kill()
                p.join()
            for t in list(live) + todo:
                out[t] = (t[0], t[1], [("*", "analysis", t[0], "analysis", "undecided", "time limit")], [], 0, limit, "time limit")
            break
        while todo and len(live) < width:
            t = todo.pop(0)
            p = ctx.Process(target=work, args=((t[0], t[1], q),))
            p.start()
            live[t] = (p, time.time())
        try:
            r = q.get(timeout=0.05)
            t = (r[0], r[1])
            out[t] = r
            p = live.pop(t, None)
            if p:
                p[0].join()
            continue
        except queue.Empty:
            pass
        for t, (p, s) in list(live.items()):
            if time.time() - s > limit:
                p.kill()
                p.join()
                live.pop(t)
                out[t] = (t[0], t[1], [("*", "analysis", t[0], "analysis", "undecided", "time limit")], [], 0, limit, "time limit")
            elif not p.is_alive():
                try:
                    while True:
                        r = q.get(timeout=0.5)
                        t2 = (r[0], r[1])
                        out[t2] = r
                        pp = live.pop(t2, None)
                        if pp:
                            pp[0].join()
                except queue.Empty:
                    pass
                if t in live:
                    live.pop(t)
                    out[t] = (t[0], t[1], [("*", "analysis", t[0], "analysis", "undecided", "the analyser was stopped")], [], 0, 0, "stopped")
    return out


def decide(jobs, mine, tier="quick"):
    """Run the analyses. Returns (results, {job: iteration-by-iteration verdicts}, [(obligation without property, status, detail, job)]).

    An obligation refuted with loops summarised has to be refuted again with loops analysed iteration by
    iteration. An analysis that left something open is repeated iteration by iteration, and what that refutes counts."""
    limit = 240 if tier == "quick" else 400
    res = run_tasks([(j, 0) for j in jobs], limit, 8)
    if tier == "thorough":
        unr = sorted(R.LOOPS & set(jobs))
    else:
        unr = sorted({n for (n, u), r in res.items() if any(o[4] != "ok" and mine(o, n) for o in r[2])} & set(R.LOOPS))
    conf = {}
    if unr:
        r3 = run_tasks([(j, 3) for j in unr], limit, 8)
        again = [j for j in unr if any(o[4] == "undecided" for o in r3[(j, 3)][2])]
        r2 = run_tasks([(j, 2) for j in again], limit, 8) if again else {}
        few = [j for j in again if j in R.WORLDS and any(o[4] == "undecided" for o in r2[(j, 2)][2])]
        r23 = run_tasks([(j, 23) for j in few], limit, 8) if few else {}
        for j in unr:
            m = {}
            for rr in (r23.get((j, 23)), r2.get((j, 2)), r3.get((j, 3))):
                for o in (rr[2] if rr else []):
                    if m.get(key(o), ("",))[0] != "violated":
                        m[key(o)] = (o[4], o[5], o)
            conf[j] = m
        # what the summary refutes may need more iterations than were unrolled: sizes in the source are scaled down
        more = sorted({n for (n, u), r in res.items() if n in conf and any(o[4] == "violated" and mine(o, n) and conf[n].get(key(o), ("",))[0] != "violated" for o in r[2])})
        for u in (12, 13, 23, 33):
            r13 = run_tasks([(j, u) for j in more], limit, 8) if more else {}
            for j in list(more):
                bad = {key(o) for o in res[(j, 0)][2] if o[4] == "violated"}
                for o in r13[(j, u)][2]:
                    if o[4] == "violated" and key(o) in bad:
                        conf[j][key(o)] = (o[4], o[5] + {1: " | with literal sizes scaled down", 2: " | in a world without groups"}.get(u // 10, " | in a world with one group"), o)
                        bad.discard(key(o))
                if not bad:
                    more.remove(j)
    out = []
    for (n, u), r in sorted(res.items()):
        seen, opened = set(), any(o[4] == "undecided" for o in r[2])
        for o in r[2]:
            seen.add(key(o))
            if not mine(o, n):
                continue
            st, detail = o[4], o[5]
            if st != "ok" and n in R.LOOPS:
                c = conf.get(n, {}).get(key(o))
                if c is not None and c[0] == "violated":
                    st, detail = "violated", c[1]
                elif st == "violated":
                    st, detail = "undecided", "not confirmed with loops analysed iteration by iteration: " + detail[:300]
            out.append((tuple(o[:4]), st, detail, n))
        if opened or tier == "thorough":
            done = {key(o): o[4] for o in r[2]}
            for k, (st, d, o) in sorted(conf.get(n, {}).items()):
                if not mine(o, n) or done.get(k) == "violated" or done.get(k) == "undecided" and st == "violated":
                    continue
                if opened and st == "violated":
                    # with something open the summary's other answers need not cover every path
                    out.append((tuple(o[:4]), st, d, n))
                elif tier == "thorough":
                    out.append((tuple(o[:3]) + (o[3] + " [iteration by iteration]",), "undecided" if st == "violated" else st, d, n))
    return res, conf, out


def main():
    global PROG
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    verbose = "-v" in sys.argv
    t0 = time.time()
    END[0] = t0 + TOTAL
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    path, h = X.export()
    if path is None:
        print("the current tree does not compile; nothing can be decided")
        sys.exit(2)
    PROG = Prog(path)
    jobs = R.jobs_of(prop)

    def mine(o, job):
        return R.relevant(prop, o, job)

    res, conf, dec = decide(jobs, mine, tier)
    errs = [r[6] for r in res.values() if r[6]]
    unr = sorted(conf)
    allobl = [(prop,) + o[1:4] + (st, detail, n) for o, st, detail, n in dec]
    known, fixed = R.known()
    kept, shown, open_ = [], set(), []
    merged = {}
    for o in allobl:
        k = o[:4]
        order = {"violated": 2, "undecided": 1, "ok": 0}
        if k not in merged or order[o[4]] > order[merged[k][4]]:
            merged[k] = o
    for o in merged.values():
        if o[4] == "violated":
            pk = pkey(o)
            if pk in known:
                if pk not in shown:
                    print("KNOWN-FINDING: %s" % pk)
                shown.add(pk)
            else:
                kept.append(o)
        elif o[4] == "undecided":
            open_.append(o)
    oks = [o for o in merged.values() if o[4] == "ok"]
    funcs = sorted({f for r in res.values() for f in r[3]})
    floor = R.FLOORS.get(prop, 1)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": R.EXPLAIN.get(prop, "") + " Deciding method: abstract interpretation of the compiler's MIR of the current tree (no code of xecs is run). "
            "Each obligation is a rule instance at a function; it is discharged when it follows on every abstract path.",
            "tree": h,
            "obligations": len(merged), "discharged": len(oks), "open": len(open_), "refuted": len(kept), "known_findings": len(shown),
            "abstract_paths": sum(r[4] for r in res.values()),
            "functions_analysed": funcs, "analyses": {n: r[5] for (n, u), r in sorted(res.items())},
            "unrolled_analyses": sorted(unr),
            "floor": floor, "floor_met": len(merged) >= floor,
            "rules": {r: sum(1 for o in merged.values() if o[1] == r) for r in sorted({o[1] for o in merged.values()})},
            "discharged_obligations": [{"rule": o[1], "func": o[2], "what": o[3]} for o in oks],
            "open_obligations": [{"rule": o[1], "func": o[2], "what": o[3], "why": o[5][:400]} for o in open_],
            "refuted_obligations": [{"rule": o[1], "func": o[2], "what": o[3], "why": o[5][:1500]} for o in kept],
        },
        "assumptions": R.ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(kept),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations over %d functions: %d discharged, %d open, %d refuted (%.1fs)" % (
        prop, len(merged), len(funcs), len(oks), len(open_), len(kept), time.time() - t0))
    for e in errs:
        if verbose:
            print(e)
    for o in open_:
        print("OPEN %s %s: %s -- %s" % (o[1], o[2], o[3], o[5][:600 if verbose else 160]))
    if kept:
        rp = os.path.join(V, "evidence", prop + ".replay.txt")
        with open(rp, "w") as f:
            for o in kept:
                f.write("%s\n  rule: %s\n  function: %s\n  obligation: %s\n  why: %s\n\n" % (pkey(o), o[1], o[2], o[3], o[5]))
        for o in kept:
            print("REFUTED %s in %s: %s -- %s" % (o[1], o[2], o[3], o[5][:1500 if verbose else 300]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
