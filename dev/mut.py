#!/usr/bin/env python3
"""Try edits of xecs against the analyses: mut.py FILE-WITH-EDITS [name...]

The file defines E = [(name, expectation, [(path, old, new)...]), ...]; expectation is a set of
properties that should report, or None for edits that keep the behaviour."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("XAMUT", "/tmp/xamut")
os.environ["XA_REPO"] = W + "/repo"
os.environ["XA_BUILD"] = W + "/build"
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
import check as C
from xa import export as X, registry as R
from xa.prog import Prog


def run(jobs):
    path, h = X.export()
    if path is None:
        return None
    C.PROG = Prog(path)
    res, conf, dec = C.decide(jobs, lambda o, n: True)
    known, _ = R.known()
    viol, open_ = {}, []
    for o, st, detail, n in dec:
        o = o + (st, detail)
        if st == "undecided":
            open_.append((n,) + o)
        if st != "violated":
            continue
        for p in R.USES:
            if n in R.USES[p] and R.relevant(p, o, n) and C.pkey((p,) + o[1:]) not in known:
                viol.setdefault(p, []).append((n,) + o)
    return viol, open_, {n: r[5] for (n, u), r in res.items()}


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    names = [a for a in sys.argv[2:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    os.makedirs(W, exist_ok=True)
    for name, exp, edits in ns["E"]:
        if names and not any(x in name for x in names):
            continue
        subprocess.run(["rm", "-rf", W + "/repo"])
        subprocess.run(["cp", "-a", "/repo", W + "/repo"])
        ok = True
        for f, old, new in edits:
            p = W + "/repo/" + f
            s = open(p).read()
            if old not in s:
                print(name, "EDIT DOES NOT APPLY", f)
                ok = False
                continue
            open(p, "w").write(s.replace(old, new, 1))
        if not ok:
            continue
        t = time.time()
        r = run(sorted(R.JOBS))
        if r is None:
            print(name, "DOES NOT COMPILE")
            continue
        v, op, _ = r
        got = set(v)
        verdict = "ok" if (exp is None and not got) or (exp is not None and (exp & got or exp == set() and got)) else "**** WRONG"
        print("%-40s %-10s expected %s got %s, %d open (%.0fs)" % (name, verdict, sorted(exp) if exp is not None else "silence", sorted(got), len(op), time.time() - t))
        if verbose or verdict != "ok":
            for p in sorted(got):
                for o in v[p][:4 if verbose else 2]:
                    print("    ", p, o[2], o[3], "|", o[4], "|", str(o[6])[:300])
            for o in op[:6 if verbose else 3]:
                print("     open", o[1:4], "|", o[4], "|", str(o[6])[:200])
        sys.stdout.flush()
    subprocess.run(["rm", "-rf", W + "/repo"])


if __name__ == "__main__":
    main()
