#!/usr/bin/env python3
"""Which checks report the planted bugs: seedcheck.py [names...]"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
V, W = mut.V, mut.W
names = [a for a in sys.argv[1:] if not a.startswith("-")]
os.makedirs(W, exist_ok=True)
for b in sorted(os.listdir(V + "/seeded")):
    if names and not any(n in b for n in names):
        continue
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    subprocess.run(["rm", "-rf", W + "/repo"])
    subprocess.run(["cp", "-a", "/repo", W + "/repo"])
    subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, b)], cwd=W + "/repo", check=True)
    t = time.time()
    r = mut.run(sorted(mut.R.JOBS))
    if r is None:
        print(b, "DOES NOT COMPILE")
        continue
    v, op, _ = r
    print("%-32s %-4s %s got %s, %d open (%.0fs)" % (b, meta["property"], "caught" if meta["property"] in v else "**** MISSED", sorted(v), len(op), time.time() - t))
    if "-v" in sys.argv or meta["property"] not in v:
        for p in sorted(v):
            for o in v[p][:2]:
                print("    ", p, o[2], o[3], "|", str(o[6])[:200])
        for o in op[:4]:
            print("     open", o[1:4], "|", str(o[6])[:200])
    sys.stdout.flush()
subprocess.run(["rm", "-rf", W + "/repo"])
