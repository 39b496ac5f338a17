#!/usr/bin/env python3
"""Random behaviour-preserving rewrites of the whole crate: refac.py find | run SEED RATE [SEED RATE]...

find: which sites compile alone (list in /tmp/refac_sites.json, a rejected site is one the compiler refuses).
run:  trees with a random share of the good sites rewritten; every check has to stay quiet on them."""
import json, os, random, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = "/tmp/refac_target/release/refac"
LIST = "/tmp/refac_sites.json"
W = os.environ.setdefault("XAMUT", "/tmp/xarefac")
FILES = sorted(subprocess.run(["git", "-C", "/repo", "ls-files", "src"], stdout=subprocess.PIPE, text=True).stdout.split())


def build():
    subprocess.run(["cargo", "build", "-q", "--offline", "--release", "--manifest-path", V + "/dev/refac/Cargo.toml"], env=dict(os.environ, CARGO_TARGET_DIR="/tmp/refac_target"), check=True)


def apply(repo, sites):
    for f in FILES:
        on = [str(n) for g, n in sites if g == f]
        src = "/repo/" + f
        if not on:
            subprocess.run(["cp", src, repo + "/" + f])
            continue
        r = subprocess.run([BIN, src, ",".join(on)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return False
        open(repo + "/" + f, "w").write(r.stdout)
    return True


def compiles(repo, sites, full=False):
    if not apply(repo, sites):
        return False
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=repo + "/../target")
    cmd = ["cargo", "test", "-q", "--offline", "--lib"] if full else ["cargo", "check", "-q", "--offline"]
    # the clock is too coarse for cargo's own test of freshness
    subprocess.run("rm -rf %s/../target/debug/.fingerprint/xecs-*" % repo, shell=True)
    return subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def good(repo, sites, base=()):
    """A subset of the sites that compiles together with base, by halving."""
    base = list(base)
    if not sites:
        return []
    if compiles(repo, base + sites):
        return sites
    if len(sites) == 1:
        return []
    h = len(sites) // 2
    a = good(repo, sites[:h], base)
    return a + good(repo, sites[h:], base + a)


def fresh(d):
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"])


def worker(i, n):
    d = "/tmp/refac_w%d" % i
    fresh(d)
    out = []
    for k, f in enumerate(FILES):
        kinds = subprocess.run([BIN, "/repo/" + f, "list"], stdout=subprocess.PIPE, text=True).stdout.split()
        for j in range(0, len(kinds), 8):
            if (k * 7 + j // 8) % n != i:
                continue
            chunk = [(f, x) for x in range(j, min(j + 8, len(kinds)))]
            # overlapping sites of one construct may exclude each other: alone each
            for g, x in good(d + "/repo", chunk):
                out.append((g, x, kinds[x]))
    json.dump(out, open(LIST + ".%d" % i, "w"))
    subprocess.run(["rm", "-rf", d])


def main():
    build()
    if sys.argv[1] == "find":
        n = 6
        ps = [subprocess.Popen([sys.executable, __file__, "worker", str(i), str(n)]) for i in range(n)]
        for p in ps:
            p.wait()
        out = []
        for i in range(n):
            out += json.load(open(LIST + ".%d" % i))
            os.remove(LIST + ".%d" % i)
        json.dump(sorted(out), open(LIST, "w"))
        print(len(out), "sites")
        return
    if sys.argv[1] == "worker":
        worker(int(sys.argv[2]), int(sys.argv[3]))
        return
    sys.path.insert(0, V + "/dev")
    import mut
    sites = json.load(open(LIST))
    a = sys.argv[2:]
    for seed, rate in zip(a[::2], a[1::2]):
        rnd = random.Random(int(seed))
        pick = [(f, x) for f, x, k in sites if rnd.random() < float(rate)]
        fresh(W)
        # sites that exclude each other
        pick2 = []
        for f in FILES:
            mine = [s for s in pick if s[0] == f]
            pick2 += good(W + "/repo", mine, pick2)
        if not compiles(W + "/repo", pick2, True):
            print(seed, rate, "DOES NOT PASS THE TESTS")
            continue
        t = time.time()
        r = mut.run(sorted(mut.R.JOBS))
        if r is None:
            print(seed, rate, "NO EXPORT")
            continue
        v, op, secs = r
        print("seed %s rate %s: %d sites, got %s, %d open (%.0fs)" % (seed, rate, len(pick2), sorted(v), len(op), time.time() - t))
        for p in sorted(v):
            for o in v[p][:3]:
                print("    ", p, o[2], o[3], "|", o[4], "|", str(o[6])[:250])
        for o in op[:8]:
            print("     open", o[1:4], "|", o[4], "|", str(o[6])[:160])
        if v or "-k" in sys.argv:
            keep = "/tmp/refac_keep_%s_%s" % (seed, rate)
            subprocess.run(["rm", "-rf", keep])
            subprocess.run(["cp", "-a", W + "/repo", keep])
            json.dump(pick2, open(keep + "/sites.json", "w"))
        sys.stdout.flush()
    subprocess.run(["rm", "-rf", W])


if __name__ == "__main__":
    main()
