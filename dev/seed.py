#!/usr/bin/env python3
"""Plant bugs: seed.py [names...]. Reads dev/seeds/*.py (each defines BUGS = [dict(id, property, edits, main, needs, breaks)]),
confirms each one in a scratch copy and writes /verif/seeded/<id>/."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/xaseed"
STABLE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/crate/src"
cp "$here/main.rs" "$d/crate/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/crate/Cargo.lock"
cat > "$d/crate/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xecs = { path = "$repo" }
[workspace]
E
cd "$d/crate" || exit 3
CARGO_TARGET_DIR=$d/target cargo build --offline >"$d/build.log" 2>&1 || { cat "$d/build.log"; exit %d; }
timeout 60 "$d/target/debug/demo"
'''
# The program breaks a rule of the library: the compiler has to refuse it, and nothing else may be wrong with it.
REJECT = DEMO[:DEMO.index("CARGO_TARGET_DIR")] + '''if CARGO_TARGET_DIR=$d/target cargo build --offline >"$d/build.log" 2>&1; then
    echo "a program that breaks the rules is accepted"
    exit 1
fi
grep -q "could not compile .demo." "$d/build.log" || { cat "$d/build.log"; exit 4; }
exit 0
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    bugs = []
    for p in sorted(glob.glob(V + "/dev/seeds/*.py")):
        ns = {}
        exec(open(p).read(), ns)
        bugs += ns["BUGS"]
    # lines of the original repository
    for b in bugs:
        if names and not any(n in b["id"] for n in names) or b.get("skip"):
            continue
        out = V + "/seeded/" + b["id"]
        if not names and os.path.exists(out + "/patch.diff"):
            continue
        subprocess.run(["rm", "-rf", W])
        os.makedirs(W)
        subprocess.run(["git", "clone", "-q", "/repo", W + "/repo"])
        # the last build's dependencies
        os.makedirs(W + "/repo/target", exist_ok=True)
        d = W + "/demo"
        os.makedirs(d)
        open(d + "/main.rs", "w").write(b["main"])
        open(d + "/demo.sh", "w").write(REJECT if b.get("reject") else DEMO % (1 if b.get("compile") else 4))
        os.chmod(d + "/demo.sh", 0o755)
        clean = sh(["bash", d + "/demo.sh"], W + "/repo")
        good = True
        for f, old, new in b["edits"]:
            p = W + "/repo/" + f
            s = open(p).read()
            if s.count(old) < 1:
                print(b["id"], "EDIT DOES NOT APPLY", f, old[:60])
                good = False
                continue
            n = b.get("nth", {}).get(f, 0)
            i = -1
            for _ in range(n + 1):
                i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        if not good:
            continue
        diff = sh(["git", "diff"], W + "/repo").stdout
        # every removed line has to be one of the original commit
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], W + "/repo").stdout.strip()
        touched = []
        f, ln = None, 0
        for l in sh(["git", "diff", "-U0"], W + "/repo").stdout.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
            elif l.startswith("@@"):
                ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                touched.append((f, ln))
                ln += 1
        mine = [(f, n) for f, n in touched if base[:8] not in sh(["git", "blame", "-l", "-L%d,%d" % (n, n), "HEAD", "--", f], W + "/repo").stdout.split()[0]]
        env = dict(os.environ, CARGO_TARGET_DIR=W + "/repo/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
        t = sh(["cargo", "test", "--offline", "--lib", "--no-fail-fast", "--", "--test-threads", "8"], W + "/repo", env=env)
        # 'test result: ok' of the unit tests
        passed = sum(1 for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok"))
        broken = sh(["bash", d + "/demo.sh"], W + "/repo")
        verdict = clean.returncode == 0 and broken.returncode not in (0, 4) and t.returncode == 0 and passed >= 14 and (not mine or b.get("loose")) and touched
        print("%-34s %s (clean %d, tests %d/%d, patched %d, lines %d, of fixes %d)" % (b["id"], "OK" if verdict else "**** NO", clean.returncode, t.returncode, passed, broken.returncode, len(touched), len(mine)))
        if not verdict or "-v" in sys.argv:
            print(clean.stdout[-600:] if clean.returncode else "", t.stdout[-600:] if t.returncode else "", broken.stdout[-600:])
        if verdict:
            subprocess.run(["rm", "-rf", out])
            os.makedirs(out)
            open(out + "/patch.diff", "w").write(diff)
            shutil.copy(d + "/main.rs", out)
            shutil.copy(d + "/demo.sh", out)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        sys.stdout.flush()
    subprocess.run(["rm", "-rf", "/tmp/xaseed"])


if __name__ == "__main__":
    main()
