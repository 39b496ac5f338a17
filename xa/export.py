"""Build the exporter and export the MIR of /repo's current working tree."""
import hashlib
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XA_REPO", "/repo")
BUILD = os.environ.get("XA_BUILD", os.path.join(V, "build"))
TC = "nightly"


def run(cmd, cwd, env=None, quiet=True):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
    return r.returncode == 0, r.stdout


def sysroot():
    return subprocess.check_output(["rustc", "+" + TC, "--print", "sysroot"], text=True).strip()


def driver():
    """Build the MIR exporter (offline) and return its path."""
    exe = os.path.join(V, "driver", "target", "debug", "mirx")
    src = os.path.join(V, "driver", "src")
    if not os.path.exists(exe) or any(os.path.getmtime(exe) < os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src)):
        ok, out = run(["cargo", "+" + TC, "build", "--offline"], os.path.join(V, "driver"))
        if not ok:
            raise SystemExit("cannot build the MIR exporter")
    return exe


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                files.append(os.path.join(d, f))
    files += [os.path.join(V, "driver", "src", "main.rs"), os.path.join(V, "driver", "src", "api.rs"), os.path.join(V, "harness", "Cargo.toml"), os.path.join(V, "harness", "src", "lib.rs")]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def export():
    """Path of the exported program, or None when the tree does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, "xecs-%s.json" % key)
    if os.path.exists(out) and os.path.getsize(out) > 1000:
        return out, key
    exe = driver()
    for f in os.listdir(BUILD):
        if f.startswith("xecs-") and f.endswith(".json"):
            os.remove(os.path.join(BUILD, f))
    tgt = os.path.join(BUILD, "target")
    tmp = out + ".tmp"
    har = os.path.join(V, "harness")
    if REPO != "/repo":
        h2 = os.path.join(BUILD, "harness")
        subprocess.run(["rm", "-rf", h2])
        subprocess.run(["cp", "-a", har, h2])
        c = open(os.path.join(h2, "Cargo.toml")).read().replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(h2, "Cargo.toml"), "w").write(c)
        har = h2
    # cargo must not take an earlier build of the crate for this tree
    for attempt in (0, 1):
        if attempt:
            subprocess.run(["rm", "-rf", os.path.abspath(tgt)])
        for d in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build"), os.path.join(tgt, "debug", "incremental")):
            for f in os.listdir(d) if os.path.isdir(d) else []:
                if f == "xecs" or f.startswith("xecs-"):
                    subprocess.run(["rm", "-rf", os.path.join(os.path.abspath(d), f)])
        ok, log = run(["cargo", "+" + TC, "check", "--offline"], har,
                      {"LD_LIBRARY_PATH": sysroot() + "/lib", "RUSTC_WRAPPER": exe, "MIRX_CRATE": "xecs", "MIRX_OUT": tmp, "CARGO_TARGET_DIR": tgt})
        if not ok:
            return None, key
        if os.path.exists(tmp):
            break
    if not os.path.exists(tmp):
        return None, key
    os.replace(tmp, out)
    return out, key


def metadata():
    """The crate's compiled metadata and the directory of its dependencies, for the exported tree."""
    for again in (0, 1):
        if again:
            for f in os.listdir(BUILD):
                if f.startswith("xecs-") and f.endswith(".json"):
                    os.remove(os.path.join(BUILD, f))
            export()
        found, dirs = [], set()
        for d, ds, fs in os.walk(os.path.join(BUILD, "target", "debug")):
            for f in fs:
                if f.endswith(".rmeta") and "incremental" not in d:
                    dirs.add(d)
                    if f.startswith("libxecs-"):
                        found.append(os.path.join(d, f))
                elif f.endswith(".so"):
                    dirs.add(d)
        if found:
            return max(found, key=os.path.getmtime), sorted(dirs)
    return None, None


def scratch(name):
    d = os.path.join(BUILD, "%s-%d" % (name, os.getpid()))
    subprocess.run(["rm", "-rf", os.path.abspath(d)])
    os.makedirs(d)
    return d
