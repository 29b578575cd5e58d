#!/usr/bin/env python3
"""seed.py ID...|all : confirm planted bugs in a scratch copy of /repo (applies, builds, stable tests pass, demo 0 before / non-zero after)
and run the property's check against each (development only; no registered command uses it).  NOTEST=1 skips tests, NOCHECK=1 the check."""
import json, os, subprocess, sys

S = "/tmp/seedrepo"
V = "/tmp/seedvp"
ids = sys.argv[1:]
SEED = "/verif/seeded"
if ids == ["all"]:
    ids = sorted(os.listdir(SEED))
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(S):
    sh(f"cp -a /repo {S}")
os.makedirs(V, exist_ok=True)
for f in ("build.sh", "test.sh", "env.sh", "results.py"):
    s = open("/opt/vp/" + f).read().replace("/repo", S).replace("/opt/vp/" + f.split(".")[0], V + "/" + f.split(".")[0])
    s = s.replace("/opt/vp/env.sh", V + "/env.sh").replace("/opt/vp/results.py", V + "/results.py")
    open(os.path.join(V, f), "w").write(s)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
sh(f"rsync -a --no-times --checksum --delete --exclude target --exclude .git /repo/ {S}/")


def build():
    return sh(f"bash {V}/build.sh")


def demo(i):
    tmp = sh("mktemp -d").stdout.strip()
    sh(f"cp -r {SEED}/{i}/. {tmp}/ && rm -f {tmp}/*.diff {tmp}/meta.json")
    try:
        r = sh(f"bash {tmp}/demo.sh", cwd=S, timeout=300)
    finally:
        sh(f"rm -rf {tmp}")
    return r


b = build()
assert b.returncode == 0, b.stdout[-800:]
base = {}
for i in ids:
    r = demo(i)
    base[i] = r.returncode
    if r.returncode:
        print(i, "demo FAILS on the unchanged tree", r.stdout[-600:])
for i in ids:
    meta = json.load(open(f"{SEED}/{i}/meta.json"))
    a = sh(f"patch -p1 --dry-run < {SEED}/{i}/patch.diff && git -C /repo apply --check {SEED}/{i}/patch.diff && patch -p1 < {SEED}/{i}/patch.diff", cwd=S)
    if a.returncode:
        print(i, "patch does not apply", a.stdout[-300:])
        continue
    out = [i, meta["property"]]
    try:
        b = build()
        out.append("build ok" if b.returncode == 0 else "BUILD FAILS " + b.stdout[-500:])
        if b.returncode == 0:
            if not os.environ.get("NOTEST"):
                sh(f"bash {V}/test.sh /tmp/seedout.json")
                o = json.load(open("/tmp/seedout.json"))
                miss = stable - set(o["passed"])
                out.append("tests ok" if not miss else f"TESTS FAIL {sorted(miss)[:3]}")
                build()
            r = demo(i)
            out.append(f"demo {r.returncode}" + ("" if r.returncode else " DEMO PASSES"))
            if os.environ.get("SHOW"):
                out.append(r.stdout[-400:])
            if not os.environ.get("NOCHECK"):
                env = dict(os.environ, RML_REPO=S, RML_BUILD="/tmp/seedbuild", RUST_BACKTRACE="0")
                c = subprocess.run(["python3", "/verif/check.py", meta["property"]], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out.append(f"check {c.returncode}" + (" CAUGHT" if c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout else " MISSED"))
                out.append("; ".join(l.strip()[:110] for l in c.stdout.splitlines() if "violated" in l)[:300])
    finally:
        sh(f"patch -R -p1 < {SEED}/{i}/patch.diff", cwd=S)
        sh(f"rsync -a --no-times --checksum --delete --exclude target --exclude .git /repo/ {S}/")
    print(" | ".join(map(str, out)), flush=True)
