#!/usr/bin/env python3
"""mut.py CHECKS PATCH|-  : apply a patch (or 'file<<<old===new' edits from stdin) to a scratch copy and run checks on it.
Used while developing; no registered command uses it."""
import os, subprocess, sys

M = "/tmp/mutrepo"
subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", M + "/"], check=True)
checks = sys.argv[1].split(",")
if sys.argv[2] == "-":
    for part in sys.stdin.read().split("@@@"):
        if not part.strip():
            continue
        f, rest = part.strip("\n").split("<<<", 1)
        old, new = rest.split("===", 1)
        f = os.path.join(M, f.strip())
        old, new = old.strip("\n"), new.strip("\n")
        s = open(f).read()
        assert s.count(old) >= 1, ("not found", f, old)
        open(f, "w").write(s.replace(old, new, 1))
else:
    subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + M, os.path.abspath(sys.argv[2])], check=True, cwd="/")
env = dict(os.environ, RML_REPO=M, RML_BUILD="/tmp/mutbuild", RUST_BACKTRACE="0")
for c in checks:
    p = subprocess.run(["python3", "/verif/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(c, "->", p.returncode)
    print("\n".join(l[:400] for l in p.stdout.splitlines()[:int(os.environ.get("N","14"))] if not l.startswith("KNOWN")))
