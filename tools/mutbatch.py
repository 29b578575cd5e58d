#!/usr/bin/env python3
"""mutbatch.py FILE [NAME..] : run a batch of trial edits, each `#### name CHECKS bug|ref` followed by mut.py edits; prints surprises.
Used while developing; no registered command uses it."""
import os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import queue

W = int(os.environ.get("W", "3"))
slots = queue.Queue()
for i in range(W):
    slots.put(i)
items = []
for part in re.split(r"^#### ", open(sys.argv[1]).read(), flags=re.M)[1:]:
    head, body = part.split("\n", 1)
    n, checks, kind = head.split()
    if len(sys.argv) > 2 and not any(re.search(x, n) for x in sys.argv[2:]):
        continue
    items.append((n, checks, kind, body))


def edits(M, body):
    for part in body.split("\n@@@\n"):
        if not part.strip():
            continue
        f, rest = part.strip("\n").split("<<<", 1)
        old, new = rest.split("\n===", 1)
        f = os.path.join(M, f.strip())
        old, new = old.strip("\n"), new.strip("\n")
        s = open(f).read()
        if s.count(old) < 1:
            raise AssertionError(f"not found in {f}: {old[:80]}")
        s = s.replace(old, new, 1)
        open(f, "w").write(s)


def one(it):
    n, checks, kind, body = it
    i = slots.get()
    M, B = f"/tmp/mb{i}/repo", f"/tmp/mb{i}/build"
    try:
        os.makedirs(M, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", M + "/"], check=True)
        try:
            edits(M, body)
        except AssertionError as x:
            return f"?? {n}: {x}"
        env = dict(os.environ, RML_REPO=M, RML_BUILD=B, RUST_BACKTRACE="0")
        out = []
        for c in checks.split(","):
            p = subprocess.run(["python3", "/verif/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if kind == "bug" else 0
            vio = "VIOLATION property=" in p.stdout
            ok = p.returncode == want and vio == bool(want)
            ls = [l for l in p.stdout.splitlines() if not l.startswith("KNOWN")]
            out.append(f"{'ok ' if ok else '!!!'} {n} {c} {kind} rc={p.returncode}")
            N = int(os.environ.get("N", "8"))
            if not ok:
                err = [l for l in ls if l.startswith("error")]
                out += ["      " + l[:300] for l in (err or ls)[:N]]
            else:
                out += ["      " + l[:200] for l in ls[1:3]]
        return "\n".join(out)
    finally:
        slots.put(i)


with ThreadPoolExecutor(W) as ex:
    for r in ex.map(one, items):
        print(r, flush=True)
