#!/usr/bin/env python3
"""mkpatch.py ID PROPERTY : write /verif/seeded/ID/{patch.diff,meta.json} from edits on stdin ('file<<<old===new' separated by @@@, then
'%%%' needs '%%%' what_it_breaks).  Development only."""
import json, os, subprocess, sys, difflib

i, prop = sys.argv[1:3]
txt, needs, what = sys.stdin.read().split("%%%")
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
files = {}
for part in txt.split("@@@"):
    if not part.strip():
        continue
    f, rest = part.strip("\n").split("<<<", 1)
    old, new = rest.split("===", 1) if "\n===\n" not in rest else rest.split("\n===\n", 1)
    f = f.strip()
    s = files.get(f) or open("/repo/" + f).read()
    old, new = old.strip("\n"), new.strip("\n")
    assert s.count(old) >= 1, ("not found", f, old)
    if s.count(old) > 1:
        print("note: several matches, first one edited")
    files[f] = s.replace(old, new, 1)
out = ""
for f, s in files.items():
    o = open("/repo/" + f).read()
    out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": what.strip()}, open(d + "/meta.json", "w"), indent=1)
print(out[:1500])
