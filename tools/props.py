#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; the checks themselves do not use it)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "reductionml-core/src/"
C = "reductionml-cli/src/"
PY = "reductionml-python/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state))


RED = [R + "reductions/" + f for f in ("binary.rs", "cb_adf.rs", "cb_explore_adf_greedy.rs", "cb_explore_adf_softmax.rs", "cb_explore_adf_squarecb.rs", "coin.rs", "debug.rs", "elementwise_interaction.rs")]
BASE = "Trusts the rustc front end, the MIR extractor and the models of standard-library functions. "

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "analysis", "checks")) if f.startswith("c") and f.endswith(".py")}
m = {
    "version": 1,
    "setup_cmd": "python3 analysis/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "Static analysis only. Every check rebuilds its facts (MIR of all four crates, both cfg(debug_assertions) settings) from /repo's working tree. No hooks in /repo; /repo carries only fix: commits, listed in known_findings.txt.",
}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    elif p["id"] in have:
        m["checks"].append(
            {
                "property": p["id"],
                "quick_cmd": f"python3 check.py {p['id']}",
                "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                "technique": p["technique"],
                "level": "other",
                "level_note": p["note"] + " " + BASE.strip(),
            }
        )
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
