"""Obligations, violations, known findings, evidence."""
import json, os, re, time
import facts

KNOWN = os.path.join(facts.VERIF, "known_findings.txt")


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obls = []  # (key, ok, msg, where)
        self.counts = {}
        self.notes = []
        self.assume = []
        self.rule = ""
        self.tags = ["rel"]
        self.tag = "rel"
        self.seen = set()

    # -- facts
    def prog(self, tag=None):
        return facts.program(tag or self.tag)

    # -- results
    def ob(self, key, ok, msg="", where=""):
        """one proof obligation; `key` identifies the construct without line numbers"""
        key = re.sub(r"\s+", "_", str(key))
        self.obls.append((key, bool(ok), msg, where))
        return bool(ok)

    def bad(self, key, msg, where=""):
        return self.ob(key, False, msg, where)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least, why=""):
        """fail closed when fewer instances than confirmed by hand were analysed"""
        self.counts[name] = n
        self.ob(f"floor:{name}", n >= least, f"only {n} {name} analysed, at least {least} expected: the rule no longer sees the code it decides {why}")

    def anchor(self, key, x, msg=""):
        self.ob(f"anchor:{key}", bool(x), f"construct to analyse not found: {msg or key}")
        return x

    def note(self, s):
        self.notes.append(s)

    # -- finish
    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        viol = {}
        for key, ok, msg, where in self.obls:
            if not ok and key not in viol:
                viol[key] = (msg, where)
        kf = {k: v for k, v in viol.items() if k in known}
        nv = {k: v for k, v in viol.items() if k not in known}
        ev = os.path.join(facts.VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, f"{self.pid}.replay.json")
        if viol:
            with open(rp, "w") as f:
                json.dump([{"key": k, "message": m, "where": w, "known": k in known} for k, (m, w) in viol.items()], f, indent=1)
        elif os.path.exists(rp):
            os.remove(rp)
        keys = sorted({o[0] for o in self.obls})
        good = sorted({o[0] for o in self.obls if o[1]})
        cov = {
            "explanation": "Static analysis of the type-checked program (MIR extracted from /repo's working tree by a rustc driver on this run). Rule: " + self.rule,
            "obligations": len(keys),
            "discharged": len([k for k in keys if k not in viol]),
            "checker_cmd": f"python3 check.py {self.pid}",
            "trusted_base": ["rustc nightly front end (MIR construction, trait resolution)", "/verif/extractor", "/verif/analysis"],
            "samples": [{"obligation": o[0], "holds": o[1], "where": o[3]} for o in self.obls[:: max(1, len(self.obls) // 40)]][:60],
            "analysed": self.counts,
            "notes": self.notes,
            "known_findings": sorted(kf),
        }
        with open(os.path.join(ev, f"{self.pid}.json"), "w") as f:
            json.dump(
                {
                    "property": self.pid,
                    "tier": self.tier,
                    "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                    "level": "other",
                    "coverage": cov,
                    "assumptions": self.assume,
                    "wall_s": round(time.time() - self.t0, 2),
                    "violations": len(nv),
                },
                f,
                indent=1,
            )
        print(f"{self.pid}: {len(keys)} obligations, {len(keys) - len(viol)} discharged; " + ", ".join(f"{k}={v}" for k, v in self.counts.items()))
        for k, (m, w) in kf.items():
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]}")
        if nv:
            for k, (m, w) in list(nv.items())[:40]:
                print(f"  violated: {k}\n    {m}" + (f"\n    at {w}" if w else ""))
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0
