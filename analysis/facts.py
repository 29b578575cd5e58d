"""Facts loader: builds the rustc driver, extracts the type-checked program of /repo (MIR etc.) and loads it."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RML_REPO", "/repo")
BUILD = os.environ.get("RML_BUILD", os.path.join(VERIF, ".build"))
DRV_SRC = os.path.join(VERIF, "extractor")
CRATES = ["reductionml_core", "reml-bin", "reductionml", "reductionml_docs_extension"]


class ToolError(Exception):
    pass


def _tree_files(root):
    out = []
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in (".git", "target", ".build", "node_modules", "__pycache__", ".venv"))
        for f in sorted(fn):
            if f.endswith((".rs", ".toml", ".lock", ".json", ".py", ".pyi", ".md")):
                out.append(os.path.join(dp, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, DRV_SRC):
        for f in _tree_files(base):
            h.update(f.encode())
            h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, env, cwd, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver(log):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "drv")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    rc, out = _run(["cargo", "+nightly", "build", "--offline", "-q"], env, DRV_SRC)
    if rc != 0:
        raise ToolError("building the extractor failed:\n" + out[:3000] + "\n...\n" + out[-1500:])
    return os.path.join(BUILD, "drv", "debug", "rml-extract")


def ensure(log=lambda m: None):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        d = os.path.join(BUILD, "facts", h)
        if os.path.exists(os.path.join(d, "ok")):
            return d
        drv = build_driver(log)
        for old in glob.glob(os.path.join(BUILD, "facts", "*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        ws = os.path.join(BUILD, "ws")
        # cargo's freshness cache would skip the wrapper: forget the workspace members' fingerprints
        for f in glob.glob(os.path.join(ws, "debug", ".fingerprint", "re*ml*")) + glob.glob(os.path.join(ws, "debug", "build", "re*ml*")):
            shutil.rmtree(f, ignore_errors=True)
        env = dict(os.environ)
        env.update(
            CARGO_TARGET_DIR=ws,
            RML_FACTS_OUT=d,
            RUSTC_WORKSPACE_WRAPPER=drv,
            LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
            CARGO_INCREMENTAL="0",
        )
        env["RUSTFLAGS"] = "--cap-lints allow"
        rc, out = _run(["cargo", "+nightly", "check", "--workspace", "--offline", "-q"], env, REPO)
        if rc != 0:
            raise ToolError("cargo check of /repo failed:\n" + out[:3000] + "\n...\n" + out[-1500:])
        for c in CRATES:
            for tag in ("dev", "rel"):
                if not os.path.exists(os.path.join(d, f"{c}.{tag}.json")):
                    raise ToolError(f"no facts for crate {c} ({tag})")
        open(os.path.join(d, "ok"), "w").close()
        return d


class Ty:
    __slots__ = ("s", "k", "adt", "a", "mut", "vs", "ds", "id", "path", "trait", "auto", "n", "name", "ctor", "key")

    def __init__(self, o):
        for f in Ty.__slots__:
            setattr(self, f, o.get(f))
        if self.a is None:
            self.a = []

    def __repr__(self):
        return self.s

    def strip(self):
        """peel references / Box"""
        t = self
        while t.k in ("ref", "ptr") or (t.k == "adt" and t.adt == "alloc::boxed::Box" and t.a):
            t = t.a[0]
        return t

    def isadt(self, p):
        return self.k == "adt" and self.adt == p


class Body:
    def __init__(self, o, types, crate):
        self.o = o
        self.types = types
        self.crate = crate
        self.id = o["id"]
        self.path = o["path"]
        self.kind = o["kind"]
        self.argc = o.get("argc", 0)
        self.span = o.get("span", "")
        self.locals = o.get("locals", [])
        self.bb = o.get("bb", [])
        self.trait = o.get("trait")
        self.m = o.get("m")
        self.self_ty = types[o["self"]] if "self" in o else None
        self.derived = bool(o.get("derived"))
        self.root = o.get("root")
        self.gen = o.get("gen", [])
        self.default = bool(o.get("default"))

    def lty(self, l):
        return self.types[self.locals[l]["t"]]

    def lname(self, l):
        return self.locals[l].get("n")

    def __repr__(self):
        return f"<{self.path}>"


class Program:
    def __init__(self, d, tag="dev", crates=CRATES):
        self.dir = d
        self.tag = tag
        self.bodies = {}
        self.by_path = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.unsafe_blocks = []
        self.crates = {}
        for c in crates:
            with open(os.path.join(d, f"{c}.{tag}.json")) as f:
                j = json.load(f)
            types = [Ty(t) for t in j["types"]]
            for t in types:
                t.a = [types[i] for i in t.a]
            self.crates[c] = types
            for b in j["bodies"]:
                bo = Body(b, types, c)
                self.bodies[bo.id] = bo
                self.by_path.setdefault(bo.path, bo)
            for a in j["adts"]:
                a["types"] = types
                a["crate"] = c
                self.adts[a["path"]] = a
            for i in j["impls"]:
                i["types"] = types
                i["crate"] = c
                i["self_ty"] = types[i["self"]]
                self.impls.append(i)
            for t in j["traits"]:
                t["types"] = types
                self.traits[t["path"]] = t
            for u in j["unsafe_blocks"]:
                u["crate"] = c
                self.unsafe_blocks.append(u)

    def impls_of(self, trait):
        return [i for i in self.impls if i.get("trait") == trait]

    def methods(self, trait, m):
        """all bodies implementing trait::m (incl. default body)"""
        return [b for b in self.bodies.values() if b.trait == trait and b.m == m]

    def fn(self, suffix):
        r = [b for p, b in self.by_path.items() if p == suffix or p.endswith("::" + suffix)]
        return r


_cache = {}


def program(tag="dev"):
    d = ensure()
    if (d, tag) not in _cache:
        _cache[(d, tag)] = Program(d, tag)
    return _cache[(d, tag)]


# ---------- pretty printing ----------
def ppl(p):
    o = f"_{p[0]}"
    for e in p[1:]:
        if e == "*":
            o = f"(*{o})"
        elif isinstance(e, dict):
            if "f" in e:
                o += "." + e["n"]
            elif "i" in e:
                o += f"[_{e['i']}]"
            elif "d" in e:
                o = f"({o} as {e['d']})"
            elif "ci" in e:
                o += f"[{'-' if e['fe'] else ''}{e['ci']}]"
            elif "ss" in e:
                o += f"[{e['ss']}..{e['to']}]"
        else:
            o += "?" + str(e)
    return o


def pop(x):
    if "c" in x:
        return ppl(x["c"])
    if "m" in x:
        return "move " + ppl(x["m"])
    if "k" in x:
        k = x["k"]
        if "fn" in k:
            f = k["fn"]
            r = f.get("r")
            return (r["path"] if r else f["path"] + "?") + ("" if not r or r["kind"] == "item" else f"<{r['kind']}>")
        for n in ("str", "int", "float", "static", "promoted", "cdef"):
            if n in k:
                return f"const {n}:{k[n]!r}"
        return "const ?"
    return str(x)


def prv(r, types):
    k = r["r"]
    if k == "use":
        return pop(r["o"][0])
    if k == "ref" or k == "rawptr":
        return ("&mut " if r["mut"] else "&") + ppl(r["p"])
    if k == "bin":
        return f"{r['op']}({pop(r['o'][0])}, {pop(r['o'][1])})"
    if k == "un":
        return f"{r['op']}({pop(r['o'][0])})"
    if k == "cast":
        return f"{pop(r['o'][0])} as {types[r['t']].s} [{r['ck']}]"
    if k == "discr":
        return f"discr({ppl(r['p'])})"
    if k == "agg":
        nm = r.get("adt", r.get("path", r["ak"]))
        if "v" in r:
            nm += "::" + r["v"]
        return nm + "{" + ", ".join(pop(o) for o in r["o"]) + "}"
    return str(r)


def show(b):
    out = [f"fn {b.path}  [{b.kind}] argc={b.argc} {b.span}"]
    for i, l in enumerate(b.locals):
        out.append(f"  let _{i}: {b.types[l['t']].s}  {l.get('n', '')}")
    for d in b.o.get("dbg", []):
        out.append(f"  dbg {d['name']} => {ppl(d['p'])}")
    for i, bb in enumerate(b.bb):
        out.append(f"  bb{i}{' (cleanup)' if bb.get('cl') else ''}:")
        for p, r, sp in bb["s"]:
            out.append(f"    {ppl(p)} = {prv(r, b.types)}   // {sp}")
        t = bb["t"]
        k = t["t"]
        if k == "call":
            out.append(f"    {ppl(t['dest'])} = {pop(t['f'])}({', '.join(pop(a) for a in t['args'])}) -> {t['to']} unw {t['unw']}  // {bb['sp']}")
        elif k == "switch":
            out.append(f"    switch {pop(t['o'])} {t['v']} else {t['else']}")
        elif k == "drop":
            out.append(f"    drop {ppl(t['p'])} -> {t['to']} unw {t['unw']}")
        elif k == "assert":
            out.append(f"    assert {pop(t['o'])}=={t['exp']} {t['kind']} {t.get('op','')} -> {t['to']}")
        elif k == "goto":
            out.append(f"    goto {t['to']}")
        else:
            out.append("    " + k)
    return "\n".join(out)


if __name__ == "__main__":
    p = program(sys.argv[2] if len(sys.argv) > 2 else "dev")
    for path, b in sorted(p.by_path.items()):
        if sys.argv[1] == "-l" or sys.argv[1] in path:
            if sys.argv[1] == "-l":
                print(path)
            else:
                print(show(b))
