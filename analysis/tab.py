"""Dispatch tables: what a function does for each variant of an enum it is given, and names compared loosely."""
import re
import q
from engine import Engine, mk, Agg, K, pp, subterms

WORDS = ("reductionfactory", "parserfactory", "factory", "regressor", "reduction", "metric", "parser", "command", "config", "loss", "args")


def norm(s, words=WORDS):
    """type and option names without case, punctuation and role suffixes"""
    s = re.sub(r"[^a-z0-9]", "", s.split("::")[-1].lower())
    for _ in range(2):
        for w in words:
            if s.endswith(w) and s != w:
                s = s[: -len(w)]
    return s


def acronym(s, words=("Metric", "Reduction", "Parser", "Loss")):
    s = s.split("::")[-1]
    for w in words:
        if s.endswith(w):
            s = s[: -len(w)]
    return "".join(c for c in s if c.isupper()).lower()


def agg_of(x, adt, v):
    return Agg(adt, v["n"], [f["n"] for f in v["f"]], [mk("vf", x, v["n"], f["n"]) for f in v["f"]])


def by_variant(p, b, k, adt, **kw):
    """(variant, engine) with parameter k (0-based) fixed to each variant of the enum `adt`, by value or by reference"""
    nm = b.lname(k + 1) or f"p{k + 1}"
    for v in p.adts[adt]["vs"]:
        if b.lty(k + 1).k == "ref":
            yield v, Engine(p, b, init={nm: lambda x, v=v: agg_of(x, adt, v)}, **kw)
        else:
            args = [None] * b.argc
            args[k] = agg_of(mk("par", nm), adt, v)
            yield v, Engine(p, b, args=args, **kw)


def alts(e, t, seen=None):
    """leaves of a term through phis"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "phi" and e.phi_in.get(t):
        ins = e.phi_in[t]
        out = []
        for x in ins.values() if isinstance(ins, dict) else ins:
            out += alts(e, x, seen)
        return out
    return [t]


def rets(e):
    out = []
    for r in e.events:
        if r.kind == "ret":
            out += [(r, t) for t in alts(e, r.args[0])]
    return out


def strings(e):
    """string literals a function compares with or builds from"""
    out = set()

    def add(t):
        for s in subterms(t):
            if s.op == "k" and isinstance(s.a[0], str):
                out.add(s.a[0])

    for n in e.nodes:
        for y, lab in n.succ:
            if lab is not None and hasattr(lab[0], "op"):
                add(lab[0])
    for ev in e.events:
        for a in ev.args:
            add(a)
    return out


GOOD = ("Ok", "Some", "Continue")
BADV = ("Err", "None", "Break")


def unwrap(e, t, seen=None):
    """leaves of a term through phis, `?`, map_err and constructor/payload pairs; failures are dropped"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "phi" and e.phi_in.get(t):
        ins = e.phi_in[t]
        return [y for x in (ins.values() if isinstance(ins, dict) else ins) for y in unwrap(e, x, seen)]
    if t.op == "vf" and t.a[1] in GOOD:
        out = []
        for y in unwrap(e, t.a[0], seen):
            if y.op == "agg" and y.a[1] in GOOD:
                out += unwrap(e, y.a[3][0], seen)
            elif y.op == "agg" and y.a[1] in BADV or y.op == "call" and y.a[0].endswith("from_residual"):
                continue
            elif y.op == "call" and re.search(r"(Try::branch|::map_err|::ok_or|::ok_or_else|with_context|Context::context)$", y.a[0]):
                out += unwrap(e, mk("vf", y.a[1][0], "Ok" if t.a[1] == "Continue" or not re.search(r"ok_or", y.a[0]) else "Some", "0"), seen)
            else:
                out.append(mk("vf", y, "Ok" if t.a[1] == "Continue" else t.a[1], "0"))
        return out
    return [t]
