"""Configuration types: which they are, their tables, and constants of configuration types as JSON."""
import json, os, re
import facts, q, serde_tab, tab
from engine import Engine, Agg, K, mk, pp, subterms

RC = "reductionml_core::reduction_factory::ReductionConfig"
FACT = "reductionml_core::reduction_factory::ReductionFactory"
FV = re.compile(r"(^|::)(from_value|from_str|from_slice|from_reader|deserialize)$")


def trait(p, suffix):
    return next((t for t in p.traits if t.endswith("::" + suffix)), None)


def roots(p):
    out = [a for a in p.adts if a.endswith("workspace::Configuration")]
    for i in p.impls_of(trait(p, "ReductionConfig")):
        if i["self_ty"].k == "adt":
            out.append(i["self_ty"].adt)
    return sorted(set(out))


def types(p):
    return sorted(serde_tab.reachable(p, roots(p)))


def delegate(p, adt):
    """types a hand-written deserialiser reads instead"""
    d = serde_tab.impl_for(p, serde_tab.DE, adt)
    if d is None:
        return None
    out = set()
    e = q.run(p, d)
    for x in e.events:
        if x.kind == "call" and re.search(r"Deserialize::deserialize$|::deserialize$", x.name) and x.callee:
            for a in x.callee.get("a") or ():
                t = x.ctx.body.types[a] if isinstance(a, int) else None
                if t is not None and t.k not in ("par",):
                    out.add(t)
                    break
    return out


# ------------------------------------------------------------------ constants as JSON
class NotConst(Exception):
    pass


def num(v):
    if isinstance(v, tuple) and v and v[0] == "f":
        return float(v[1])
    return v


def tojson(p, e, t, d=0):
    """JSON that serialising the constant t gives"""
    if d > 40:
        raise NotConst("deep")
    while t.op in ("post", "upd") and t.op == "post":
        t = t.a[0]
    if t.op == "phi" and e is not None:
        vs = []
        for x in tab.alts(e, t):
            v = tojson(p, e, x, d + 1)
            if v not in vs:
                vs.append(v)
        if len(vs) == 1:
            return vs[0]
        raise NotConst(pp(t))
    if t.op == "k":
        v = num(t.a[0])
        if isinstance(v, (int, float, str, bool)):
            return v
        raise NotConst(pp(t))
    if t.op == "tup" and not t.a[0]:
        return None
    if t.op in ("ref", "cast"):
        return tojson(p, e, t.a[0], d + 1)
    if t.op in ("arr", "list") or (t.op == "tup"):
        return [tojson(p, e, x, d + 1) for x in t.a[0]]
    if t.op == "vf" or t.op == "proj":
        c = t.a[0]
        if c.op == "call" and c.a[0].endswith("to_value") and len(c.a[1]) == 1:
            return tojson(p, e, c.a[1][0], d + 1)
        if c.op == "call" and re.search(r"(try_from|try_into)$", c.a[0]) and len(c.a[1]) == 1:
            return tojson(p, e, c.a[1][0], d + 1)
    if t.op == "call":
        if t.a[0].endswith("to_value") and t.a[1]:
            return tojson(p, e, t.a[1][0], d + 1)
        if re.search(r"(Vec|\[\]|::vec)(::new|::default)?$", t.a[0]) and not t.a[1]:
            return []
        if re.search(r"Map::new$|Map::default$", t.a[0]) and not t.a[1]:
            return {}
        if re.search(r"String::new$", t.a[0]) and not t.a[1]:
            return ""
    if not t.op == "agg":
        raise NotConst(pp(t)[:200])
    adt, v, ns, vs = t.a
    sh = adt.split("::")[-1]
    if sh == "Option":
        return None if v == "None" else tojson(p, e, vs[0], d + 1)
    if sh in ("Box", "Arc", "Rc", "Cow"):
        return tojson(p, e, vs[0], d + 1)
    if adt.endswith("value::Value"):
        return {"Null": lambda: None}.get(v, lambda: tojson(p, e, vs[0], d + 1))()
    s = serde_tab.ser(p, adt)
    if s is None:
        if len(vs) == 1:
            return tojson(p, e, vs[0], d + 1)
        raise NotConst(pp(t)[:200])
    if s[0] == "enum":
        nm = s[1].get(v)
        if nm is None:
            raise NotConst(pp(t)[:200])
        return nm if not vs else {nm: tojson(p, e, vs[0], d + 1)}
    if not s[1]:
        return {} if not vs else tojson(p, e, vs[0], d + 1)
    out = {}
    for k, x in s[1].items():
        f = field_written(x)
        if f not in ns:
            raise NotConst(f"{adt}: {k} written from {pp(x)[:80]}")
        if k in s[2]:
            continue
        out[k] = tojson(p, e, vs[ns.index(f)], d + 1)
    return out


def field_written(x):
    """the field of self a serialised term is"""
    while x.op in ("ref", "deref", "cast"):
        x = x.a[0]
    if x.op == "f" and x.a[0].op == "par":
        return x.a[1]
    fs = {y.a[1] for y in subterms(x) if y.op == "f" and y.a[0].op == "par"}
    return fs.pop() if len(fs) == 1 else None


def default_of(p, adt):
    """(engine, term) of the Default implementation, default-valued when there is one return"""
    for i in p.impls_of("core::default::Default"):
        if i["self_ty"].k == "adt" and i["self_ty"].adt == adt:
            for it in i["items"]:
                if it["m"] == "default" and it["id"] in p.bodies:
                    b = p.bodies[it["id"]]
                    e = q.run(p, b)
                    ts = {t for r, t in tab.rets(e)}
                    return b, e, (ts.pop() if len(ts) == 1 else None)
    return None


def builder_free(s):
    return s


# ------------------------------------------------------------------ published schema
def schema(which="latest"):
    fn = os.path.join(facts.REPO, "schemas", "config", which, "schema.json")
    return json.load(open(fn)) if os.path.exists(fn) else None


def schema_of(s, p, adt, names):
    """the object schema the published file gives for a configuration type; names: {config adt: reduction name}"""
    sh = adt.split("::")[-1]
    if adt.endswith("workspace::Configuration"):
        return s
    if adt in names:
        d = s["definitions"].get(names[adt])
        return d and d.get("properties", {}).get("config")
    return s["definitions"].get(sh)


def jeq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        import struct

        f = lambda x: struct.pack("f", x) if isinstance(x, float) else struct.pack("f", float(x))
        return a == b or f(a) == f(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jeq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(jeq(x, y) for x, y in zip(a, b))
    return a == b
