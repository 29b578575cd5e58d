"""Tables of the (derived or hand-written) serde implementations, read off their MIR by the engine: which key fills which
field, what an unknown key does, what a missing key does, which key each field is written under.

The deserialiser is explored once per scenario: the map access is replaced by one that offers a given list of keys."""
import re
import q, engine
from engine import Engine, Agg, K, mk, pp, Term, UNIT, subterms, strip_generics

DE = "serde::de::Deserialize"
SER = "serde::ser::Serialize"
OK = lambda v: Agg("core::result::Result", "Ok", ["0"], [v])
SOME = lambda v: Agg("core::option::Option", "Some", ["0"], [v])
NONE = Agg("core::option::Option", "None", [], [])


def impl_for(p, trait, adt):
    """deserialize/serialize body of the type's implementation"""
    for i in p.impls_of(trait):
        t = i["self_ty"]
        if t.k == "adt" and t.adt == adt:
            for it in i["items"]:
                b = p.bodies.get(it["id"])
                if b is not None:
                    return b
    return None


def visitor(p, adt, m, field=False, within=None):
    """method of the (field) visitor nested in the type's deserialize function"""
    d = impl_for(p, DE, adt)
    if d is None:
        return None
    pre = (within or d.path)
    for b in p.bodies.values():
        if b.kind != "method" or b.m != m or pre not in b.path:
            continue
        rest = b.path[b.path.index(pre) + len(pre) :]
        if within is None and re.match(r"^::__FieldVisitor as .*>::" if field else r"^::__Visitor(<[^>]*>)? as .*>::", rest):
            return b
        if within is not None and "__FieldVisitor" in rest and field:
            return b
    return None


def m_branch(ex, t, f, args):
    v = args[0]
    if v.op == "agg" and v.a[0].endswith("Result"):
        C = "core::ops::control_flow::ControlFlow"
        if v.a[1] == "Ok":
            return ex.finish(t, Agg(C, "Continue", ["0"], [v.a[3][0]]))
        return ex.finish(t, Agg(C, "Break", ["0"], [v]))
    return NotImplemented


def field_enum(p, b):
    """the __Field type a field visitor yields"""
    for x in b.lty(0).a or []:
        t = b.types[x] if isinstance(x, int) else x
        if t.k == "adt" and t.adt.split("::")[-1].startswith("__Field"):
            return t.adt
    return None


_memo = {}


def memo(fn):
    def g(p, *a):
        k = (fn.__name__, p.dir, p.tag) + a
        if k not in _memo:
            _memo[k] = fn(p, *a)
        return _memo[k]

    return g


def keys_of(p, vb):
    """{key: field enum variant}, policy for any other key ('error' | 'ignore' | other text)"""
    e0 = Engine(p, vb)
    cand = set()
    for n in e0.nodes:
        for y, lab in n.succ:
            if lab is not None and isinstance(lab[0], Term):
                for x in subterms(lab[0]):
                    if x.op == "k" and isinstance(x.a[0], str):
                        cand.add(x.a[0])
    out = {}
    unk = None
    for c in sorted(cand) + ["\x00nope"]:
        e = Engine(p, vb, args=[None, K(c)])
        rs = {r.args[0] for r in e.events if r.kind == "ret"}
        vs = set()
        for r in rs:
            if r.op == "agg" and r.a[1] == "Ok" and r.a[3] and r.a[3][0].op == "agg":
                vs.add(r.a[3][0].a[1])
            elif r.op == "agg" and r.a[1] == "Err":
                vs.add("error")
            else:
                vs.add(pp(r)[:80])
        v = vs.pop() if len(vs) == 1 else "?" + ",".join(sorted(vs))
        if c == "\x00nope":
            unk = "ignore" if v == "__ignore" else v
        else:
            out[c] = v
    return out, unk


def run_map(p, vm, fenum, seq):
    """leaf results of visit_map when the map offers the given field variants in turn"""

    P = engine.PART

    def at(ex):
        x = ex.st.get(P)
        return x.a[0] if x is not None and x.op == "k" else (0 if x is None else None)

    def next_key(ex, t, f, args):
        i = at(ex)
        if i is None or i >= len(seq):
            return ex.finish(t, OK(NONE))
        return ex.finish(t, OK(SOME(Agg(fenum, seq[i], [], []))))

    def next_value(ex, t, f, args):
        i = at(ex)
        if i is None:
            i = 0
        ex.st[P] = K(i + 1)
        return ex.finish(t, OK(mk("in", i, vtype(ex, f))))

    M = {"serde::de::MapAccess::next_key": next_key, "serde::de::MapAccess::next_value": next_value, "core::ops::try_trait::Try::branch": m_branch, "core::ops::Try::branch": m_branch, "MapAccess::next_key": next_key, "MapAccess::next_value": next_value, "Try::branch": m_branch}
    e = Engine(p, vm, models=M, corr=False, cap=96)
    return e


def vtype(ex, f):
    """type a map value is read as (a __DeserializeWith wrapper shows as such)"""
    a = f.get("a") or []
    for x in reversed(a):
        t = ex.body.types[x] if isinstance(x, int) else x
        if t.k == "adt" or t.k != "par":
            return (t.adt if t.k == "adt" else None) or getattr(t, "s", "") or t.k
    return "?"


def rets(e):
    out = []
    for r in e.events:
        if r.kind == "ret":
            for x in leaves(e, r.args[0]):
                out.append(x)
    return out


def leaves(e, t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "phi" and e.phi_in.get(t) is not None:
        return [y for x in e.phi_in[t] for y in leaves(e, x, seen)]
    return [t]


class StructTab:
    """keys {json name: rust field}, unknown, missing {rust field: ('error', name) | ('default', term, engine) | ('other', term)}, raw(field) type read"""

    def __init__(self):
        self.keys, self.unknown, self.missing, self.reads, self.problems, self.skipped = {}, None, {}, {}, [], {}


@memo
def de_struct(p, adt):
    vm = visitor(p, adt, "visit_map")
    vs = visitor(p, adt, "visit_str", field=True)
    if vm is None or vs is None or visitor(p, adt, "visit_enum") is not None:
        return None
    return struct_of(p, adt, vm, vs, field_enum(p, vs))


def struct_of(p, adt, vm, vs, fenum, ok=None):
    T = StructTab()
    keys, T.unknown = keys_of(p, vs)
    var = []
    for k, v in keys.items():
        if v not in var:
            var.append(v)
    names = {v: [k for k, x in keys.items() if x == v] for v in var}
    e = run_map(p, vm, fenum, var)
    oks = [x for x in rets(e) if x.op == "agg" and x.a[1] == "Ok"]
    if len({o for o in oks}) != 1 or oks[0].a[3][0].op != "agg":
        T.problems.append(f"deserialiser of {adt} with all keys present: {[pp(o)[:120] for o in oks]}")
        return T
    val = oks[0].a[3][0]
    T.adt_built = val.a[0]
    for f, x in zip(val.a[2], val.a[3]):
        src = [y for y in subterms(x) if y.op == "in"]
        if len(src) == 1:
            i = src[0].a[0]
            for k in names[var[i]]:
                T.keys[k] = f
            T.reads[f] = (src[0].a[1], x)
        else:
            T.skipped[f] = (x, e)
    for i, v in enumerate(var):
        e = run_map(p, vm, fenum, [w for w in var if w != v])
        k = names[v][0]
        f = T.keys.get(k)
        rs = rets(e)
        oks = [x for x in rs if x.op == "agg" and x.a[1] == "Ok"]
        if not oks:
            T.missing[f] = ("error", k)
        elif len(oks) == 1 and oks[0].a[3][0].op == "agg":
            d = dict(zip(oks[0].a[3][0].a[2], oks[0].a[3][0].a[3])).get(f)
            if d is not None and not any(y.op == "in" for y in subterms(d)):
                c = [y for y in subterms(d) if y.op == "call" and "missing_field" in y.a[0]]
                T.missing[f] = ("missing_field", k) if c else ("default", d, e)
            else:
                T.missing[f] = ("other", d, e)
        else:
            T.missing[f] = ("other", None, e)
    return T


@memo
def de_enum(p, adt):
    """{json name: rust variant}, unknown policy"""
    ve = visitor(p, adt, "visit_enum")
    vs = visitor(p, adt, "visit_str", field=True)
    if ve is None or vs is None:
        return None
    fenum = field_enum(p, vs)
    keys, unk = keys_of(p, vs)
    out = {}
    ctors = {}
    for f in q.fn_consts(ve):
        for x in (f["id"], f.get("r", {}).get("id"), f.get("r", {}).get("key")):
            if x:
                ctors[x] = f["path"]
    for k, v in keys.items():

        def variant(ex, t, f, args, v=v):
            return ex.finish(t, OK(mk("tup", (Agg(fenum, v, [], []), mk("par", "variant")))))

        e = Engine(p, ve, models={"EnumAccess::variant": variant, "serde::de::EnumAccess::variant": variant, "Try::branch": m_branch}, corr=False)
        got = set()
        for x in [y for r in e.events if r.kind == "ret" for y in leaves(e, r.args[0])]:
            for y in subterms(x):
                if y.op == "agg" and y.a[0] == adt:
                    got.add(y.a[1])
                elif y.op == "fn":
                    m = re.search(re.escape(adt) + r"::(\w+)", ctors.get(y.a[0], ""))
                    if m:
                        got.add(m.group(1))
        for x in e.events:
            if x.kind == "call" and "struct_variant" in x.name and not got:
                got.add("struct")
        out[k] = got.pop() if len(got) == 1 else "?" + ",".join(sorted(got))
    return out, unk


@memo
def ser(p, adt):
    """('struct', {json name: rust field}, [conditionally written]) or ('enum', {variant: json name})"""
    b = impl_for(p, SER, adt)
    if b is None:
        return None
    e = Engine(p, b, models={"Try::branch": m_branch}, corr=False)
    a = p.adts.get(adt)
    if a and len(a["vs"]) > 1 or any(x.kind == "call" and "_variant" in x.name for x in e.events):
        out = {}
        for v in a["vs"]:
            nm = b.lname(1) or "p1"
            ev = Engine(p, b, corr=False, init={nm: lambda x, v=v: Agg(adt, v["n"], [f["n"] for f in v["f"]], [mk("vf", x, v["n"], f["n"]) for f in v["f"]])})
            ns = {x.args[3].a[0] if x.args[3].op == "k" else pp(x.args[3]) for x in ev.events if x.kind == "call" and re.search(r"serialize_\w+_variant$", x.name) and len(x.args) > 3}
            out[v["n"]] = ns.pop() if len(ns) == 1 else None
        return ("enum", out, e)
    flds = {}
    cond = []
    for x in e.events:
        if x.kind == "call" and x.name.endswith("serialize_field"):
            k = x.args[1].a[0] if x.args[1].op == "k" else pp(x.args[1])
            flds.setdefault(k, x.args[2])
            oks = [r for r in q.not_preceded(e, lambda y: y.kind == "call" and y.name.endswith("SerializeStruct::end"), lambda y: y.kind == "call" and y.name.endswith("serialize_field") and y.args[1] is x.args[1])]
            if oks:
                cond.append(k)
    return ("struct", flds, cond, e)


def reachable(p, roots, stop=lambda a: False):
    """local ADTs reachable through field types"""
    seen, st = set(), list(roots)
    while st:
        a = st.pop()
        if a in seen or a not in p.adts or stop(a):
            continue
        seen.add(a)
        d = p.adts[a]
        for v in d["vs"]:
            for f in v["f"]:
                for x in adts_in(d["types"][f["t"]]):
                    st.append(x)
    return seen


def adts_in(t):
    if not hasattr(t, "k"):
        return
    if t.k == "adt":
        yield t.adt
    for x in t.a or ():
        yield from adts_in(x)
