"""The published schema file and the schema generator are both compared with the tables of the deserialisers that accept
configurations: for every configuration type the same option names (both ways), the same value types, the same enumerated names,
the same required options, no further options allowed, the same defaults; the schema lists exactly the registered reductions,
each with its constant name, its required typename and its own configuration type.  The generator: every json_schema body is
read as a table of the properties it inserts (name, value type, has-default, required, default constant), the command adds
every factory of the registry exactly once and prints the result."""
import re
import q, reds, tab, serde_tab, cfg
from engine import Engine, Agg, K, mk, pp, subterms, Event
from tab import rets, alts
import checks.c06 as c06

ANY = "#/definitions/any_reduction_config"
INTS = {"u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "usize": "uint", "i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "isize": "int"}
FLO = {"f32": "float", "f64": "double"}


def run(ck):
    p = ck.prog()
    ts = cfg.types(p)
    names = {}
    for i in p.impls_of(cfg.trait(p, "ReductionConfig")):
        for it in i["items"]:
            if it["m"] == "typename" and it["id"] in p.bodies:
                names[i["self_ty"].adt] = c06.name_of(p, p.bodies[it["id"]])
    s = cfg.schema()
    if ck.anchor("published schema", s):
        published(ck, p, ts, names, s)
    generator(ck, p, ts, names)
    assembly(ck, p, names)


# ------------------------------------------------------------------ the file
def published(ck, p, ts, names, s):
    defs = s.get("definitions", {})
    anyr = defs.get("any_reduction_config", {})
    refs = [x.get("$ref", "?") for x in anyr.get("oneOf", [])]
    ck.ob("published:reductions", sorted(refs) == sorted(f"#/definitions/{n}" for n in names.values()), f"the published schema lists the reductions {sorted(refs)}, the program knows {sorted(names.values())}")
    for a, n in sorted(names.items(), key=lambda x: str(x[1])):
        d = defs.get(n)
        if not ck.ob(f"published:{n}", d is not None, f"the published schema does not describe {n}"):
            continue
        ck.ob(f"published:{n}:typename", d.get("properties", {}).get("typename", {}).get("const") == n, f"the published schema gives {n} the name {d.get('properties', {}).get('typename')}")
        wrapper(ck, p, n, d)
    allowed = set(names.values()) | {"any_reduction_config"} | {a.split("::")[-1] for a in ts}
    for k in defs:
        ck.ob(f"published:definition:{k}", k in allowed, f"the published schema defines {k}, which the program does not know")
    np = 0
    for a in ts:
        nm = a.split("::")[-1]
        T = serde_tab.de_struct(p, a)
        E = serde_tab.de_enum(p, a) if T is None else None
        d = cfg.schema_of(s, p, a, names)
        if T is not None and not a.endswith("JsonReductionConfig"):
            if not ck.ob(f"published:{nm}", d is not None, f"the published schema does not describe {a}"):
                continue
            props = d.get("properties", {})
            ck.ob(f"published:{nm}:object", d.get("type") == "object", f"{a} is documented as {d.get('type')}")
            ck.ob(f"published:{nm}:closed", d.get("additionalProperties") is (False if T.unknown == "error" else None), f"unknown options of {a}: the schema says additionalProperties={d.get('additionalProperties')}, the program gives {T.unknown}")
            for k in sorted(set(props) | set(T.keys)):
                np += 1
                ck.ob(f"published:{nm}.{k}", k in props and k in T.keys, f"{k} of {a} is " + ("accepted but not documented" if k in T.keys else "documented but not accepted"))
            need = sorted(k for k, f in T.keys.items() if T.missing.get(f, ("?",))[0] == "error" or (T.missing.get(f, ("?",))[0] == "missing_field" and not is_opt(p, a, f)))
            ck.ob(f"published:{nm}:required", sorted(d.get("required", [])) == need, f"{a}: the schema requires {d.get('required', [])}, the program {need}")
            for k, f in sorted(T.keys.items()):
                if k in props:
                    ty = fty(p, a, f)
                    ck.ob(f"published:{nm}.{k}:type", matches(p, props[k], ty, k), f"{k} of {a} is a {ty.s}, documented as { {x: y for x, y in props[k].items() if x not in ('default', 'description')} }")
                    m = T.missing.get(f)
                    if m and m[0] == "default":
                        try:
                            j = cfg.tojson(p, m[2], m[1])
                        except cfg.NotConst as x:
                            ck.bad(f"published:{nm}.{k}:default", f"the default of {a}.{f} is not a constant: {x}")
                            continue
                        if j is not None or "default" in props[k]:
                            ck.ob(f"published:{nm}.{k}:default", "default" in props[k] and cfg.jeq(props[k]["default"], j), f"{k} of {a} defaults to {j}, documented as {props[k].get('default')}")
                    else:
                        ck.ob(f"published:{nm}.{k}:default", "default" not in props[k], f"{k} of {a} has no default, but the schema documents {props[k].get('default')}")
        elif E is not None:
            if not ck.ob(f"published:{nm}", d is not None, f"the published schema does not describe {a}"):
                continue
            got = enum_names(d)
            want = {}
            for k, v in E[0].items():
                vv = next((x for x in p.adts[a]["vs"] if x["n"] == v), None)
                want[k] = None if not vv or not vv["f"] else p.adts[a]["types"][vv["f"][0]["t"]]
            ck.ob(f"published:{nm}:names", set(got) == set(want), f"{a} accepts {sorted(want)}, documented are {sorted(got)}")
            for k in set(got) & set(want):
                np += 1
                ok = (want[k] is None) == (got[k] is None) and (want[k] is None or matches(p, got[k], want[k], k))
                ck.ob(f"published:{nm}.{k}", ok, f"{k} of {a} is documented as {got[k]}")
    ck.floor("published options", np, 40)


def wrapper(ck, p, n, d):
    """typename/config object of one reduction"""
    J = [a for a in p.adts if a.endswith("reduction_factory::JsonReductionConfig")]
    for a in J:
        T = serde_tab.de_struct(p, a)
        if T is None:
            ck.bad("published:wrapper", f"{a} has no analysable deserialiser")
            continue
        ck.ob(f"published:{n}:wrapper", set(d.get("properties", {})) == set(T.keys), f"{n} is documented with {sorted(d.get('properties', {}))}, accepted are {sorted(T.keys)}")
        need = sorted(k for k, f in T.keys.items() if T.missing.get(f, ("?",))[0] in ("error", "missing_field") and not is_opt(p, a, f))
        ck.ob(f"published:{n}:required", sorted(d.get("required", [])) == need, f"{n}: the schema requires {d.get('required', [])}, the program {need}")
        ck.ob(f"published:{n}:closed", (d.get("additionalProperties") is False) == (T.unknown == "error"), f"{n}: unknown keys beside typename and config: the schema says {d.get('additionalProperties')}, the program gives {T.unknown}")


def fty(p, a, f):
    d = p.adts[a]
    return next(d["types"][x["t"]] for v in d["vs"] for x in v["f"] if x["n"] == f)


def is_opt(p, a, f):
    t = fty(p, a, f)
    return t.k == "adt" and t.adt.endswith("option::Option")


def matches(p, s, t, k=""):
    if "allOf" in s and len(s["allOf"]) == 1:
        s = dict(s, **s["allOf"][0])
    if k == "$schema":
        return s.get("type") in ("string", ["string", "null"])
    if t.k == "ref":
        t = t.strip()
    if t.k == "adt":
        if t.adt.endswith("reduction_factory::JsonReductionConfig"):
            return s.get("$ref") == ANY
        if t.adt.endswith("string::String"):
            return s.get("type") == "string"
        if t.adt.endswith("vec::Vec"):
            return s.get("type") == "array" and matches(p, s.get("items", {}), t.a[0])
        if t.adt.endswith("option::Option"):
            if isinstance(s.get("type"), list):
                return "null" in s["type"] and matches(p, dict(s, type=[x for x in s["type"] if x != "null"][0]), t.a[0])
            return "anyOf" in s
        if t.adt in p.adts:
            return s.get("$ref") == "#/definitions/" + t.adt.split("::")[-1]
        return False
    n = t.s
    if n == "bool":
        return s.get("type") == "boolean"
    if n in INTS:
        return s.get("type") == "integer" and s.get("format") == INTS[n]
    if n in FLO:
        return s.get("type") == "number" and s.get("format") == FLO[n]
    return False


def enum_names(d):
    out = {}
    for k in d.get("enum", []):
        out[k] = None
    for x in d.get("oneOf", []) + d.get("anyOf", []):
        for k in x.get("enum", []):
            out[k] = None
        if "const" in x:
            out[x["const"]] = None
        for k, v in x.get("properties", {}).items():
            out[k] = v
    return out


# ------------------------------------------------------------------ the generator
def generator(ck, p, ts, names):
    tr = next((i["trait"] for i in p.impls if (i.get("trait") or "").endswith("::JsonSchema")), None)
    if not ck.anchor("schema generator", tr):
        return
    n = 0
    for a in ts:
        nm = a.split("::")[-1]
        if a.endswith("JsonReductionConfig") or a.endswith("PascalCaseString"):
            continue
        i = next((i for i in p.impls_of(tr) if i["self_ty"].k == "adt" and i["self_ty"].adt == a), None)
        b = i and p.bodies.get({it["m"]: it["id"] for it in i["items"]}.get("json_schema"))
        if not ck.ob(f"generated:{nm}", b is not None, f"no schema is generated for {a}"):
            continue
        sn = p.bodies.get({it["m"]: it["id"] for it in i["items"]}.get("schema_name"))
        if sn is not None:
            se = q.run(p, sn)
            ck.ob(f"generated:{nm}:name", {c06.const_str(se, r.args[0]) for r in se.events if r.kind == "ret"} == {nm}, f"the schema of {a} is generated under another name", sn.path)
        e = Engine(p, b, corr=False, models={"Box::new": m_box})
        T = serde_tab.de_struct(p, a)
        E = serde_tab.de_enum(p, a) if T is None else None
        if T is not None:
            got = {}
            for x in e.events:
                if x.kind == "call" and x.name.endswith("insert_object_property"):
                    k = x.args[1].a[0] if x.args[1].op == "k" else pp(x.args[1])
                    got[k] = x
            for k in sorted(set(got) | set(T.keys)):
                n += 1
                ck.ob(f"generated:{nm}.{k}", k in got and k in T.keys, f"{k} of {a} is " + ("accepted but missing from the generated schema" if k in T.keys else "in the generated schema but not accepted"), b.path)
            for k, x in got.items():
                f = T.keys.get(k)
                if f is None:
                    continue
                m = T.missing.get(f, ("?",))
                has, req, term = x.args[2], x.args[3], x.args[4]
                need = m[0] in ("error", "missing_field") and not is_opt(p, a, f)
                needs = (req.op == "k" and req.a[0] is True) or (has.op == "k" and has.a[0] is False and not is_opt(p, a, f))
                ck.ob(f"generated:{nm}.{k}:required", needs == need, f"the generated schema makes {k} of {a} {'required' if needs else 'optional'}", q.loc(x))
                ty = [x.ctx.body.types[y] for y in (x.callee or {}).get("a", ()) if isinstance(y, int)]
                want = fty(p, a, f)
                if ty:
                    if want.k == "adt" and want.adt.endswith("JsonReductionConfig"):
                        ok = ty[0].k == "adt" and refers(p, tr, ty[0].adt, term)
                        ck.ob(f"generated:{nm}.{k}:type", ok, f"the generated schema of {k} of {a} is not the one of any reduction", q.loc(x))
                    else:
                        ck.ob(f"generated:{nm}.{k}:type", ty[0] is want or ty[0].s == want.s, f"the generated schema describes {k} of {a} as {ty[0].s}, it is {want.s}", q.loc(x))
                dv = [y for y in subterms(term) if y.op == "call" and y.a[0].endswith("add_default")]
                if m[0] == "default":
                    if dv:
                        mv = [y for y in subterms(dv[0].a[1][1]) if y.op == "call" and y.a[0].endswith("maybe_to_value")]
                        try:
                            w = unwrap(mv[0].a[1][0]) if mv else dv[0].a[1][1]
                            j, g = cfg.tojson(p, m[2], m[1]), cfg.tojson(p, e, w)
                            ck.ob(f"generated:{nm}.{k}:default", cfg.jeq(j, g), f"the generated schema gives {k} of {a} the default {g}, the program {j}", q.loc(x))
                        except cfg.NotConst as z:
                            ck.bad(f"generated:{nm}.{k}:default", f"the default in the generated schema of {a}.{f} is not a constant: {z}", q.loc(x))
                    else:
                        ck.bad(f"generated:{nm}.{k}:default", f"the generated schema gives {k} of {a} no default", q.loc(x))
                else:
                    ck.ob(f"generated:{nm}.{k}:default", not dv, f"the generated schema gives {k} of {a} a default that the program does not apply", q.loc(x))
            cl = [x for x in e.events if x.kind == "write" and pp(x.args[0]).endswith("additional_properties") and closed(x.args[1])]
            ck.ob(f"generated:{nm}:closed", bool(cl) == (T.unknown == "error"), f"unknown options of {a}: the generated schema {'forbids' if cl else 'allows'} them, the program gives {T.unknown}", b.path)
        elif E is not None:
            strs = set()
            for r, t in rets(e):
                for y in c06.deep(e, t):
                    if y.op == "k" and isinstance(y.a[0], str):
                        strs.add(y.a[0])
            for k in E[0]:
                n += 1
                ck.ob(f"generated:{nm}.{k}", k in strs, f"{k} of {a} is accepted but missing from the generated schema", b.path)
            for k in strs:
                ck.ob(f"generated:{nm}.{k}", k in E[0], f"{k} of {a} is in the generated schema but not accepted", b.path)
    ck.floor("generated options", n, 40)


def m_box(ex, t, f, args):
    return ex.finish(t, Agg("Box", "Box", ["0"], [ex.snap(args[0])]))


def closed(v):
    if any(y.op == "call" and re.search(r"(^|::)(from|into)$", y.a[0]) and y.a[1] and y.a[1][0].op == "k" and y.a[1][0].a[0] is False for y in subterms(v)):
        return True
    return any(y.op == "agg" and y.a[0].endswith("Schema") and y.a[1] == "Bool" and y.a[3][0].op == "k" and y.a[3][0].a[0] is False for y in subterms(v))


def unwrap(t):
    while t.op == "agg" and t.a[0].endswith("MaybeSerializeWrapper") and t.a[3]:
        t = t.a[3][0]
    return t


def refers(p, tr, adt, term):
    """the wrapper's json_schema is the reference to any reduction"""
    if adt.endswith("JsonReductionConfig"):
        return False
    i = next((i for i in p.impls_of(tr) if i["self_ty"].k == "adt" and i["self_ty"].adt == adt), None)
    b = i and p.bodies.get({it["m"]: it["id"] for it in i["items"]}.get("json_schema"))
    if b is None:
        return False
    e = q.run(p, b)
    ss = {y.a[0] for r, t in rets(e) for y in c06.deep(e, t) if y.op == "k" and isinstance(y.a[0], str)}
    return ss == {ANY}


# ------------------------------------------------------------------ assembling the whole schema
def assembly(ck, p, names):
    for fa in sorted(reds.factories(p)):
        nm = fa.split("::")[-1]
        i = next(x for x in p.impls_of(reds.FACT) if x["self_ty"].adt == fa)
        ms = {it["m"]: p.bodies.get(it["id"]) for it in i["items"]}
        made = {t.adt for x in c06.reach(p, ms["parse_config"]) for t in c06.unsize_sources(x, "dyn " + cfg.trait(p, "ReductionConfig"))}
        b = ms.get("get_config_schema")
        if not ck.ob(f"factory:{nm}:schema", b is not None, f"{fa} has no analysable get_config_schema"):
            continue
        e = q.run(p, b)
        ty = set()
        for x in e.events:
            if x.kind == "call" and re.search(r"root_schema_for$", x.name):
                ty |= {x.ctx.body.types[y].adt for y in (x.callee or {}).get("a", ()) if isinstance(y, int) and x.ctx.body.types[y].k == "adt"}
        ck.ob(f"factory:{nm}:schema", ty == made, f"{fa} parses {sorted(made)} but publishes the schema of {sorted(ty)}", b.path)
    ent = [b for b in p.bodies.values() if b.m == "execute" and b.self_ty is not None and "GenSchema" in b.self_ty.s and b.kind != "mono"]
    if not ck.anchor("schema command", ent):
        return
    b = ent[0]
    e = Engine(p, b, corr=False, models={"Box::new": m_box})
    items = [x for x in e.events if x.kind == "call" and x.name.endswith("Iterator::next") and "REDUCTION_REGISTRY" in pp(x.args[0]) and not any(s.op == "call" and (s.a[0].endswith("get_config_schema") or s.a[0] == "next" or s.a[0].endswith("Iterator::next")) for s in subterms(x.args[0]))]
    if not ck.ob("assembly:registry", items, f"{b.path} does not iterate over the registered reductions", b.path):
        return
    for it in items:
        bare = it.args[0]
        src = it.args[0]
        while src.op in ("post", "upd", "ref"):
            src = src.a[0]
        ck.ob("assembly:all", src.op in ("call", "phi") and not re.search(r"(Filter|Skip|Take|StepBy|skip|take|filter|step_by)", pp(src)), f"{b.path} leaves some registered reductions out: it iterates {pp(src)[:120]}", q.loc(it))
        one = lambda t: any(s.op == "vf" and s.a[0] is it.ret for s in c06.deep(e, t))
        need = {
            "typename": lambda x: x.kind == "call" and x.name.endswith("Map::insert") and len(x.args) > 2 and is_k(x.args[1], "typename") and has(e, x.args[2], "ReductionFactory::typename", one) and const_value(e, x.args[2]),
            "config": lambda x: x.kind == "call" and x.name.endswith("Map::insert") and len(x.args) > 2 and is_k(x.args[1], "config") and has(e, x.args[2], "ReductionFactory::get_config_schema", one),
            "required typename": lambda x: x.kind == "call" and x.name.endswith("Set::insert") and is_k(x.args[1], "typename"),
            "closed": lambda x: x.kind == "write" and pp(x.args[0]).endswith("additional_properties") and closed(x.args[1]),
            "definition": lambda x: x.kind == "call" and x.name.endswith("Map::insert") and len(x.args) > 2 and has(e, x.args[1], "ReductionFactory::typename", one) and pp(x.args[0]).count("definitions"),
            "reference": lambda x: x.kind == "call" and x.name.endswith("Vec::push") and has(e, x.args[1], "ReductionFactory::typename", one) and any(s.op == "k" and isinstance(s.a[0], str) and "#/definitions/" in s.a[0] for s in c06.deep(e, x.args[1])),
            "nested definitions": lambda x: x.kind == "call" and re.search(r"(Extend::extend|Map::append|Map::insert|Iterator::next)$", x.name) and has(e, x.args[-1], "ReductionFactory::get_config_schema", one) and "definitions" in pp_deep(x.args[-1]),
        }
        for k, f in need.items():
            miss = missing(e, it, f)
            ck.ob(f"assembly:{k}", not miss, f"{b.path} can leave out the {k} of a registered reduction", q.loc(it))
        for x in e.events:
            # definitions taken over one by one
            if x.kind == "call" and x.name.endswith("Iterator::next") and x is not it and need["nested definitions"](x):
                took = lambda y: y.kind == "call" and y.name.endswith("Map::insert") and any(s.op == "vf" and s.a[0] is x.ret for s in c06.deep(e, y.args[-1]))
                ck.ob("assembly:nested definitions", not missing(e, x, took), f"{b.path} can leave out a nested definition", q.loc(x))
    out = [x for x in e.events if x.kind == "call" and x.name.endswith("_print")]
    ck.ob("assembly:printed", out and all(any(s.op == "call" and s.a[0].split("::")[-1].startswith("to_string") for s in c06.deep(e, a)) for x in out for a in x.args), f"{b.path} does not print the schema", b.path)
    bad = [x for x in e.events if x.kind == "ret" and not (x.args[0].op == "agg" and x.args[0].a[1] == "Err") and not_printed(e, x, out)]
    ck.ob("assembly:printed", not bad, f"{b.path} can succeed without printing the schema", b.path)


def not_printed(e, r, out):
    return r in q.not_preceded(e, lambda x: x is r, lambda x: x in out)


def missing(e, it, f):
    """the next iteration (or the end) is reachable from one item without doing f"""
    evs, nodes = q.walk(e, it, f, lambda lab: reds.discr_is(lab, it.ret, "Some") is False)
    return [x for x in evs if x is it or x.kind == "ret"] or it in evs


def is_k(t, v):
    return t.op == "k" and t.a[0] == v


def const_value(e, t):
    for s in subterms(t):
        if s.op == "agg" and s.a[0].endswith("SchemaObject"):
            d = dict(zip(s.a[2], s.a[3]))
            v = d.get("const_value")
            if v is not None and v.op == "agg" and v.a[1] == "Some":
                return True
        if s.op == "upd" and s.a[1] == ("f", "const_value") and s.a[2].op == "agg" and s.a[2].a[1] == "Some":
            return True
    return False


def has(e, t, call, one):
    return any(s.op == "call" and s.a[0].endswith(call) and one(s.a[1][0]) for s in c06.deep(e, t))


def pp_deep(t):
    return " ".join(str(s.a[1]) for s in subterms(t) if s.op == "f")
