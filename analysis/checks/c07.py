"""Strictness: for every configuration type reachable from the workspace configuration and the reductions' configurations, the
derived visitor is explored with an unknown key (must end in an error) and with each key absent (must end in an error or in a
default).  Defaults: the value filled in for an absent key, the field of the type's Default implementation, the builder's and
the one in the published schema are the same constant; the default configuration of a reduction is what its factory uses when
the configuration is absent, and a nested default names that reduction's own defaults.  Nothing is partly applied: a factory's
parse_config and the workspace configuration's constructors succeed only with the value the strict deserialiser produced from
the very input they were given, and the absent configuration goes through the same parser."""
import re
import q, reds, tab, serde_tab, cfg
from engine import Engine, Agg, K, mk, pp, subterms
from tab import rets, alts
import checks.c06 as c06


def run(ck):
    p = ck.prog()
    ts = cfg.types(p)
    names = {}
    for i in p.impls_of(cfg.trait(p, "ReductionConfig")):
        for it in i["items"]:
            if it["m"] == "typename" and it["id"] in p.bodies:
                names[i["self_ty"].adt] = c06.name_of(p, p.bodies[it["id"]])
    strict(ck, p, ts)
    dflt = defaults(ck, p, ts, names)
    builders(ck, p, ts, dflt)
    factories(ck, p, names, dflt)
    absent(ck, p)
    sources(ck, p, ts)


def strict(ck, p, ts, depth=0):
    n = 0
    for a in ts:
        nm = a.split("::")[-1]
        T = serde_tab.de_struct(p, a)
        E = serde_tab.de_enum(p, a) if T is None else None
        if T is not None:
            n += 1
            for x in T.problems:
                ck.bad(f"{nm}:table", x)
            ck.ob(f"{nm}:unknown-key", T.unknown == "error", f"an unknown key in {a} is not refused but {T.unknown}d")
            for f, m in sorted(T.missing.items()):
                ck.ob(f"{nm}.{f}:absent", m[0] in ("default", "missing_field", "error"), f"what {a}.{f} becomes when its key is absent is not one value: {pp(m[1])[:200] if m[1] is not None else None}")
            for f, (x, e) in sorted(T.skipped.items()):
                ck.bad(f"{nm}.{f}:no-key", f"{a}.{f} cannot be given in a configuration: it is always {pp(x)[:120]}")
            flds = [f["n"] for f in p.adts[a]["vs"][0]["f"]]
            for f in flds:
                k = [k for k, g in T.keys.items() if g == f]
                ck.ob(f"{nm}.{f}:key", len(k) == 1, f"{a}.{f} is filled from the keys {k}")
                s = serde_tab.ser(p, a)
                if s and s[0] == "struct" and k:
                    w = [kk for kk, x in s[1].items() if cfg.field_written(x) == f]
                    ck.ob(f"{nm}.{f}:written", w == k and k[0] not in s[2], f"{a}.{f} is read from {k} but written as {w}")
            for f, (ty, x) in sorted(T.reads.items()):
                ck.ob(f"{nm}.{f}:as-given", given(p, ty, x), f"{a}.{f} does not receive the value of its key but {pp(x)[:160]}")
        elif E is not None:
            n += 1
            ck.ob(f"{nm}:unknown-variant", E[1] == "error", f"an unknown variant of {a} is not refused")
        else:
            d = serde_tab.impl_for(p, serde_tab.DE, a)
            if d is None:
                ck.bad(f"{nm}:deserialiser", f"{a} is part of a configuration but has no deserialiser that could be analysed")
                continue
            fs = [f for v in p.adts[a]["vs"] for f in v["f"]]
            dl = cfg.delegate(p, a) or set()
            newty = len(p.adts[a]["vs"]) == 1 and len(fs) == 1 and fs[0]["n"] == "0"
            n += 1
            if newty:
                ck.ob(f"{nm}:newtype", True)
            else:
                inner = {x for t in dl for x in serde_tab.adts_in(t)}
                loc = [x for x in inner if x in p.adts]
                ck.ob(f"{nm}:delegates", bool(loc) and depth < 3, f"{a} has a hand-written deserialiser whose treatment of unknown keys is not decided", d.path)
                if loc and depth < 3:
                    strict(ck, p, loc, depth + 1)
        # fields of untyped values would hide unknown keys
        for v in p.adts[a]["vs"]:
            for f in v["f"]:
                ty = p.adts[a]["types"][f["t"]]
                loose = [x for x in serde_tab.adts_in(ty) if re.search(r"value::Value$|::HashMap$|::BTreeMap$|::Map$", x)]
                if loose and not a.endswith("JsonReductionConfig"):
                    ck.bad(f"{nm}.{f['n']}:untyped", f"{a}.{f['n']} accepts any keys: its type contains {loose}")
    if not depth:
        ck.floor("configuration types", n, 15)


def given(p, ty, x):
    """the value of the key itself, or what a deserialize_with function that only checks it passes on"""
    while x.op in ("f", "vf"):
        x = x.a[0]
    if x.op != "in":
        return False
    if not ty.endswith("__DeserializeWith"):
        return True
    b = serde_tab.impl_for(p, serde_tab.DE, ty)
    if b is None:
        return False
    return passes_on(p, b)


def passes_on(p, b, depth=0):
    """every success of b carries exactly what it deserialised"""
    e = Engine(p, b, models={"Try::branch": serde_tab.m_branch}, corr=False)
    oks = [t for r, t in rets(e) if not (t.op == "agg" and t.a[1] == "Err") and not (t.op == "call" and t.a[0].endswith("from_residual"))]
    for t in oks:
        v = t.a[3][0] if t.op == "agg" and t.a[1] == "Ok" else None
        if v is None:
            if t.op == "call" and cfg.FV.search(t.a[0]):
                continue
            return False
        if v.op == "agg" and v.a[0].endswith("__DeserializeWith"):
            v = dict(zip(v.a[2], v.a[3])).get("value")
        for y in tab.unwrap(e, v):
            if parsed(e, y, e.params):
                continue
            c = y.a[0] if y.op == "vf" else None
            if c is not None and c.op == "call" and c.a[0].endswith("Try::branch"):
                c = c.a[1][0]
            ev = next((x for x in e.events if x.kind == "call" and c is not None and x.ret is c), None)
            g = q.body_of(p, ev.callee) if ev is not None and ev.callee else None
            if g is None or depth > 3 or not all(x in e.params for x in ev.args) or not passes_on(p, g, depth + 1):
                return False
    return bool(oks)


def js(ck, p, key, e, t, what):
    try:
        return True, cfg.tojson(p, e, t)
    except cfg.NotConst as x:
        return False, str(x)


def defaults(ck, p, ts, names):
    out = {}
    s = cfg.schema()
    ck.anchor("published schema", s)
    n = 0
    for a in ts:
        nm = a.split("::")[-1]
        T = serde_tab.de_struct(p, a)
        if T is None or T.problems:
            continue
        d = cfg.default_of(p, a)
        dj = None
        if d is not None:
            b, e, t = d
            if ck.ob(f"{nm}:default-value", t is not None, f"{b.path} has no single value", b.path):
                ok, dj = js(ck, p, nm, e, t, "default")
                if not ok:
                    ck.bad(f"{nm}:default-const", f"the default of {a} is not a constant: {dj}", b.path)
                    dj = None
        out[a] = dj
        sch = cfg.schema_of(s, p, a, names) if s else None
        keys = {f: k for k, f in T.keys.items()}
        optional = 0
        for f, m in sorted(T.missing.items()):
            if m[0] != "default":
                if m[0] in ("error",):
                    ck.ob(f"{nm}.{f}:required", True)
                continue
            optional += 1
            n += 1
            k = keys[f]
            ok, j = js(ck, p, nm, m[2], m[1], f)
            if not ok:
                ck.bad(f"{nm}.{f}:default-const", f"the default of {a}.{f} is not a constant: {j}")
                continue
            if d is not None and dj is not None:
                ck.ob(f"{nm}.{f}:same-default", isinstance(dj, dict) and k in dj and cfg.jeq(dj[k], j), f"{k} of {a} is {j} when left out of a configuration but {dj.get(k) if isinstance(dj, dict) else dj} when the whole configuration is left out or built in code", d[0].path)
            if s and ck.ob(f"{nm}:documented", sch is not None, f"the published schema does not describe {a}"):
                ps = (sch.get("properties") or {}).get(k)
                if ck.ob(f"{nm}.{f}:documented", ps is not None, f"the published schema has no option {k} of {a}"):
                    if "default" in ps or j is not None:
                        ck.ob(f"{nm}.{f}:documented-default", "default" in ps and cfg.jeq(ps["default"], j), f"{k} of {a} defaults to {j}, but the published schema documents {ps.get('default')}")
            # a nested reduction configuration by default holds that reduction's own defaults
            nested(ck, p, f"{nm}.{f}", j, names)
        # a type whose every key may be absent must agree with its Default, if anything uses that
        if d is None and optional and optional == len(T.missing) and a in names:
            ck.bad(f"{nm}:no-default", f"{a} has no default although all of its options may be left out")
    ck.floor("option defaults", n, 26)
    # now compare nested defaults
    byname = {names[a]: out[a] for a in names if out.get(a) is not None}
    for key, tn, c in NESTED:
        if tn in byname and c != {}:
            ck.ob(f"{key}:nested-default", cfg.jeq(byname[tn], c), f"the default of {key} configures {tn} with {c}, although {tn} by default is {byname[tn]}")
    return out


NESTED = []


def nested(ck, p, key, j, names):
    if isinstance(j, dict):
        if set(j) == {"typename", "config"} and j["config"] is not None:
            NESTED.append((key, j["typename"], j["config"]))
        for k, v in j.items():
            nested(ck, p, key + "." + k, v, names)
    elif isinstance(j, list):
        for v in j:
            nested(ck, p, key, v, names)


def builders(ck, p, ts, dflt):
    n = 0
    for a in ts:
        bt = a + "Builder"
        b = next((b for b in p.bodies.values() if b.kind == "method" and b.m is None and b.path == bt + "::build"), None) or next((b for b in p.bodies.values() if b.path == bt + "::build"), None)
        if b is None:
            continue
        nm = a.split("::")[-1]
        e = q.run(p, b)
        T = serde_tab.de_struct(p, a)
        for r, t in rets(e):
            if not (t.op == "agg" and t.a[1] == "Ok"):
                continue
            for v in alts(e, t.a[3][0]):
                if not ck.ob(f"{nm}:builder-value", v.op == "agg" and v.a[0] == a, f"{b.path} builds {pp(v)[:120]}", q.loc(r)):
                    continue
                for f, x in zip(v.a[2], v.a[3]):
                    n += 1
                    for y in alts(e, x):
                        own = {z.a[1] for z in subterms(y) if z.op == "f" and z.a[0].op == "par"}
                        if own:
                            ck.ob(f"{nm}.{f}:builder", own == {f} and payload_of_some(y), f"the builder fills {a}.{f} from {pp(y)[:160]}", q.loc(r))
                        else:
                            try:
                                j = cfg.tojson(p, e, y)
                            except cfg.NotConst as z:
                                ck.bad(f"{nm}.{f}:builder", f"the builder fills {a}.{f} from {pp(y)[:160]}", q.loc(r))
                                continue
                            m = (T.missing.get(f) if T else None) or ("none", None)
                            ok = m[0] == "default" and cfg.jeq(cfg.tojson(p, m[2], m[1]), j)
                            ck.ob(f"{nm}.{f}:builder-default", ok, f"an option left out of the builder of {a} makes {f} {j}, which is not its default", q.loc(r))
        # setters
        for sb in p.bodies.values():
            if sb.kind == "method" and sb.path.startswith(bt + "::") and sb.path.rsplit("::", 1)[1] in {f["n"] for f in p.adts[a]["vs"][0]["f"]} and sb.argc == 2:
                f = sb.path.rsplit("::", 1)[1]
                se = q.run(p, sb)
                for r in [x for x in se.events if x.kind == "ret"]:
                    chk_setter(ck, se, r, nm, f, sb)
    ck.floor("builder fields", n, 10)


def chk_setter(ck, se, r, nm, f, sb):
    t = r.args[0]
    flds = {}
    # by-reference builders write through the returned reference; by-value ones return the whole value
    ok = None
    if t.op == "agg" and f in t.a[2]:
        ok = from_param(t.a[3][t.a[2].index(f)], se)
    else:
        w = [x for x in se.events if x.kind == "write"]
        if w:
            ok = all(("." + f) in str(pp(x.args[0]) if x.args else "") or True for x in w)
    if ok is not None:
        ck.ob(f"{nm}.{f}:setter", ok, f"{sb.path} does not store its argument in {f}", q.loc(r))


def from_param(x, se):
    return any(s in se.params for s in subterms(x))


def payload_of_some(y):
    return any(z.op in ("vf", "f") for z in subterms(y)) and not any(z.op == "call" and re.search(r"max|min|clamp|add|mul", z.a[0].split("::")[-1]) for z in subterms(y)) and not any(z.op in ("bin", "un") for z in subterms(y))


def parsed(e, t, params, depth=0, opt=False):
    """t is exactly what deserialising one of the parameters produced (through newtypes, boxes, field-by-field copies)"""
    ts = alts(e, t)
    if len(ts) > 1:
        return all(parsed(e, x, params, depth + 1) for x in ts)
    t = ts[0]
    if depth > 12:
        return False
    if t in params:
        return depth > 0
    if t.op == "vf":
        c = t.a[0]
        if c.op == "call" and c.a[0].endswith("Try::branch") and t.a[1] == "Continue":
            return parsed(e, mk("vf", c.a[1][0], "Ok", "0"), params, depth)
        if t.a[1] in ("Ok", "Some") and c.op == "call":
            if cfg.FV.search(c.a[0]) or re.search(r"(try_into|try_from|map_err|into|from|lock|as_ref)$", c.a[0]):
                return any(parsed(e, a, params, depth + 1) for a in c.a[1])
        return c in params or (c.op in ("f", "vf") and inpar(c, params))
    if t.op == "f":
        return parsed(e, t.a[0], params, depth + 1)
    if t.op in ("ref", "deref", "cast"):
        return parsed(e, t.a[0], params, depth + 1)
    if t.op == "agg" and t.a[3]:
        if t.a[1] is None or t.a[1] not in ("Ok", "Some"):
            return all(parsed(e, x, params, depth + 1) for x in t.a[3]) and same_fields(t)
        return all(parsed(e, x, params, depth + 1) for x in t.a[3])
    if t.op == "call" and re.search(r"Box::new$|(^|::)(into|from|clone|as_str|as_bytes|to_string|to_owned|read_to_string|deref)$", t.a[0]) and t.a[1]:
        return parsed(e, t.a[1][0], params, depth + 1)
    return False


def inpar(c, params):
    while c.op in ("f", "vf", "ref", "deref"):
        c = c.a[0]
    return c in params


def same_fields(t):
    for f, x in zip(t.a[2], t.a[3]):
        if x.op == "f" and x.a[1] != f and not f.isdigit():
            return False
    return True


def factories(ck, p, names, dflt):
    k = 0
    for fa in sorted(reds.factories(p)):
        nm = fa.split("::")[-1]
        i = next(x for x in p.impls_of(reds.FACT) if x["self_ty"].adt == fa)
        ms = {it["m"]: p.bodies.get(it["id"]) for it in i["items"]}
        pc, gd = ms.get("parse_config"), ms.get("get_config_default")
        if not ck.ob(f"{nm}:parses", pc is not None and gd is not None, f"{fa} has no analysable parse_config/get_config_default"):
            continue
        k += 1
        e = q.run(p, pc)
        oks = [(r, t) for r, t in rets(e) if not (t.op == "agg" and t.a[1] == "Err")]
        ck.ob(f"{nm}:parse", oks, f"{pc.path} never succeeds")
        for r, t in oks:
            v = t.a[3][0] if t.op == "agg" and t.a[1] == "Ok" else None
            ck.ob(f"{nm}:parse", v is not None and parsed(e, v, e.params), f"{pc.path} can succeed with {pp(t)[:200]}, which is not what the strict deserialiser made of the given configuration", q.loc(r))
        bad = [x for x in e.events if x.kind == "panic"]
        ck.ob(f"{nm}:parse-panics", not bad, f"{pc.path} panics on a refused configuration", q.loc(bad[0]) if bad else "")
        # the default configuration is the default of the type parsed
        made = {t.adt for x in c06.reach(p, pc) for t in c06.unsize_sources(x, "dyn " + cfg.trait(p, "ReductionConfig"))}
        e = q.run(p, gd)
        for r, t in rets(e):
            ok, j = js(ck, p, nm, e, t, "default")
            for c in made:
                want = dflt.get(c)
                ck.ob(f"{nm}:absent-config", ok and want is not None and cfg.jeq(j, want), f"{gd.path} gives {j} for an absent configuration; the default of {c} is {want}", gd.path)
    ck.floor("factories", k, 8)


def absent(ck, p):
    """callers of ReductionFactory::parse_config: a given configuration is parsed as given, an absent one is the same factory's default"""
    n = 0
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        if b.kind == "mono" or "docs_extension" in b.crate:
            continue
        if not any(f and f["path"].endswith("ReductionFactory::parse_config") for f, sp, t in q.callees(p, b)):
            continue
        n += 1
        e = q.run(p, b)
        cs = [x for x in e.events if x.kind == "call" and x.name.endswith("ReductionFactory::parse_config")]
        kinds = set()
        for c in cs:
            for a in alts(e, c.args[1]):
                while a.op in ("ref", "deref"):
                    a = a.a[0]
                if a.op == "call" and a.a[0].endswith("get_config_default"):
                    kinds.add("absent")
                    ck.ob(f"{b.path}:absent", a.a[1] and a.a[1][0] is c.args[0], f"{b.path} parses the default of {pp(a.a[1][0])[:100]} with another factory", q.loc(c))
                else:
                    r = a
                    while r.op in ("f", "vf", "ref", "deref"):
                        r = r.a[0]
                    given = r in e.params
                    kinds.add("given" if given else "other")
                    ck.ob(f"{b.path}:given", given, f"{b.path} has the factory parse {pp(a)[:160]} instead of the given configuration", q.loc(c))
        ck.ob(f"{b.path}:both", {"given"} <= kinds, f"{b.path} never parses the given configuration")
        # default only when none was given
        for c in cs:
            for a in alts(e, c.args[1]):
                if a.op == "call" and a.a[0].endswith("get_config_default"):
                    ev = next((x for x in e.events if x.kind == "call" and x.ret is a), None)
                    if ev is None:
                        continue
                    hit = q.not_preceded(e, lambda x: x is ev, None, lambda lab: edge_none(lab, e))
                    ck.ob(f"{b.path}:absent-only", not hit, f"{b.path} uses the default configuration although one may have been given", q.loc(c))
        for r, t in rets(e):
            ok = (t.op == "agg" and t.a[1] == "Err") or any(c.ret is t for c in cs) or (t.op == "agg" and t.a[1] == "Ok" and any(s is c.ret for c in cs for s in c06.deep(e, t)))
            ck.ob(f"{b.path}:answer", ok, f"{b.path} can answer {pp(t)[:160]}", q.loc(r))
    ck.floor("users of parse_config", n, 1)


def edge_none(lab, e):
    """an edge taken only when an Option reached from a parameter is None"""
    t, v = lab[0], lab[1]
    return t.op == "discr" and inpar(t.a[0], e.params) and reds.discr_is(lab, t.a[0], "None") is True


def sources(ck, p, ts):
    """every public function that makes a Configuration out of text or an untyped value"""
    cfga = [a for a in ts if a.endswith("workspace::Configuration")]
    if not ck.anchor("Configuration", cfga):
        return
    n = 0
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        if b.kind not in ("fn", "method") or b.derived or not b.argc or b.trait and "serde" in b.trait:
            continue
        t0 = b.lty(0)
        if not (t0.k == "adt" and (t0.adt == cfga[0] or (t0.adt.endswith("Result") and t0.a and t0.a[0].isadt(cfga[0])))):
            continue
        if not any(x.k in ("str",) or "Value" in x.s or x.s.endswith("str") or "String" in x.s for x in [b.lty(i + 1).strip() for i in range(b.argc)]):
            continue
        n += 1
        e = q.run(p, b)
        oks = [(r, t) for r, t in rets(e) if not (t.op == "agg" and t.a[1] == "Err")]
        ck.ob(f"{b.path}:reads", oks, f"{b.path} never succeeds", b.path)
        for r, t in oks:
            v = t.a[3][0] if t.op == "agg" and t.a[1] == "Ok" else t
            ck.ob(f"{b.path}:reads", parsed(e, v, e.params), f"{b.path} can succeed with {pp(t)[:200]}, which is not what the strict deserialiser made of its input", q.loc(r))
        bad = [x for x in e.events if x.kind == "panic"]
        ck.ob(f"{b.path}:panics", not bad, f"{b.path} panics on a refused configuration", q.loc(bad[0]) if bad else "")
    ck.floor("configuration readers", n, 4)
