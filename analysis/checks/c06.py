"""Registry: the types converted to boxed factories in code reachable from the registry static are exactly the implementors of
the factory trait; the registry inserts each under the name that very factory answers and looks up the very name asked for;
each factory's name constant, its configuration type's and its wrapper's name are one constant, which is the name of the
implementation, and no two share it; lookups of unknown names end in an error, never in an unwrap.  Metrics: exploring the
selector with each candidate name folded in, every metric implementation is selected by exactly one name, its own; any other
name selects none.  Losses, links, label types and formats: each configuration key of an enum selects the variant of that name;
each variant's methods call the same method of its own payload with the arguments in order; each data-format name (command
line and Python) constructs the parser of that name."""
import re
import q, reds, tab, serde_tab
from engine import Engine, Event, Agg, pp, subterms, K, Term, strip_generics, proj
import engine
from tab import norm, alts, rets

DYN = "dyn reductionml_core::reduction_factory::ReductionFactory"


def run(ck):
    p = ck.prog()
    names = factories(ck, p)
    registry(ck, p, names)
    lookups(ck, p)
    metrics(ck, p)
    enums(ck, p)
    delegation(ck, p)
    formats(ck, p)


def const_str(e, t):
    t = alts(e, t)
    if len(t) != 1:
        return None
    s = [x.a[0] for x in subterms(t[0]) if x.op == "k" and isinstance(x.a[0], str)]
    return s[0] if len(set(s)) == 1 else None


def name_of(p, b):
    """the constant name a typename() body returns"""
    e = q.run(p, b)
    vals = {const_str(e, r.args[0]) for r in e.events if r.kind == "ret"}
    return vals.pop() if len(vals) == 1 else None


def unsize_sources(b, dyn):
    out = set()
    for bb in b.bb:
        if bb.get("cl"):
            continue
        for pl, r, sp in bb["s"]:
            if r.get("r") == "cast" and "Unsize" in r.get("ck", ""):
                t = b.types[r["t"]]
                if dyn in t.s and "ot" in r:
                    o = b.types[r["ot"]]
                    while o.k != "adt" or o.adt.startswith("alloc::") or o.adt.startswith("core::"):
                        if not o.a:
                            break
                        o = o.a[0]
                    if o.k != "dyn":
                        out.add(o)
    return out


def reach(p, b, seen=None):
    seen = set() if seen is None else seen
    st = [b]
    kids = q.parents(p)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st += kids.get(x.id, [])
        for f, sp, t in q.callees(p, x):
            if f:
                y = q.body_of(p, f)
                if y is not None:
                    st.append(y)
        for f in q.fn_consts(x):
            y = q.body_of(p, f)
            if y is not None:
                st.append(y)
    return [p.bodies[i] for i in seen if i in p.bodies]


def factories(ck, p):
    """factory adt -> name; name agreement of factory, configuration and wrapper"""
    out = {}
    cfgt = {}
    for i in p.impls_of("reductionml_core::reduction_factory::ReductionConfig"):
        for it in i["items"]:
            if it["m"] == "typename":
                cfgt[i["self_ty"].adt] = name_of(p, p.bodies[it["id"]])
    for fa, b in sorted(reds.factories(p).items()):
        nm = fa.split("::")[-1]
        i = next(x for x in p.impls_of(reds.FACT) if x["self_ty"].adt == fa)
        ms = {it["m"]: p.bodies.get(it["id"]) for it in i["items"]}
        n = name_of(p, ms["typename"]) if ms.get("typename") else None
        if not ck.ob(f"{nm}:constant-name", n, f"the name of {fa} is not one constant"):
            continue
        out[fa] = n
        ck.ob(f"{nm}:name", norm(n) == norm(nm), f'{fa} answers to "{n}", which is not the name of this reduction', ms["typename"].path)
        # configuration types: produced by parse_config, expected by create
        made = {t.adt for x in reach(p, ms["parse_config"]) for t in unsize_sources(x, "dyn reductionml_core::reduction_factory::ReductionConfig")} if ms.get("parse_config") else set()
        want = set()
        for x in reach_local(p, b):
            for f, sp, t in q.callees(p, x):
                if f and f["path"].endswith("downcast_ref") and f.get("a"):
                    for a in f["a"]:
                        ty = x.types[a] if isinstance(a, int) else None
                        if ty is not None and ty.k == "adt" and ty.adt in cfgt:
                            want.add(ty.adt)
        ck.ob(f"{nm}:config-type", len(made) == 1 and (made <= want or not want), f"{fa} parses configurations of type {sorted(made)} but expects {sorted(want)}", b.path)
        for c in made:
            ck.ob(f"{nm}:config-name", cfgt.get(c) == n, f'configurations of {fa} are of type {c}, whose reduction name is "{cfgt.get(c)}", not "{n}"', b.path)
        e = reds.explore(p, b)
        k = 0
        for r, t in rets(e):
            if t.op == "agg" and t.a[1] == "Ok":
                w = t.a[3][0]
                if w.op != "agg":
                    continue
                d = dict(zip(w.a[2], w.a[3]))
                impl = {v.a[0] for v in d.values() if v.op == "agg" and v.a[0] in reds.impl_types(p)}
                if not impl:
                    continue
                k += 1
                ck.ob(f"{nm}:implementation", {norm(x) for x in impl} == {norm(n)}, f'"{n}" creates {sorted(impl)}', q.loc(r))
                wn = d.get("typename")
                if wn is None:
                    wn = next((v for f_, v in d.items() if v.op in ("call", "k", "agg") and const_str(e, v)), None)
                s = const_str(e, wn) if wn is not None else None
                ok = s == n or (wn is not None and wn.op == "call" and wn.a[0].endswith("ReductionFactory::typename"))
                ck.ob(f"{nm}:stored-name", ok, f'the wrapper made by {fa} is named {pp(wn)[:80] if wn is not None else None}, not "{n}"', q.loc(r))
        ck.ob(f"{nm}:creates", k >= 1, f"{b.path} has no analysable successful return")
    dup = {}
    for fa, n in out.items():
        dup.setdefault(n, []).append(fa)
    for n, l in dup.items():
        ck.ob(f"name:{n}:unique", len(l) == 1, f'"{n}" is the name of {l}')
    # serialised models name the implementation
    tags = {}
    for i in p.impls_of(reds.IMPL):
        for it in i["items"]:
            if it["m"] == "typetag_name":
                tags.setdefault(name_of(p, p.bodies[it["id"]]), []).append(i["self_ty"].adt)
    for n, l in tags.items():
        ck.ob(f"model-tag:{n}", n and len(l) == 1, f"saved models name {l} alike")
    ck.floor("factories", len(out), 8)
    ck.floor("model tags", len(tags), 8)
    return out


def reach_local(p, b):
    kids = q.parents(p)
    return [b] + kids.get(b.id, [])


def registry(ck, p, names):
    st = [b for b in p.bodies.values() if b.kind == "static" and "ReductionRegistry" in b.lty(0).s]
    if not ck.anchor("registry static", st):
        return
    reg = set()
    bodies = []
    for s in st:
        # closures of a static's initialiser hang below it
        roots = [s] + [b for b in p.bodies.values() if b.kind == "closure" and b.path.startswith(s.path + "::")]
        seen = set()
        for r in roots:
            bodies += reach(p, r, seen)
    for b in bodies:
        for t in unsize_sources(b, DYN):
            if t.k == "adt":
                reg.add(t.adt)
    allf = {i["self_ty"].adt for i in p.impls_of(reds.FACT)}
    for fa in sorted(allf):
        ck.ob(f"registered:{fa.split('::')[-1]}", fa in reg, f"{fa} implements a reduction that no configuration can select: it is not registered")
    ins = 0
    for b in p.bodies.values():
        if b.kind == "mono":
            continue
        if not any(f and re.search(r"Map.*::(insert|entry|try_insert)$", f["path"]) and any(DYN in b.types[a].s for a in f.get("a", ()) if isinstance(a, int)) for f, sp, t in q.callees(p, b)):
            continue
        e = q.run(p, b)
        for ev in q.calls(e, r"Map::(insert|entry|try_insert)$"):
            if len(ev.args) < 2:
                continue
            ins += 1
            key = ev.args[1]
            src = [s for s in subterms(key) if s.op == "call" and s.a[0].endswith("ReductionFactory::typename")]
            val = ev.args[2] if len(ev.args) > 2 else None
            ok = bool(src) and (val is None or any(x is val or strip(x) is strip(val) for s in src for x in args_of(s)))
            ck.ob(f"{b.path}:key", ok, f"{b.path} stores a factory under {pp(key)[:160]} instead of the name the factory answers", q.loc(ev))
    ck.floor("insertions into the registry", ins, 1)
    n = 0
    for b in p.bodies.values():
        if b.kind == "mono" or not any(f and re.search(r"Map.*::(get|get_mut|get_key_value|index)$", f["path"]) and any(DYN in b.types[a].s for a in f.get("a", ()) if isinstance(a, int)) for f, sp, t in q.callees(p, b)):
            continue
        e = q.run(p, b)
        for ev in q.calls(e, r"Map::(get|get_mut|get_key_value|index)$"):
            n += 1
            ck.ob(f"{b.path}:lookup", ev.args[1] in e.params, f"{b.path} looks up {pp(ev.args[1])[:160]} instead of the name it was given", q.loc(ev))
        for r, t in rets(e):
            if t.op == "agg" and t.a[1] == "None":
                continue
            ok = any(s.op == "call" and "Map::get" in s.a[0] for s in subterms(t))
            ck.ob(f"{b.path}:result", ok, f"{b.path} can answer {pp(t)[:160]}, which is not what was registered under the name", q.loc(r))
    ck.floor("registry lookups", n, 1)


def args_of(t):
    return [x for x in t.a[1]] if isinstance(t.a[1], tuple) else [x for x in t.a if isinstance(x, Term)]


def strip(t):
    while t.op in ("post", "upd", "cast"):
        t = t.a[0]
    return t


def lookups(ck, p):
    """what becomes of the answer to a registry lookup"""
    get = [b for b in p.bodies.values() if b.kind == "method" and b.self_ty is not None and b.self_ty.strip().k == "adt" and b.self_ty.strip().adt.endswith("ReductionRegistry") and "Option<" in b.lty(0).s]
    gp = {b.path for b in get}
    users = {}
    for b in p.bodies.values():
        if b.kind == "mono" or "docs_extension" in b.crate:
            continue
        for f, sp, t in q.callees(p, b):
            if f and f["path"] in gp:
                users[b.root or b.id] = p.bodies[b.root or b.id]
    ck.floor("users of the registry lookup", len(users), 3)
    for b in sorted(users.values(), key=lambda x: x.path):
        e = Engine(p, b, models={k: absent(k) for k in MAPGET})
        hits = [x for x in e.events if x.kind == "call" and x.name == "registry.absent"]
        ck.ob(f"{b.path}:looks-up", hits, f"{b.path} has no feasible lookup")
        for g in hits:
            aft = q.after(e, g)
            bad = [x for x in aft if x.kind == "panic"]
            ck.ob(f"{b.path}:unknown-name", not bad, f"{b.path} panics when a reduction name is unknown", q.loc(bad[0]) if bad else "")
            r = [t for x in aft if x.kind == "ret" for t in alts(e, x.args[0])]
            wrong = [t for t in r if not is_err(t)]
            ck.ob(f"{b.path}:unknown-is-error", not wrong, f"{b.path} answers {pp(wrong[0])[:120] if wrong else None} for an unknown reduction name", q.loc(g))
            act = [x for x in aft if x.kind == "call" and re.search(r"ReductionFactory::(create|parse_config|get_config_default)$", x.name)]
            ck.ob(f"{b.path}:unknown-acts", not act, f"{b.path} goes on with some factory although the name is unknown", q.loc(g))
        e = q.run(p, b)
        gets = q.calls(e, r"Map::get$")
        # the answer's own factory is the one asked to act, with the given configuration
        for ev in e.events:
            if ev.kind == "call" and re.search(r"ReductionFactory::(create|parse_config|get_config_default)$", ev.name) and gets:
                ok = any(s is g.ret for g in gets for t in alts(e, ev.args[0]) for s in deep(e, t))
                ck.ob(f"{b.path}:{ev.name}:receiver", ok, f"{b.path} asks {pp(ev.args[0])[:120]} instead of the factory that was looked up", q.loc(ev))


MAPGET = ["alloc::collections::btree::map::BTreeMap::get", "std::collections::hash::map::HashMap::get"]


def absent(k):
    """the lookup finds nothing"""

    def f(ex, t, fn, args):
        if not any(DYN in ex.ctx.body.types[a].s for a in fn.get("a", ()) if isinstance(a, int)):
            return NotImplemented
        snaps = [ex.snap(a) for a in args]
        none = Agg("core::option::Option", "None", [], [])
        ex.events.append(Event("call", "registry.absent", path=fn["path"], args=tuple(snaps), refs=tuple(args), ret=none, span=ex.span, ctx=ex.ctx, callee=fn))
        return ex.finish(t, none)

    return f


def deep(e, t, seen=None):
    """subterms, looking through phis"""
    seen = set() if seen is None else seen
    for s in subterms(t):
        if s in seen:
            continue
        seen.add(s)
        yield s
        if s.op == "phi":
            ins = e.phi_in.get(s) or []
            for x in ins.values() if isinstance(ins, dict) else ins:
                yield from deep(e, x, seen)


def is_err(t):
    if t.op == "agg":
        return t.a[1] in ("Err", "None")
    if t.op == "call":
        return not t.a[0].endswith("Ok")
    return True


# ------------------------------------------------------------------ metrics
def metrics(ck, p):
    tr = "reductionml_core::metrics::metric::Metric"
    tr = next((t for t in p.traits if t.endswith("metric::Metric")), tr)
    impls = {i["self_ty"].adt for i in p.impls_of(tr)}
    sel = [b for b in p.bodies.values() if b.kind == "fn" and b.argc == 1 and "dyn " + tr in b.lty(0).s and b.lty(0).s.startswith("core::option::Option")]
    if not ck.anchor("metric selector", sel):
        return
    for b in sel:
        cands = tab.strings(q.run(p, b))
        sug = suggested(p)
        got = {}
        for n in sorted(cands | sug | {"", "no such metric"}):
            e = Engine(p, b, args=[K(n)])
            ts = [t for r, t in rets(e)]
            some = {payload(t) for t in ts if not (t.op == "agg" and t.a[1] == "None")}
            if some and any(t.op == "agg" and t.a[1] == "None" for t in ts) or None in some or len(some) > 1:
                ck.bad(f"metric:{n}", f'the metric selected by "{n}" is not determined by the name: {[pp(t)[:80] for t in ts]}', b.path)
                continue
            if some:
                a = some.pop()
                got.setdefault(a, []).append(n)
                ck.ob(f"metric:{n}", norm(n) == norm(a) or norm(n) == tab.acronym(a), f'the name "{n}" selects {a}', b.path)
            elif n in sug:
                ck.bad(f"metric:{n}", f'a reduction suggests the metric "{n}", which does not exist', b.path)
            elif n in ("", "no such metric"):
                ck.ob("metric:unknown", True)
            else:
                ck.bad(f"metric:{n}", f'the name "{n}" is compared but selects nothing', b.path)
        for bad in ("", "no such metric"):
            for a, l in got.items():
                ck.ob("metric:unknown", bad not in l, f'the unknown name "{bad}" selects {a}', b.path)
        for a in sorted(impls):
            ck.ob(f"metric-impl:{a.split('::')[-1]}", len(got.get(a, [])) == 1, f"{a} is selected by {got.get(a, [])}", b.path)
        ck.floor("metrics", len(impls), 4)
        # callers: unknown name never ends in a panic
        k = 0
        for c in {x.root or x.id: p.bodies[x.root or x.id] for x in p.bodies.values() if x.kind != "mono" for f, sp, t in q.callees(p, x) if f and f["path"] == b.path}.values():
            k += 1
            e = q.run(p, c, opaque=[b.path]) if False else Engine(p, c, opaque=[b.path])
            cs = [ev for ev in e.events if ev.kind == "call" and ev.path == b.path]
            ck.ob(f"{c.path}:selects", cs, f"{c.path} never calls the metric selector on a feasible path")
            for ev in cs:
                miss = q.walk(e, ev, None, lambda lab: reds.discr_is(lab, ev.ret, "None") is False)[0]
                bad = [x for x in miss if x.kind == "panic" and any(s is ev.ret for a in x.args for s in subterms(a))]
                ck.ob(f"{c.path}:unknown-metric", not bad, f"{c.path} panics when a metric name is unknown", q.loc(ev))
                const = ev.args and ev.args[0].op == "k"
                if not const:
                    oks = [t for x in miss if x.kind == "ret" for t in alts(e, x.args[0]) if t.op == "agg" and t.a[1] == "Ok"]
                    tested = any(reds.discr_is(lab, ev.ret, "None") is not None for n_ in e.nodes for y, lab in n_.succ if lab is not None and isinstance(lab[0], Term))
                    ck.ob(f"{c.path}:unknown-metric-tested", tested or forwarded(e, ev), f"{c.path} never looks whether the metric exists", q.loc(ev))
        ck.floor("users of the metric selector", k, 1)


def forwarded(e, ev):
    """the optional answer goes into an error conversion (context/ok_or) or is returned"""
    for x in e.events:
        if x is not ev and x.kind in ("call", "ret") and any(s is ev.ret for a in x.args for s in subterms(a)):
            return True
    return False


def payload(t):
    if t.op == "agg" and t.a[1] == "Some" and t.a[3]:
        t = t.a[3][0]
        if t.op == "agg":
            return t.a[0]
        m = re.match(r"default:(?:alloc::boxed::Box<)?([\w:]+)", str(t.a[0])) if t.op == "call" else None
        return m.group(1) if m else None
    return None


def suggested(p):
    out = set()
    for b in p.bodies.values():
        if b.m == "get_suggested_metrics" and b.kind != "mono":
            e = q.run(p, b)
            out |= tab.strings(e)
    return out


# ------------------------------------------------------------------ enums
def enums(ck, p):
    roots = [a for a in p.adts if a.endswith("workspace::Configuration")]
    roots += [i["self_ty"].adt for i in p.impls_of("reductionml_core::reduction_factory::ReductionConfig")]
    n = 0
    for a in sorted(serde_tab.reachable(p, roots)):
        if p.adts[a].get("kind", "") not in ("enum",) and len(p.adts[a]["vs"]) < 2:
            continue
        if not serde_tab.impl_for(p, "serde_core::de::Deserialize", a) and not serde_tab.impl_for(p, "serde::de::Deserialize", a):
            pass
        try:
            tabl, unk = serde_tab.de_enum(p, a)
        except Exception as x:  # noqa
            ck.note(f"{a}: {x}")
            continue
        if not tabl:
            continue
        nm = a.split("::")[-1]
        n += 1
        ck.ob(f"{nm}:unknown", unk == "error", f"an unknown name for {a} is not refused")
        for k, v in sorted(tabl.items()):
            ck.ob(f"{nm}:{k}", norm(str(v)) == norm(k), f'"{k}" selects {v} of {a}')
        vs = [v["n"] for v in p.adts[a]["vs"]]
        for v in vs:
            ck.ob(f"{nm}:selectable:{v}", v in tabl.values(), f"no name selects {v} of {a}")
        s = serde_tab.ser(p, a)
        if s and s[0] == "enum":
            for v, k in s[1].items():
                ck.ob(f"{nm}:written:{v}", tabl.get(k) == v, f'{v} of {a} is written as "{k}", which reads back as {tabl.get(k)}')
    ck.floor("configuration enums", n, 3)


def delegation(ck, p):
    tr = next((t for t in p.traits if t.endswith("::LossFunctionImpl")), None)
    if not ck.anchor("loss trait", tr):
        return
    n = 0
    for i in p.impls_of(tr):
        a = i["self_ty"].adt
        if len(p.adts[a]["vs"]) < 2:
            continue
        ids = {it["m"]: it["id"] for it in i["items"]}
        for m, bid in sorted(ids.items()):
            b = p.bodies[bid]
            op = {x.path for x in p.bodies.values() if x.trait == tr and x.id != bid} | {x.path for j in p.impls_of(tr) for it in j["items"] for x in [p.bodies.get(it["id"])] if x is not None and x.id != bid}
            for v, e in tab.by_variant(p, b, 0, a, opaque=op):
                n += 1
                key = f"{a.split('::')[-1]}:{v['n']}:{m}"
                ad = p.adts[a]
                pay = ad["types"][v["f"][0]["t"]].adt if v["f"] else None
                ck.ob(key + ":payload", pay and norm(pay) == norm(v["n"]), f"variant {v['n']} holds {pay}")
                want = next((j for j in p.impls_of(tr) if j["self_ty"].adt == pay), None)
                wid = {it["m"]: it["id"] for it in want["items"]}.get(m) if want else None
                wb = p.bodies.get(wid)
                cs = [x for x in e.events if x.kind == "call" and x.path in op or (x.kind == "call" and x.callee and x.callee.get("trait") == tr)]
                for r, t in rets(e):
                    ok = t.op == "call" and any(c.ret is t and wb is not None and c.callee and (q.body_of(p, c.callee) is wb) and list(c.args[1:]) == list(e.params[1:]) for c in cs)
                    ck.ob(key, ok, f"{m} of {v['n']} answers {pp(t)[:160]} instead of {pay}'s own {m} of the same arguments", q.loc(r))
    ck.floor("loss methods delegated", n, 12)


# ------------------------------------------------------------------ data formats
def formats(ck, p):
    tr = next((t for t in p.traits if t.endswith("TextModeParser")), None)
    parsers = {i["self_ty"].adt for i in p.impls_of(tr)} if tr else set()
    ck.floor("parsers", len(parsers), 3)
    n = 0
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        if b.kind != "method" or b.self_ty is None or b.self_ty.k != "adt" or not b.argc or "dyn " + tr not in b.lty(0).s:
            continue
        a = b.self_ty.adt
        if a not in p.adts or len(p.adts[a]["vs"]) < 2 or any(v["f"] for v in p.adts[a]["vs"]):
            continue
        used = {}
        nm = a.split("::")[-1]
        for v, e in tab.by_variant(p, b, 0, a):
            n += 1
            made = set()
            for r, t in rets(e):
                if t.op == "agg" and t.a[0].endswith("result::Result"):  # may be refused
                    if t.a[1] == "Err":
                        continue
                    made |= {x.a[0] if x.op == "agg" else None for x in tab.alts(e, t.a[3][0])}
                elif t.op == "call" and str(t.a[0]).endswith("from_residual"):
                    continue
                else:
                    made.add(t.a[0] if t.op == "agg" else None)
            ck.ob(f"{nm}:{v['n']}", len(made) == 1 and None not in made and norm(list(made)[0]) == norm(v["n"]), f"{a}::{v['n']} creates {sorted(map(str, made))}", b.path)
            for x in made:
                used.setdefault(x, []).append(v["n"])
        for x in sorted(parsers):
            ck.ob(f"{nm}:parser:{x.split('::')[-1]}", len(used.get(x, [])) == 1, f"{x} is selected by {used.get(x, [])} of {a}", b.path)
        # names on the command line
        for c in p.bodies.values():
            if c.m == "to_possible_value" and c.self_ty is not None and c.self_ty.isadt(a):
                for v, e in tab.by_variant(p, c, 0, a):
                    s = {x for x in tab.strings(e)}
                    ck.ob(f"{nm}:{v['n']}:name", any(norm(x) == norm(v["n"]) for x in s), f"{a}::{v['n']} is called {sorted(s)} on the command line", c.path)
            if c.m == "value_variants" and c.self_ty is not None and c.self_ty.isadt(a) and c.kind != "mono":
                pass
    ck.floor("format variants", n, 6)
