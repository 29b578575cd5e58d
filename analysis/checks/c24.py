"""Implementations: `add_point` of every metric is explored (per variant of the features); on every path that returns it adds to its
own counters, and each increment is read as a formula.  The increments do not depend on the metric's state, all counters start at
zero, the count of examples grows by one exactly once.  By exact normal form, the value reported by the mean squared error is the sum
of (label - prediction)^2 over the count, that of the inverse-propensity estimate the sum of -cost * p / logged probability over the
count, where p is the probability that the prediction gives to the logged action; the example number is the count less one; the
number of features sums over the simple features, or the shared ones and every action.  Reading a value cannot panic and cuts no
digits.  `supports` holds exactly for the pairs of label and prediction types for which `add_point` can return (both decided for every
pair of variants).  Training: whenever values can be reported, every update is followed, before the next example or success, by a
complete pass over all metrics that gives each one this example's features and label and the prediction made for it; values are read
only then; a requested metric is put to use only after `supports` was asked for the types of the entry reduction and said yes."""
import itertools, re
import q, alg, tab, reds, engine, panics
from alg import sym, const, NotAlgebraic
from engine import Engine, Term, pp, subterms
import checks.c03 as c03
import checks.c06 as c06


def run(ck):
    p = ck.prog()
    tr = next((t for t in p.traits if t.endswith("metric::Metric")), None)
    if not ck.anchor("metric trait", tr):
        return
    ims = {}
    dflt = {}
    for b in p.bodies.values():
        if b.kind in ("mono", "closure"):
            continue
        if b.trait == tr and b.self_ty is not None and b.self_ty.k == "adt":
            ims.setdefault(b.self_ty.adt, {})[b.m] = b
        elif b.path.startswith(tr + "::"):
            dflt[b.path.split("::")[-1]] = b
    for adt, ms in sorted(ims.items()):
        metric(ck, p, adt, ms, dflt)
    ck.floor("metrics", len(ims), 4)
    training(ck, p, tr)


# ---------------------------------------------------------------- implementations
def vtypes(p, suffix):
    return next(a for a in p.adts if a.endswith("types::" + suffix))


def pair(p, b, la, pa, lv, pv):
    """add_point with label and prediction fixed to a variant each"""
    init = {}
    for i in range(1, b.argc + 1):
        t = b.lty(i).strip()
        if t.k == "adt" and t.adt == la:
            init[b.lname(i) or f"p{i}"] = lambda x: tab.agg_of(x, la, lv)
        if t.k == "adt" and t.adt == pa:
            init[b.lname(i) or f"p{i}"] = lambda x: tab.agg_of(x, pa, pv)
    return Engine(p, b, init=init)


def metric(ck, p, adt, ms, dflt):
    name = adt.split("::")[-1]
    b, g = ms.get("add_point"), ms.get("get_value")
    if not ck.anchor(f"{name}: add_point and get_value", b and g):
        return
    la, pa, fa = vtypes(p, "Label"), vtypes(p, "Prediction"), vtypes(p, "Features")
    # which kinds of label and prediction it can take
    sup = ms.get("supports") or dflt.get("supports")
    ok = []
    for lv in p.adts[la]["vs"]:
        for pv in p.adts[pa]["vs"]:
            e = pair(p, b, la, pa, lv, pv)
            can = any(x.kind == "ret" for x in e.events)
            if can:
                ok.append((lv["n"], pv["n"]))
            said = supported(p, sup, lv["n"], pv["n"]) if sup is not None else [True]
            ck.ob(f"{name}:supports", said == [can], f"{name} {'can' if can else 'cannot'} be given a label of type {lv['n']} with a prediction of type {pv['n']}, but says {said}", (sup or b).path)
            ck.count("pairs of types")
    # the value
    eg = Engine(p, g)
    pan = [x for x in eg.events if x.kind == "panic"]
    ck.ob(f"{name}:value-total", not pan, f"reading {name} can panic", q.loc(pan[0]) if pan else g.path)
    gs = [alt for r in eg.events if r.kind == "ret" for alt in tab.alts(eg, r.args[0])]
    for t in gs:
        for x in subterms(t):
            if x.op == "cast" and re.fullmatch(r"[iu](8|16|32)", ctype(x)):
                ck.bad(f"{name}:value-narrow", f"the value of {name} is cut to {ctype(x)}: {pp(x)[:80]}", g.path)
    # increments
    first = True
    for v, e in tab.by_variant(p, b, [i for i in range(b.argc) if tyname(b.lty(i + 1)) == fa][0], fa):
        rets = [x for x in e.events if x.kind == "ret"]
        me = e.params[0]
        inc = {}
        flds = {}
        for w in e.events:
            if w.kind == "write" and any(x is me for x in subterms(w.args[0])):
                f = field(w.args[0])
                flds.setdefault(f, []).append(w)
        ck.ob(f"{name}:counts", flds, f"{name} records nothing of an example with {v['n']} features", b.path)
        kind = None
        for f, ws in sorted(flds.items()):
            if "ParsedFeatures" in name:
                walks(ck, e, name, v["n"], f, ws)
                for w in ws:
                    total(ck, e, name, v["n"], f, w)
                inc[f] = None
                continue
            miss = q.not_preceded(e, lambda x: x.kind == "ret", lambda x, ws=ws: x in ws)
            ck.ob(f"{name}:always", not miss, f"{name} can leave {f} as it was for an example with {v['n']} features", b.path)
            last = [w for w in ws if not any(y in ws for y in q.after(e, w))]
            ck.ob(f"{name}:once", last, f"{f} of {name} is written in a loop", b.path)
            for w in last:
                try:
                    inc.setdefault(f, []).append((delta(e, me, f, w.args[1]), w))
                except NotAlgebraic as ex:
                    ck.bad(f"{name}:formula", f"the change of {f} in {name} cannot be read as a formula: {ex}", q.loc(w))
        if "ParsedFeatures" not in name:
            value(ck, name, e, eg, gs, inc)
        elif first:
            for t in gs:
                x = payload(t)
                ck.ob(f"{name}:value", x is not None and field(x) in flds and not [y for y in subterms(x) if y.op == "bin"], f"{name} reports {pp(t)[:100]}", g.path)
        first = False
        ck.count("variants of features")
    # initial state
    news = [c for c in p.bodies.values() if c.kind in ("method", "fn") and c.self_ty is not None and tyname(c.self_ty) == adt and c.trait is None and c.argc == 0]
    for c in news:
        for r in tab.rets(Engine(p, c)) if hasattr(tab, "rets") else []:
            r = r[0] if isinstance(r, tuple) else r
            if isinstance(r, Term) and r.op == "agg":
                for nm, x in zip(r.a[2], r.a[3]):
                    ck.ob(f"{name}:starts-at-zero", alg.fconst(x) == 0, f"{nm} of {name} starts at {pp(x)[:40]}", c.path)
    ck.ob(f"{name}:constructor", news, f"{name} has no constructor that can be analysed")


def tyname(t):
    t = t.strip()
    return t.adt if t.k == "adt" else ""


def ctype(x):
    return str(x.a[0])


def field(t):
    return re.sub(r"^.*\.", "", pp(t)).strip("()*& ")


def payload(t):
    while t.op == "agg" and len(t.a[3]) == 1:
        t = t.a[3][0]
    while t.op == "cast":
        t = t.a[1]
    return t


def supported(p, b, lv, pv):
    """results of supports() for a pair of types"""
    init, args = {}, [None] * b.argc
    for i in range(1, b.argc + 1):
        a = tyname(b.lty(i))
        for suf, want in (("types::LabelType", lv), ("types::PredictionType", pv)):
            if a.endswith(suf):
                v = next((x for x in b.prog.adts[a]["vs"] if x["n"] == want), None) if hasattr(b, "prog") else next((x for x in p.adts[a]["vs"] if x["n"] == want), None)
                if v is None:
                    return ["no such type"]
                args[i - 1] = tab.agg_of(engine.mk("par", b.lname(i) or f"p{i}"), a, v)
    e = Engine(p, b, args=args)
    out = set()

    def impossible(lab):
        if lab[0].op == "discr":
            x = panics.deref(lab[0].a[0])
            if x.op == "agg" and isinstance(x.a[1], str):
                v = lab[1]
                return x.a[1] in v[1] if isinstance(v, tuple) and v[0] == "ne" else isinstance(v, str) and v != x.a[1]
        c = fold(p, lab[0])
        return c is not None and isinstance(lab[1], (bool, int)) and bool(c) != bool(lab[1])

    for r in q.walk(e, None, None, impossible)[0]:
        if r.kind == "ret":
            for t in tab.alts(e, r.args[0]):
                c = fold(p, t)
                out.add(bool(c) if isinstance(c, (bool, int)) else pp(t)[:80])
    return sorted(out, key=str)


def fold(p, t):
    """constant value of comparisons of discriminants, or None"""
    t = panics.deref(t)
    if t.op == "k":
        return t.a[0] if isinstance(t.a[0], (bool, int)) else None
    if t.op == "discr":
        x = panics.deref(t.a[0])
        if x.op == "agg" and x.a[0] in p.adts:
            return next((i for i, v in enumerate(p.adts[x.a[0]]["vs"]) if v["n"] == x.a[1]), None)
        return None
    if t.op == "cast":
        return fold(p, t.a[1])
    if t.op == "un" and t.a[0] == "Not":
        c = fold(p, t.a[1])
        return None if c is None else not c
    if t.op == "agg" and not t.a[3] and t.a[0] in p.adts and len(p.adts[t.a[0]]["vs"]) > 1:
        return next((i for i, v in enumerate(p.adts[t.a[0]]["vs"]) if v["n"] == t.a[1]), None)
    if t.op == "bin":
        a, b = fold(p, t.a[1]), fold(p, t.a[2])
        if a is None or b is None:
            return None
        return {"Eq": a == b, "Ne": a != b, "BitAnd": a & b, "BitOr": a | b}.get(t.a[0])
    return None


def leaf(e, me):
    def f(t):
        if t.op in ("bin", "un", "cast", "k"):
            return None
        if t.op == "call" and re.search(r"(exp|ln|powi|powf|recip|mul_add|::add|::sub|::mul|::div)$", str(t.a[0])):
            return None
        if t.op == "phi":
            raise NotAlgebraic("joined values: " + pp(t)[:80])
        if any(x is me for x in subterms(t)):
            return sym(("self", field(t)))
        return sym(t)

    return f


def delta(e, me, f, t):
    r = alg.of(t, leaf(e, me)) - sym(("self", f))
    return r


def value(ck, name, e, eg, gs, inc):
    own = lambda r: [a for a in r.atoms() if isinstance(a, tuple) and a[0] == "self"]
    for f, rs in inc.items():
        for r, w in rs:
            ck.ob(f"{name}:increment", not own(r), f"{name} sets {f} to {pp(w.args[1])[:140]}, which is not its old value plus something of the example", q.loc(w))
    if not all(inc.values()):
        return
    for t in gs:
        x = payload(t)
        try:
            G = alg.of(x, leaf(eg, eg.params[0]))
        except NotAlgebraic as ex:
            ck.bad(f"{name}:value", f"the value of {name} cannot be read as a formula: {ex}")
            continue
        used = own(G)
        by = {("self", f): [r for r, _ in rs] for f, rs in inc.items()}
        if not ck.ob(f"{name}:value-recorded", all(a in by for a in used), f"{name} reports {G.show()}, of which an example does not change {[a[1] for a in used if a not in by]}") and not all(a in by for a in used):
            continue
        ones = [a for a in used if all(r == const(1) for r in by[a])]
        if "ExampleNumber" in name:
            ck.ob(f"{name}:value", len(ones) == 1 and G == sym(ones[0]) - const(1), f"{name} reports {G.show()}, with increments {shown(by)}")
        elif "MeanSquaredError" in name or "Ips" in name:
            rest = [a for a in used if a not in ones]
            good = len(ones) == 1 and len(rest) == 1 and G == sym(rest[0]) / sym(ones[0])
            ck.ob(f"{name}:value", good, f"{name} reports {G.show()}, with increments {shown(by)}, which is not a mean over the examples")
            if good:
                for r in by[rest[0]]:
                    (square if "Mean" in name else ips)(ck, name, e, r, inc[rest[0][1]])


def shown(by):
    return {k[1]: [r.show()[:80] for r in v] for k, v in by.items()}


def square(ck, name, e, r, ws):
    at = list(r.atoms())
    l = [a for a in at if isinstance(a, Term) and pp(a).endswith(".value") and "label" in low(a)]
    y = [a for a in at if isinstance(a, Term) and pp(a).endswith(".prediction")]
    d = sym(l[0]) - sym(y[0]) if len(l) == len(y) == 1 else None
    ck.ob(f"{name}:increment-formula", d is not None and r == d * d, f"{name} adds {r.show()}, not (label - prediction)^2", q.loc(ws[0][1]))


def low(t):
    return pp(t).lower()


def ips(ck, name, e, r, ws):
    at = [a for a in r.atoms() if isinstance(a, Term)]
    cost = [a for a in at if pp(a).endswith(".cost")]
    prob = [a for a in at if pp(a).endswith(".probability")]
    rest = [a for a in at if a not in cost and a not in prob]
    ok = len(cost) == len(prob) == len(rest) == 1 and r == -(sym(cost[0]) * sym(rest[0]) / sym(prob[0]))
    ck.ob(f"{name}:increment-formula", ok, f"{name} adds {r.show()}, not -cost * p / logged probability", q.loc(ws[0][1]))
    if not ok:
        return
    x = rest[0]
    act = re.compile(r"\.action$")
    w = ws[0][1]
    if x.op == "proj" or True:
        # the probability belongs to the logged action
        el = next((y for y in subterms(x) if y.op == "call" and re.search(r"next|find|get|index|position", str(y.a[0]))), None)
        idx = [y for y in subterms(x) if act.search(pp(y))]
        if idx:
            good = False  # the list of predictions is not in the order of the actions
        else:
            # on the way to the write: element's action == logged action
            def differs(lab):
                c, v = lab
                if not isinstance(c, Term):
                    return False
                neg = False
                while c.op == "un" and c.a[0] == "Not":
                    c, neg = c.a[1], not neg
                if c.op != "bin" or c.a[0] not in ("Eq", "Ne"):
                    return False
                s = [pp(panics.deref(c.a[1])), pp(panics.deref(c.a[2]))]
                me = re.sub(r"\.1$", ".0", pp(x))
                if not (any(act.search(z) for z in s) and me in s):
                    return False
                return (v is True) == (c.a[0] == "Eq") if not neg else (v is False) == (c.a[0] == "Eq")

            evs = q.not_preceded(e, lambda y: y is w, edge=differs)
            good = not evs and pp(x).endswith(".1")
        ck.ob(f"{name}:logged-action", good, f"{name} takes the probability {pp(x)[:120]}, which is not that of the logged action", q.loc(w))
        src = pp(x)
        ck.ob(f"{name}:own-prediction", "prediction" in src, f"{name} takes the probability from {src[:120]}", q.loc(w))


PARTIAL = r"(Skip|Take|StepBy|Filter\w*|SkipWhile|TakeWhile|MapWhile|Zip|skip|take|step_by|filter\w*|skip_while|take_while|map_while|zip|max\w*|min\w*|last|nth|find\w*|position|first|pop)"


def walks(ck, e, name, vn, f, ws):
    """nothing of the example is passed over"""
    nexts = [x for x in e.events if x.kind == "call" and x.name.endswith("next")]
    over = lambda lab: isinstance(lab[0], Term) and (any(reds.discr_is(lab, x.ret, "Some") is False for x in nexts) or (lab[0].op == "discr" and lab[1] == "None"))
    miss = q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in ws, over)
    ck.ob(f"{name}:always", not miss, f"{name} can leave {f} as it was for an example with {vn} features")
    for x in e.events:
        if x.kind == "call" and re.search(r"(^|::)" + PARTIAL + "$", x.name):
            ck.bad(f"{name}:part", f"{name} takes only some of the features: {x.name}({', '.join(pp(a)[:60] for a in x.args)})", q.loc(x))
    for w in ws:
        for y in c06.deep(e, w.args[1]):
            m = re.search(r"(?:^|\b)(?<!\.)" + PARTIAL + r"[{(]", pp(y))
            if m:
                ck.bad(f"{name}:part", f"{name} takes only some of the features: {pp(y)[:120]}", q.loc(w))
                break


def total(ck, e, name, vn, f, w):
    """number of features: the new value contains the old one and counts the features of every part"""
    t = w.args[1]
    me = e.params[0]
    adds, st = [], [t]
    while st:
        x = st.pop()
        if x.op == "bin" and x.a[0] == "Add":
            st += [x.a[1], x.a[2]]
        elif x.op == "cast":
            st.append(x.a[1])
        else:
            adds.append(x)
    olds = [x for x in adds if field(x) == f and any(y is me for y in subterms(x))]
    deep = c06.deep(e, t)
    everything = {pp(x) for x in deep}
    old_inside = any(field(x) == f and any(y is me for y in subterms(x)) for x in deep if x.op != "phi")
    ck.ob(f"{name}:increment", len(olds) == 1 or (not olds and old_inside), f"{name} sets {f} to {pp(t)[:140]}, which is not its old value plus something of the example", q.loc(w))
    # parts that are walked on the way to this write
    walked = " ".join(pp(a) for x in e.events if x.kind in ("call", "elem") for a in x.args)
    parts = (f"as {vn}).0.namespaces",) if "Simple" in vn else (".shared", ".actions")
    for s in parts:
        ck.ob(f"{name}:part", s in walked, f"{name} does not look at {s} of {vn} features", q.loc(w))
    for x in adds:
        if x in olds:
            continue
        c = alg.fconst(x)
        looped = any(y is w for y in q.after(e, w))
        ck.ob(f"{name}:counted", c is None or c == 0 or looped, f"{name} adds the constant {pp(x)} for an example with {vn} features", q.loc(w))


# ---------------------------------------------------------------- training
def training(ck, p, tr):
    ent = c03_entries(p)
    us = c03.users(p, ent)
    feeders = []
    for b in p.bodies.values():
        if b.crate in p.crates and b.kind in ("fn", "method", "closure") and b.trait != tr and "::tests" not in b.path:
            fs = [f["path"] for f, sp, t in q.callees(p, b) if f]
            if tr + "::add_point" in fs:
                feeders.append(b)
    ck.floor("callers of add_point", len(feeders), 1)
    sel = [b.path for b in p.bodies.values() if b.path.split("::")[-1] == "get_metric" and b.kind == "fn"]
    roots = [b for b in p.bodies.values() if b.kind in ("fn", "method") and b.crate in p.crates and "::tests" not in b.path and any(f and f["path"] in sel for f, sp, t in q.callees(p, b))]
    models = c03.ws_models(p, ent)
    # the smallest functions that update the model and feed the metrics
    ups = set()
    for b in unit_functions(p, feeders, us, ent):
        unit(ck, p, b, models)
        ups.add(b.id)
    done = 0
    for b in roots:
        top = b
        for _ in range(6):
            cs = [c for c in callers(p, top) if c.kind in ("fn", "method") and c.crate in p.crates and "::tests" not in c.path]
            if any(m.startswith("ws.") for m in reach_ws(p, top, ent)) or not cs:
                break
            top = cs[0]
        command(ck, p, top, models, ups)
        done += 1
    ck.floor("commands that use metrics", done, 1)


def c03_entries(p):
    """workspace methods that hand an example to the entry reduction: {method: path}"""
    out = {}
    for path in sorted(c03.entry_methods(p)):
        b = p.by_path[path]
        if b.self_ty.k == "adt" and b.self_ty.adt in reds.impl_types(p):
            continue
        m = path.split("::")[-1]
        if m in reds.METHODS:
            out[m] = path
    return out


def callers(p, b):
    out = []
    for c in p.bodies.values():
        if c.kind != "mono" and any(f and f["path"] == b.path for f, sp, t in q.callees(p, c)):
            out.append(p.bodies.get(c.root, c) if c.kind == "closure" and c.root else c)
    return out


def reach(p, b):
    """bodies that b runs: closures and functions of the workspace it names, transitively"""
    seen, st = {}, [b]
    while st:
        x = st.pop()
        for y in c06.reach_local(p, x):
            if y.id in seen:
                continue
            seen[y.id] = y
            for f, sp, t in q.callees(p, y):
                z = f and p.by_path.get(f["path"])
                if z is not None and z.crate in p.crates and z.id not in seen:
                    st.append(z)
    return list(seen.values())


def reach_ws(p, b, ent):
    seen = {m.path for m in reach(p, b)}
    for m in reach(p, b):
        for f, sp, t in q.callees(p, m):
            if f:
                seen.add(f["path"])
    return {"ws." + k for k, v in ent.items() if v in seen}


def unit_functions(p, feeders, us, ent):
    """functions from which both add_point and an update are reached, none of whose callees is one"""
    cand = []
    for b in p.bodies.values():
        if b.kind not in ("fn", "method") or b.crate not in p.crates or b.root is not None or "::tests" in b.path:
            continue
        rl = {m.id for m in reach(p, b)}
        if any(f.id in rl for f in feeders) and reach_ws(p, b, ent) & {"ws.learn", "ws.predict_then_learn"}:
            cand.append((b, rl))
    ids = {b.id for b, _ in cand}
    return [b for b, rl in cand if not (rl - {b.id}) & ids]


def isadd(x):
    return x.kind == "call" and x.name.endswith("Metric::add_point")


def isupd(x):
    return x.kind == "call" and x.name in c03.WUPD


def taker(e, a):
    """the event that takes the metric that is fed from the list"""
    ts = {x for t in tab.alts(e, a.args[0]) for x in c06.deep(e, t) if x.op == "call" and str(x.a[0]).endswith("next")}
    return [x for x in e.events if x.kind == "call" and x.ret in ts]


def unit(ck, p, b, models):
    e = Engine(p, b, models=models)
    nm = b.path.split("::")[-1]
    adds = [x for x in e.events if isadd(x)]
    upds = [x for x in e.events if isupd(x)]
    ck.ob(f"{nm}:feeds", adds and upds, f"{b.path} does not feed the metrics", b.path)
    for a in adds:
        pr = {x for t in tab.alts(e, a.args[3]) for x in subterms(t) if x.op == "call" and str(x.a[0]).startswith("ws.")}
        direct = [t for t in tab.alts(e, a.args[3])]
        ck.ob(f"{nm}:prediction", direct and all(t.op == "call" and str(t.a[0]) in ("ws.predict", "ws.predict_then_learn") for t in direct), f"a metric is given {pp(a.args[3])[:120]} as the prediction", q.loc(a))
        for u in upds:
            if a not in q.after(e, u):
                continue
            same = any(x is y for x in tab.alts(e, a.args[2]) for y in tab.alts(e, u.args[2]))
            ck.ob(f"{nm}:label", same, f"the model is given the label {pp(u.args[2])[:80]}, a metric {pp(a.args[2])[:80]}", q.loc(a))
            fx = roots_of(e, u.args[1])
            fy = roots_of(e, a.args[1])
            ck.ob(f"{nm}:features", fx & fy, f"the model is given the features {pp(u.args[1])[:80]}, a metric {pp(a.args[1])[:80]}", q.loc(a))
            ck.count("updates followed by metrics")
            early = [y for y in q.after(e, u, lambda y: isadd(y) or isget(y)) if y.kind == "call" and y.ret in pr and not isupd(y)]
            ck.ob(f"{nm}:prediction-first", not early, "a metric is given the prediction of a model that has already learnt from the example", q.loc(a))
    # no way of calling it shows metrics and updates the model without feeding them
    takers = list({id(t): t for a in adds for t in taker(e, a)}.values())
    ok = {id(r) for r in c03.okrets(e)}
    sw = switches(e)
    for val in itertools.product(*sw.values()):
        off = lambda lab, val=val: failed(lab) or any(lab[0] is t and lab[1] != v and not isinstance(lab[1], tuple) for t, v in zip(sw, val))
        live = q.walk(e, None, None, off)[0]
        shows = any(isget(x) for x in live)
        for u in [x for x in live if isupd(x)]:
            skip = [y for y in q.after(e, u, lambda y: y in takers or y in adds, off) if isupd(y) or id(y) in ok or isget(y)]
            ck.ob(f"{nm}:every-example", not (skip and shows), "although metrics are reported, an example can be learnt from without being given to them", q.loc(u))
        ck.count("ways of calling the update")


def isget(x):
    return x.kind == "call" and x.name.endswith("Metric::get_value")


def roots_of(e, t):
    return {x for y in c06.deep(e, t) for x in [y] if x.op == "par"} or {t}


def failed(lab):
    """edge taken when a call failed (C15: failures end the run with an error); the end of a queue is not a failure"""
    c, v = lab
    return c.op == "discr" and v in ("Err", "Break") and not re.search(r"recv|join", pp(c))


def inside(x, ups):
    """in a function decided on its own (unit)"""
    c = x.ctx
    while c is not None and c.parent is not None:
        if c.body.id in ups:
            return True
        c = c.parent
    return False


def switches(e):
    """conditions on what the parameters were when the function was entered: {term: values}"""
    out = {}
    for n in e.nodes:
        for y, lab in n.succ:
            if lab is None or not isinstance(lab[0], Term):
                continue
            t = lab[0]
            base = t.a[0] if t.op == "discr" else t
            if not isinstance(base, Term) or any(x.op in ("call", "phi", "bin", "elem") for x in subterms(base)) or not any(x.op == "par" for x in subterms(base)):
                continue
            v = lab[1]
            if isinstance(v, (bool, str)):
                out.setdefault(t, set()).add(v)
    return {t: sorted(vs, key=str) for t, vs in list(out.items())[:6] if len(vs) == 2}


def command(ck, p, b, models, ups):
    e = Engine(p, b, models=models)
    nm = "train"
    adds = [x for x in e.events if isadd(x)]
    upds = [x for x in e.events if isupd(x)]
    gets = [x for x in e.events if isget(x)]
    if not ck.anchor(f"{b.path}: updates, metrics and reports", adds and upds and gets):
        return
    # run-long switches: parameters that are tested
    bools = [x for x in e.params if any(lab is not None and lab[0] is x for n in e.nodes for y, lab in n.succ)][:3]
    modes = list(itertools.product((True, False), repeat=len(bools)))
    takers = list({id(t): t for a in adds for t in taker(e, a)}.values())
    if not ck.anchor(f"{b.path}: the loop over the metrics", takers):
        return
    ok = {id(r) for r in c03.okrets(e)}
    for mode in modes:
        off = lambda lab, mode=mode: any(lab[0] is x and isinstance(lab[1], bool) and lab[1] is not v for x, v in zip(bools, mode))
        off_ok = lambda lab, off=off: off(lab) or failed(lab)
        live = {id(x) for x in q.walk(e, None, None, off)[0]}
        for u in upds:
            if id(u) not in live:
                continue
            nxt = [y for y in q.after(e, u, lambda y: y in takers, off_ok) if isupd(y) or id(y) in ok or y in gets]
            shown = nxt and any(y in gets and not inside(y, ups) for y in q.after(e, u, None, off))
            ck.ob(f"{nm}:every-example", not shown, "although metrics are reported, an example can be learnt from without being given to them", q.loc(u))
            ck.count("updates in each mode")
    none = lambda lab, t: isinstance(lab[0], Term) and reds.discr_is(lab, t.ret, "Some") is False
    for t in takers:
        skip = [y for y in q.after(e, t, isadd, lambda lab, t=t: none(lab, t) or failed(lab)) if y is t or y in takers or isupd(y) or id(y) in ok or y in gets]
        ck.ob(f"{nm}:every-metric", not skip, "a metric of the list can be skipped", q.loc(t))
    for a in adds:
        again = [y for y in q.after(e, a, lambda y: y in takers) if isadd(y)]
        ck.ob(f"{nm}:once", not again, "a metric can be given an example twice", q.loc(a))
        left = [y for y in q.after(e, a, lambda y: y in takers, failed) if isupd(y) or id(y) in ok or y in gets]
        ck.ob(f"{nm}:all-metrics", not left, "the pass over the metrics can stop early", q.loc(a))
        before = q.not_preceded(e, lambda y: y is a, isupd)
        ck.ob(f"{nm}:after-prediction", not before, "a metric is given an example before the model has seen it", q.loc(a))
    # refused metrics
    sups = [x for x in e.events if x.kind == "call" and x.name.endswith("Metric::supports")]
    if not ck.ob(f"{nm}:asks", sups, "it is never asked whether a requested metric applies to the model", b.path) and not sups:
        return
    for s in sups:
        a = [pp(x) for x in s.args[1:]]
        ck.ob(f"{nm}:asks-types", len(a) == 2 and a[0].endswith("entry_reduction.type_description.input_label_type") and a[1].endswith("entry_reduction.type_description.output_prediction_type"), f"it is asked whether a metric supports {a}", q.loc(s))
        no = lambda lab, s=s: lab[0] is s.ret and lab[1] is True
        bad = [y for y in q.after(e, s, None, no) if isupd(y) or id(y) in ok or y in gets]
        ck.ob(f"{nm}:refuses", not bad, "training goes on with a metric that does not apply to the model", q.loc(s))
        m = set(tab.alts(e, s.args[0]))
    used = [x for x in e.events if x.kind in ("call", "elem") and re.search(r"(Vec::(push|insert)|extend\w*|^push)$", x.name) and any(set(tab.alts(e, a)) & {m for s in sups for m in tab.alts(e, s.args[0])} for a in x.args[1:])]
    ck.ob(f"{nm}:uses", used, "the requested metrics are not put to use", b.path)
    for x in used:
        bad = q.not_preceded(e, lambda y: y is x, lambda y: y in sups)
        ck.ob(f"{nm}:asks-first", not bad, "a requested metric is put to use without asking whether it applies", q.loc(x))
