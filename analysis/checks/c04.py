"""Construction: for every factory, every path to a successful return that builds a wrapper around a child passes an equality
test (or uses the child's own declared type) for each of the label, features and prediction pair, with the very values that
are stored in the wrapper's type description.  Use: for every reduction method, exploring only the declared label and
features variants and the declared child prediction variant, a normal return stays reachable; every label and features value
passed to the child and every prediction returned has the declared variant."""
import q, reds
from engine import pp, subterms, proj

PAIRS = (("output_label_type", "input_label_type", "label"), ("output_features_type", "input_features_type", "features"), ("input_prediction_type", "output_prediction_type", "prediction"))
BASE_FEATURES = {"SparseSimpleRef": "SparseSimple", "SparseCBAdfRef": "SparseCBAdf"}


def unsome(t):
    return t.a[3][0] if t.op == "agg" and t.a[1] == "Some" and t.a[3] else t


def strip_some(t):
    return unsome(t)


def is_eq_edge(lab, x, y):
    """does the edge establish x == y?"""
    c, v = lab
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c = c.a[1]
        neg = not neg
    if c.op == "bin" and c.a[0] in ("Eq", "Ne"):
        a, b = unsome(c.a[1]), unsome(c.a[2])
        if c.a[1].op == "discr" or c.a[2].op == "discr":
            a = a.a[0] if a.op == "discr" else a
            b = b.a[0] if b.op == "discr" else b
        truth = bool(v) != neg
        if (c.a[0] == "Eq") == truth and {a, b} == {x, y}:
            return True
    if c.op == "discr" and not isinstance(v, tuple):
        for p_, r_ in ((x, y), (y, x)):
            if c.a[0] is p_ and r_.op == "agg" and r_.a[1] == v:
                return True
    return False


def wrap_parts(p, term):
    """(typename, reduction value, type description) of a constructed wrapper"""
    d = dict(zip(term.a[2], term.a[3]))
    td = next((v for v in d.values() if v.op == "agg" and v.a[0].endswith("ReductionTypeDescription")), None)
    red = next((v for k, v in d.items() if v.op == "agg" and v.a[0] in reds.impl_types(p)), None)
    return d, red, td


def declared(ck):
    """adt of the reduction -> list of (type description term fields, child term or None)"""
    p = ck.prog()
    out = {}
    links = 0
    for fa, b in sorted(reds.factories(p).items()):
        e = reds.explore(p, b)
        name = fa.split("::")[-1]
        oks = 0
        for r in [x for x in e.events if x.kind == "ret"]:
            v = r.args[0]
            if v.op == "agg" and v.a[1] == "Err":
                continue
            if v.op != "agg" or v.a[1] != "Ok" or v.a[3][0].op != "agg":
                if v.op == "call" and v.a[0].startswith("Reduction") or (v.op == "agg" and v.a[1] == "Ok"):
                    ck.bad(f"{name}:shape", f"{b.path} returns a wrapper whose type description the analysis cannot see", q.loc(r))
                continue
            d, red, td = wrap_parts(p, v.a[3][0])
            if red is None or td is None:
                ck.bad(f"{name}:shape", f"{b.path} returns a wrapper whose type description or reduction is not built there", q.loc(r))
                continue
            oks += 1
            T = dict(zip(td.a[2], td.a[3]))
            kids = set()
            for s in subterms(red):
                if s.op == "vf" and s.a[1] == "Ok" and s.a[0].op == "call" and s.a[0].a[0].endswith("ReductionFactory::create"):
                    kids.add(s)
            out.setdefault(red.a[0], []).append((T, kids, name))
            for k in sorted(kids, key=lambda x: x.id):
                links += 1
                kt = proj(k, ("f", "type_description"))
                for mine, theirs, what in PAIRS:
                    x = unsome(T[mine])
                    y = proj(kt, ("f", theirs))
                    if x is y:
                        ck.ob(f"{name}:link:{what}", True, "", q.loc(r))
                        continue
                    if T[mine].op == "agg" and T[mine].a[1] == "None":
                        ck.bad(f"{name}:link:{what}", f"{name} declares no {what} type towards its child, yet has one", q.loc(r))
                        continue
                    evs, _ = q.walk(e, None, None, lambda lab: is_eq_edge(lab, x, y))
                    ck.ob(
                        f"{name}:link:{what}",
                        r not in evs,
                        f"{b.path} can build the stack without having checked that the child's {what} type equals what {name} declares ({pp(x)})",
                        q.loc(r),
                    )
        ck.ob(f"{name}:returns", oks >= 1, f"{b.path} has no analysable successful return")
    ck.floor("parent/child links", links, 7)
    return out


def ev_where(e):
    return q.loc(e)


def run(ck):
    p = ck.prog()
    decl = declared(ck)
    its = reds.impl_types(p)
    ck.floor("reductions", len(its), 8)
    # who constructs wrappers
    n = 0
    for adt, lst in sorted(decl.items()):
        ms = its.get(adt)
        nm = adt.split("::")[-1]
        for T, kids, fname in lst:
            lv = T["input_label_type"]
            fv = T["input_features_type"]
            pv = T["output_prediction_type"]
            cl = unsome(T["output_label_type"])
            cf = unsome(T["output_features_type"])
            cp = unsome(T["input_prediction_type"])
            for m in reds.METHODS:
                b = ms.get(m)
                if not ck.anchor(f"{nm}.{m}", b):
                    continue
                e = reds.method(p, adt, m)
                par = {x.a[0]: x for x in e.params}
                feats = e.params[1]
                label = e.params[2] if m != "predict" else None
                kidcalls = reds.child_calls(e)
                kidrets = {c.ret for c in kidcalls}

                def stop(lab):
                    c, v = lab
                    if c.op != "discr":
                        return False
                    t = c.a[0]
                    if label is not None and t is label and lv.op == "agg":
                        return reds.discr_is(lab, t, lv.a[1]) is False
                    if t is feats and fv.op == "agg":
                        return reds.discr_is(lab, t, fv.a[1]) is False
                    if t in kidrets and cp.op == "agg":
                        return reds.discr_is(lab, t, cp.a[1]) is False
                    return False

                evs, _ = q.walk(e, None, None, stop)
                rets = [x for x in evs if x.kind == "ret"]
                n += 1
                ck.ob(f"{nm}.{m}:accepts-declared", rets, f"{nm} declares label {pp(lv)}, features {pp(fv)}, child prediction {pp(cp)}, but {b.path} cannot return normally for them")
                for r in rets:
                    if m == "learn":
                        continue
                    for v in alts(e, r.args[0]):
                        if v.op == "agg" and v.a[0].endswith("::Prediction"):
                            ok = pv.op == "agg" and pv.a[1] == v.a[1]
                            ck.ob(f"{nm}.{m}:returns:{v.a[1]}", ok, f"{b.path} returns a {v.a[1]} prediction but {nm} declares {pp(pv)}", q.loc(r))
                        elif v in kidrets:
                            ck.ob(f"{nm}.{m}:returns:child", pv is cp or same(pv, cp), f"{b.path} returns its child's prediction ({pp(cp)}) but {nm} declares {pp(pv)}", q.loc(r))
                        else:
                            ck.note(f"{nm}.{m}: returned prediction not resolved: {pp(v)[:80]}")
                for c in kidcalls:
                    if c not in evs:
                        continue
                    fa = deref(e, c, c.args[1])
                    for v in alts(e, fa):
                        if v.op == "agg" and v.a[0].endswith("::Features"):
                            got = BASE_FEATURES.get(v.a[1], v.a[1])
                            if True:
                                ok = cf.op == "agg" and cf.a[1] == got or (cf.op != "agg" and same(cf, fv) and rebuilt(v, feats))
                                ck.ob(f"{nm}.{m}:child-features:{got}", ok, f"{b.path} passes {got} features to its child but {nm} declares {pp(cf)}", q.loc(c))
                        elif root_of(v) is feats:
                            ck.ob(f"{nm}.{m}:child-features:own", same(cf, fv), f"{b.path} passes its own features ({pp(fv)}) to its child but {nm} declares {pp(cf)}", q.loc(c))
                    if c.name == "child.predict":
                        continue
                    if c.name == "child.sensitivity":
                        continue
                    for v in alts(e, c.args[2]):
                        if v.op == "agg" and v.a[0].endswith("::Label"):
                            ok = cl.op == "agg" and cl.a[1] == v.a[1]
                            ck.ob(f"{nm}.{m}:child-label:{v.a[1]}", ok, f"{b.path} passes a {v.a[1]} label to its child but {nm} declares {pp(cl)}", q.loc(c))
                        elif root_of(v) is label:
                            ck.ob(f"{nm}.{m}:child-label:own", same(cl, lv), f"{b.path} passes its own label ({pp(lv)}) to its child but {nm} declares {pp(cl)}", q.loc(c))
    ck.floor("reduction methods analysed", n, 24)
    parser_types(ck, p)


def rebuilt(v, feats):
    """a Ref features value wrapped around a part of the same variant of the own features"""
    return any(s is feats for s in subterms(v))


def root_of(v):
    while v.op in ("f", "vf", "post", "upd"):
        v = v.a[0]
    return v


def same(a, b):
    return a is b or (a.op == "agg" and b.op == "agg" and a.a[1] == b.a[1])


def deref(e, c, v):
    return v


def alts(e, v, seen=None):
    """concrete alternatives of a phi"""
    seen = seen if seen is not None else set()
    if v in seen:
        return []
    seen.add(v)
    if v.op == "phi":
        ins = e.phi_in.get(v)
        if ins:
            out = []
            for x in ins.values() if isinstance(ins, dict) else ins:
                out += alts(e, x, seen)
            return out
    return [v]


def parser_types(ck, p):
    """parsers are created for the label and features type of the stack that will consume their output"""
    n = 0
    for b in p.bodies.values():
        if b.kind == "mono" or b.crate == "reductionml_docs_extension":
            continue
        for f, sp, t in q.callees(p, b):
            if f and f.get("trait", "") and f["trait"].endswith("TextModeParserFactory") and f.get("m") == "create":
                n += 1
    ck.count("parser constructions", n)
