"""Wrapper level: for every method that forwards to a boxed reduction, the depth record the reduction receives has the offset
`received + num_models_below * model_offset` (polynomial normal form) in predict, learn and predict_then_learn alike, every
other part of the record is as received, and at every return the caller's record equals what it was at entry.  Reduction
level: for every method of every reduction (default methods instantiated), the record handed to each child call equals the
one received and the record at every return equals the one at entry.  Entry level: a record is created with offset zero."""
import q, reds
from engine import Engine, pp, proj, K, subterms
from norm import canon, poly, same

TAGS = ["dev", "rel"]
DI = "reduction::DepthInfo"


def flat(t):
    """record as a canonical term"""
    return canon(t)


def eq(p, di, a, b):
    """field-wise equality of two depth records"""
    if a is b or flat(a) is flat(b):
        return True
    fs = fields(p, di)
    return bool(fs) and all(feq(proj(a, ("f", f)), proj(b, ("f", f))) for f in fs)


def inner(t):
    for s in ("0",):
        t = proj(t, ("f", s))
    return t


def feq(a, b):
    return a is b or flat(a) is flat(b) or same(inner(a), inner(b))


def fields(p, di):
    a = p.adts.get(di)
    if not a:
        return []
    return [f["n"] for f in a["vs"][0]["f"]]


def run(ck):
    p = ck.prog()
    T = ck.tag
    ws = reds.wrapper_methods(p)
    di = next((x for x in p.adts if x.endswith(DI)), None)
    ck.anchor("DepthInfo", di)
    n = 0
    terms = {}
    for path, m in sorted(ws.items()):
        b = p.by_path[path]
        e = Engine(p, b, models=reds.impl_models(p))
        k = reds.param_of(b, "DepthInfo")
        mo = reds.param_of(b, "ModelIndex")
        if not ck.anchor(f"{m}:depth-parameter", k is not None):
            continue
        d0 = e.params[k]
        calls = [x for x in e.events if x.kind == "call" and x.name == "impl." + m]
        ck.ob(f"wrapper:{m}:forwards", len(calls) >= 1, f"{path} does not forward to the reduction")
        for c in calls:
            n += 1
            got = next((a for a, r in zip(c.args, c.refs) if isdepth(c, a, p, di, d0)), None)
            if got is None:
                ck.bad(f"wrapper:{m}:record", f"{path} does not hand a depth record to the reduction", q.loc(c))
                continue
            if m == "sensitivity":
                ck.ob(f"wrapper:{m}:record", eq(p, di, got, d0), f"{path} passes {pp(got)[:200]} instead of the received record", q.loc(c))
                continue
            off = canon(inner(proj(got, ("f", fields(p, di)[0]))))
            terms.setdefault(off, []).append(m)
            nb = wrapper_count(p, b, e)
            want = poly(inner(proj(d0, ("f", fields(p, di)[0]))))
            add = {}
            if nb is not None and mo is not None:
                from norm import mul

                add = mul(poly(inner(nb)), poly(inner(e.params[mo])))
            tot = dict(want)
            for kk, v in add.items():
                tot[kk] = tot.get(kk, 0) + v
            tot = {kk: v for kk, v in tot.items() if v}
            ck.ob(
                f"wrapper:{m}:increment",
                poly(inner(proj(got, ("f", fields(p, di)[0])))) == tot,
                f"{path} calls the reduction with offset {pp(off)[:200]}; expected the received offset plus (models below * model offset), once",
                q.loc(c),
            )
            for f in fields(p, di)[1:]:
                ck.ob(f"wrapper:{m}:{f}", feq(proj(got, ("f", f)), proj(d0, ("f", f))), f"{path} changes {f} of the record", q.loc(c))
        for r in [x for x in e.events if x.kind == "ret"]:
            if e.entry.lty(k + 1).k == "ref":
                ck.ob(f"wrapper:{m}:restored", eq(p, di, r.refs[k], d0), f"{path} returns with depth record {pp(r.refs[k])[:300]} instead of the one it received", q.loc(r))
    ck.ob("wrapper:agree", len(terms) <= 1, "predict, learn and predict_then_learn shift the offset differently: " + "; ".join(f"{pp(k)[:120]} in {v}" for k, v in terms.items()))
    ck.floor(f"wrapper calls ({T})", n, 4)
    # reductions
    k2 = 0
    for adt, ms in sorted(reds.impl_types(p).items()):
        name = adt.split("::")[-1]
        for m in reds.METHODS + ("sensitivity",):
            b = ms.get(m)
            if b is None:
                continue
            e = reds.explore(p, b, adt)
            k = reds.param_of(b, "DepthInfo")
            if k is None:
                continue
            d0 = e.params[k]
            for c in reds.child_calls(e):
                k2 += 1
                got = next((a for a in c.args if isdepth(c, a, p, di, d0)), None)
                ck.ob(f"{name}:{m}:child", got is not None and eq(p, di, got, d0), f"{b.path} calls its child with depth record {pp(got)[:200] if got is not None else None} instead of the one it received", q.loc(c))
            if b.lty(k + 1).k == "ref":
                for r in [x for x in e.events if x.kind == "ret"]:
                    ck.ob(f"{name}:{m}:restored", eq(p, di, r.refs[k], d0), f"{b.path} returns with depth record {pp(r.refs[k])[:200]} instead of the one it received", q.loc(r))
    ck.floor(f"child calls with a depth record ({T})", k2, 12)
    # records are born with offset zero
    born = 0
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and not b.gen and b.lty(0).isadt(di) and b.argc == 0:
            e = q.run(p, b)
            for r in [x for x in e.events if x.kind == "ret"]:
                born += 1
                ck.ob(f"{b.path}:zero", same(inner(proj(r.args[0], ("f", fields(p, di)[0]))), K(0)), f"{b.path} creates a record with offset {pp(r.args[0])[:150]}", q.loc(r))
    ck.floor(f"constructors of the record ({T})", born, 1)


def isdepth(c, a, p, di, d0):
    """argument of depth-record type: recognised by its term (built from a record) or by its declared type"""
    if a is d0:
        return True
    if a.op == "agg" and a.a[0] == di:
        return True
    x = a
    while x.op in ("upd", "post", "wupd"):
        x = x.a[0]
        if x is d0:
            return True
        if x.op == "call":
            break
    i = next((i for i, y in enumerate(c.args) if y is a), None)
    ps = callee_types(c, p)
    return ps is not None and i is not None and i < len(ps) and ps[i] == di


def callee_types(c, p):
    b = p.bodies.get(c.callee["id"]) or p.by_path.get(c.callee["path"])
    if b is None or not b.argc:
        return None
    return [b.lty(j).strip().adt if b.lty(j).strip().k == "adt" else None for j in range(1, b.argc + 1)]


def wrapper_count(p, b, e):
    """the wrapper's own sub-model count: its field that every factory fills with the number of models"""
    a = p.adts[b.self_ty.adt]
    for f in a["vs"][0]["f"]:
        if a["types"][f["t"]].isadt("reductionml_core::types::ModelIndex"):
            return proj(e.params[0], ("f", f["n"]))
    return None
