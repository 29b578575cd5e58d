"""Reduction level: every method of every reduction is explored once per variant of the lent features and per setting of the
boolean options it tests, with calls to sub-models as uninterpreted events.  Under each setting the calls of predict_then_learn
that yield predictions carry the same features, depth and offset as those of predict, its updating calls carry the same
features, label, depth and offset as those of learn, under the same conditions; the prediction returned and the state left in
the reduction itself are the terms predict returns and learn leaves.  The default body calls predict once, then learn once,
with what it received, and returns the prediction.  Wrapper and workspace level: each entry forwards to the method of its own
name exactly once with its arguments.  Training level: on every path that processes a labelled example exactly one update is
made with this label and these features, and a prediction reported for it is one made before the update."""
import itertools, re
import q, reds
from engine import Engine, Event, Call, mk, pp, proj, setp, K, Term, strip_generics, subterms, contains
import engine
from equiv import Eq, match
from checks import c02

TAGS = ["rel"]
UPD = ("child.learn", "child.predict_then_learn")
PRED = ("child.predict", "child.predict_then_learn")
PURE = re.compile(r"^(std|core|alloc)::")


def run(ck):
    p = ck.prog()
    cls, prims = c02.classify(p), c02.primitives(p)
    its = reds.impl_types(p)
    dflt = [b for b in p.bodies.values() if b.path == reds.IMPL + "::predict_then_learn" and b.kind != "mono"]
    ck.anchor("default predict_then_learn", dflt)
    for b in dflt:
        default_body(ck, p, b)
    n = 0
    for adt, ms in sorted(its.items()):
        b = ms["predict_then_learn"]
        own = b is not None and b.self_ty is not None and b.self_ty.isadt(adt) and b.kind != "mono" and not b.path.startswith(reds.IMPL + "::")
        n += 1
        if own:
            override(ck, p, adt, ms, cls, prims)
        else:
            ck.ob(f"{adt.split('::')[-1]}:combined-step", bool(dflt), "no combined step to analyse")
    ck.floor("reductions", n, 8)
    ck.tags = ["rel"]
    for tag in ("dev", "rel"):
        wrapper(ck, ck.prog(tag), tag)
    entries = workspace(ck, p)
    training(ck, p, entries)


# ---------------------------------------------------------------- default body
def default_body(ck, p, b):
    key = "default"

    def mkmodel(m):
        def f(ex, t, fn, args):
            if fn.get("r"):
                return NotImplemented
            snaps = [ex.snap(a) for a in args]
            ct = Call("own." + m, snaps, None if m == "predict" else ex.nonce())
            ex.events.append(Event("call", "own." + m, path=fn["path"], args=tuple(snaps), refs=tuple(args), ret=ct, span=ex.span, ctx=ex.ctx, callee=fn))
            return ex.finish(t, engine.UNIT if m == "learn" else ct)

        return f

    e = Engine(p, b, models={reds.IMPL + "::" + m: mkmodel(m) for m in reds.METHODS})
    pr = [x for x in e.events if x.kind == "call" and x.name == "own.predict"]
    le = [x for x in e.events if x.kind == "call" and x.name == "own.learn"]
    rets = [x for x in e.events if x.kind == "ret"]
    ck.ob(f"{key}:predicts", pr and not q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in pr), "the default combined step can return without predicting", b.path)
    ck.ob(f"{key}:learns", le and not q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in le), "the default combined step can return without learning", b.path)
    for x in pr:
        ck.ob(f"{key}:predict-first", not any(y in pr for y in q.after(e, x)), "the default combined step predicts more than once", q.loc(x))
        args = [a for a in e.params if not islabel(b, e, a)]
        ck.ob(f"{key}:predict-arguments", list(x.args) == args, f"predict is called with {[pp(a)[:80] for a in x.args]}", q.loc(x))
    for x in le:
        aft = q.after(e, x)
        ck.ob(f"{key}:order", not any(y in pr or y in le for y in aft), "the default combined step learns before predicting, or learns twice", q.loc(x))
        ck.ob(f"{key}:learn-arguments", list(x.args) == list(e.params), f"learn is called with {[pp(a)[:80] for a in x.args]}", q.loc(x))
    for r in rets:
        ck.ob(f"{key}:returns", any(r.args[0] is x.ret for x in pr), f"the default combined step returns {pp(r.args[0])[:120]} instead of the prediction", q.loc(r))


def islabel(b, e, a):
    i = next((i for i, x in enumerate(e.params) if x is a), None)
    return i is not None and b.lty(i + 1).strip().isadt("reductionml_core::types::Label")


# ---------------------------------------------------------------- overrides
def scenarios(p, adt, bodies, cls, prims):
    """initial contents: feature variants and boolean options the methods test"""
    var = set()
    flags = set()
    for b in bodies:
        e = c02.explore(p, b, adt, cls, prims, corr=False)
        k = reds.param_of(b, "Features")
        s0, f0 = e.params[0], e.params[k]
        for x in e.nodes:
            for y, lab in x.succ:
                if lab is None or not isinstance(lab[0], Term):
                    continue
                for t in subterms(lab[0]):
                    if t.op == "f" and t.a[0] is s0 and isbool(p, adt, t.a[1]):
                        flags.add(t.a[1])
                    if t.op == "discr" and c02.derives(t.a[0], f0):
                        var.add(1)
    flags = sorted(flags)
    vs = [v["n"] for v in p.adts[c02.FEATURES]["vs"]] if var else [None]
    for v in vs:
        for bits in itertools.product((False, True), repeat=len(flags)):
            yield v, dict(zip(flags, bits))


def isbool(p, adt, f):
    a = p.adts[adt]
    for x in a["vs"][0]["f"]:
        if x["n"] == f:
            t = a["types"][x["t"]]
            return t.k == "prim" and t.s == "bool" or str(t) == "bool" or getattr(t, "s", None) == "bool"
    return False


def init_for(p, b, v, flags):
    out = {}
    if v:
        for nm, init in c02.variants(p, b, reds.param_of(b, "Features")):
            if nm == v:
                out.update(init or {})
    if flags:
        nm = b.lname(1) or "p1"

        def f(x):
            r = x
            for k, val in flags.items():
                r = setp(r, (("f", k),), K(val))
            return r

        out[nm] = f
    return out


def drop(t):
    """common name of a sub-model call whatever the method: predictions without the label"""
    n, a = t.a[0], t.a[1]
    if n == "child.predict_then_learn":
        return "child.prediction", (a[0], a[1]) + tuple(a[3:])
    if n == "child.predict":
        return "child.prediction", tuple(a)
    return n, a


def upd(t):
    n, a = t.a[0], t.a[1]
    if n in UPD:
        return "child.update", tuple(a)
    return n, a


def override(ck, p, adt, ms, cls, prims):
    name = adt.split("::")[-1]
    bs = {m: ms[m] for m in reds.METHODS}
    n = 0
    for v, flags in scenarios(p, adt, bs.values(), cls, prims):
        sc = ",".join(([v] if v else []) + [f"{k}={str(x).lower()}" for k, x in flags.items()])
        es = {m: c02.explore(p, b, adt, cls, prims, init=init_for(p, b, v, flags), corr=True) for m, b in bs.items()}
        n += 1
        compare(ck, p, name, sc, es)
    ck.count(f"scenarios of {name}", n)


def child(e, names):
    return [x for x in e.events if x.kind == "call" and x.name in names]


def compare(ck, p, name, sc, es):
    P, L, C = es["predict"], es["learn"], es["predict_then_learn"]
    # predictions
    pc, cc = child(P, PRED), child(C, PRED)
    f = Eq(C, P, drop)
    key = f"{name}:prediction-calls"
    lone = match([x.ret for x in cc], [x.ret for x in pc], f.eq)
    ck.ob(key, lone is None, msg2(lone, f"[{sc}] calls to the sub-model in predict_then_learn and predict differ"), C.entry.path)
    guards_agree(ck, key, sc, C, cc, P, pc, f)
    # updates
    lc, cu = child(L, UPD), child(C, UPD)
    g = Eq(C, L, upd)
    key = f"{name}:update-calls"
    lone = match([updterm(x) for x in cu], [updterm(x) for x in lc], g.eq)
    ck.ob(key, lone is None, msg2(lone, f"[{sc}] updates of the sub-model in predict_then_learn and learn differ"), C.entry.path)
    guards_agree(ck, key, sc, C, cu, L, lc, g)
    key = f"{name}:update-count"
    rep = [any(y in us for x in us for y in q.after(e, x)) for e, us in ((C, cu), (L, lc))]
    ck.ob(key, rep[0] == rep[1], f"[{sc}] predict_then_learn {'repeats' if rep[0] else 'does not repeat'} an update, learn {'does' if rep[1] else 'does not'}", C.entry.path)
    mis = [bool(q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in us)) for e, us in ((C, cu), (L, lc))]
    ck.ob(key, mis[0] == mis[1], f"[{sc}] predict_then_learn {'can' if mis[0] else 'cannot'} return without an update, learn {'can' if mis[1] else 'cannot'}", C.entry.path)
    # a separate prediction never follows the update
    for x in cu:
        if x.name == "child.learn":
            ck.ob(f"{name}:prediction-before-update", not any(y.kind == "call" and y.name in PRED for y in q.after(C, x)) or bool(rep[0]), f"[{sc}] predicts after updating", q.loc(x))
    # result and own state
    rp, rl, rc = ([x for x in e.events if x.kind == "ret"] for e in (P, L, C))
    lone = match([r.args[0] for r in rc], [r.args[0] for r in rp], f.eq)
    ck.ob(f"{name}:result", lone is None, msg2(lone, f"[{sc}] predict_then_learn does not return what predict returns"), C.entry.path)
    lone = match([r.refs[0] for r in rc], [r.refs[0] for r in rl], g.eq)
    ck.ob(f"{name}:state", lone is None, msg2(lone, f"[{sc}] predict_then_learn leaves another state than learn"), C.entry.path)


def updterm(x):
    return mk("call", "child.update", tuple(x.args), None)


def guards_agree(ck, key, sc, e1, xs, e2, ys, f):
    """each call happens under the same conditions"""
    for x in xs:
        for y in ys:
            a = x.ret if x.name in PRED and "prediction" in key else updterm(x)
            b = y.ret if y.name in PRED and "prediction" in key else updterm(y)
            if not f.eq(a, b):
                continue
            gx, gy = c02.guards(e1, x), c02.guards(e2, y)
            lone = match(list(gx), list(gy), lambda u, w: u[1] == w[1] and f.eq(u[0], w[0]))
            if lone is None or any(
                z is not y and f.eq(a, z.ret if z.name in PRED and "prediction" in key else updterm(z)) and match(list(gx), list(c02.guards(e2, z)), lambda u, w: u[1] == w[1] and f.eq(u[0], w[0])) is None for z in ys
            ):
                continue
            ck.bad(key + ":condition", f"[{sc}] the call in {e1.entry.path} happens under other conditions than in {e2.entry.path}: {[(pp(c)[:100], o) for c, o in lone[0][:2]]} / {[(pp(c)[:100], o) for c, o in lone[1][:2]]}", q.loc(x))
    ck.ob(key + ":condition", True)


def msg2(lone, s):
    if lone is None:
        return ""
    a, b = lone
    return s + ": " + " | ".join(pp(x)[:260] for x in a[:2]) + "  versus  " + " | ".join(pp(x)[:260] for x in b[:2])


# ---------------------------------------------------------------- wrapper and workspace
def wrapper(ck, p, T):
    ws = reds.wrapper_methods(p)
    n = 0
    for path, m in sorted(ws.items()):
        if m == "sensitivity":
            continue
        b = p.by_path[path]
        ck.ob(f"wrapper:{m}:name", b.path.split("::")[-1] == m, f"{path} forwards to {m}")
        e = Engine(p, b, models=reds.impl_models(p))
        calls = [x for x in e.events if x.kind == "call" and x.name.startswith("impl.")]
        n += once(ck, f"wrapper:{m}", e, calls, m, "impl.")
        for c in calls:
            for i in range(1, b.argc + 1):
                t = b.lty(i).strip()
                if t.k == "adt" and t.adt.split("::")[-1] in ("Features", "Label", "ModelIndex"):
                    ck.ob(f"wrapper:{m}:{t.adt.split('::')[-1]}", any(a is e.params[i - 1] for a in c.args), f"{path} does not hand its {t.adt.split('::')[-1]} to the reduction", q.loc(c))
    ck.floor(f"wrapper methods ({T})", n, 3)


def once(ck, key, e, calls, m, pre):
    """exactly one call, of the same-named method, on every path; its result is the result"""
    b = e.entry
    ok = [c for c in calls if c.name == pre + m]
    for c in calls:
        ck.ob(f"{key}:same-method", c in ok, f"{b.path} calls {c.name[len(pre):]}", q.loc(c))
        ck.ob(f"{key}:once", not any(y in calls for y in q.after(e, c)), f"{b.path} calls the reduction again after this call", q.loc(c))
    ck.ob(f"{key}:always", ok and not q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in ok), f"{b.path} can return without calling {m}")
    if m != "learn":
        for r in [x for x in e.events if x.kind == "ret"]:
            got = set(e.phi_in.get(r.args[0], [r.args[0]]))
            ck.ob(f"{key}:result", got <= {c.ret for c in ok}, f"{b.path} returns {pp(r.args[0])[:120]}", q.loc(r))
    return 1 if ok else 0


def entry_methods(p):
    """methods outside the reductions that call a wrapper's predict/learn/predict_then_learn directly"""
    ws = reds.wrapper_methods(p)
    out = {}
    for b in p.bodies.values():
        if b.kind not in ("method", "fn") or b.gen or b.trait == reds.IMPL or b.path in ws:
            continue
        ms = {ws[g.path] for f, sp, t in q.callees(p, b) if f for g in [q.body_of(p, f)] if g is not None and g.path in ws}
        if ms - {"sensitivity"} and b.self_ty is not None and not any(b.path.startswith(a) for a in ws) and not b.trait:
            out[b.path] = ms
    return out


def workspace(ck, p):
    ent = {}
    for path, ms in sorted(entry_methods(p).items()):
        b = p.by_path[path]
        if b.self_ty.isadt(next(iter(reds.impl_types(p)))) or (b.self_ty.k == "adt" and b.self_ty.adt in reds.impl_types(p)):
            continue
        m = b.path.split("::")[-1]
        if m not in reds.METHODS:
            continue
        e = Engine(p, b, models=reds.child_models(p))
        calls = [x for x in e.events if x.kind == "call" and x.name.startswith("child.")]
        once(ck, f"workspace:{m}", e, calls, m, "child.")
        for c in calls:
            for i in range(2, b.argc + 1):
                ck.ob(f"workspace:{m}:arguments", any(a is e.params[i - 1] for a in c.args), f"{path} does not pass on {b.lname(i)}", q.loc(c))
        ent[m] = path
    for m in reds.METHODS:
        ck.anchor(f"workspace {m}", m in ent)
    return ent


# ---------------------------------------------------------------- training loops
def ws_models(p, ent):
    def mkmodel(m):
        def f(ex, t, fn, args):
            snaps = [ex.snap(a) for a in args]
            pure = m == "predict"
            ct = Call("ws." + m, snaps, None if pure else ex.nonce())
            ex.events.append(Event("call", "ws." + m, path=fn["path"], args=tuple(snaps), refs=tuple(args), ret=ct, span=ex.span, ctx=ex.ctx, callee=fn))
            if not pure:
                ex.fa = engine.killtag(ex.fa, ("n", ct.a[2]))
                ex.havoc(args[0], mk("post", ct, 0))
            return ex.finish(t, engine.UNIT if m == "learn" else ct)

        return f

    return {strip_generics(path): mkmodel(m) for m, path in ent.items()}


WUPD = ("ws.learn", "ws.predict_then_learn")


def users(p, ent):
    """functions outside the core crate's own tests that call a workspace entry"""
    out = {}
    for b in p.bodies.values():
        if b.kind not in ("method", "fn", "closure") or b.gen or b.path in ent.values():
            continue
        for f, sp, t in q.callees(p, b):
            g = q.body_of(p, f) if f else None
            if g is not None and g.path in ent.values():
                out.setdefault(b.path, set()).add(next(m for m, x in ent.items() if x == g.path))
    return out


def training(ck, p, ent):
    us = users(p, ent)
    n = 0
    for path, ms in sorted(us.items()):
        b = p.by_path[path]
        last = path.split("::")[-1]
        if last in reds.METHODS and b.self_ty is not None:
            # a binding of the method
            e = Engine(p, b, models=ws_models(p, ent))
            calls = [x for x in e.events if x.kind == "call" and x.name.startswith("ws.")]
            key = f"binding:{b.self_ty.adt.split('::')[-1]}:{last}"
            for c in calls:
                ck.ob(f"{key}:same-method", c.name == "ws." + last, f"{path} calls {c.name[3:]}", q.loc(c))
                ck.ob(f"{key}:once", not any(y in calls for y in q.after(e, c)), f"{path} calls the model again after this call", q.loc(c))
            oks = okrets(e)
            ck.ob(f"{key}:always", calls and not [r for r in q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in calls) if r in oks], f"{path} can succeed without calling {last}")
            n += 1
            continue
        if not (ms & {"learn", "predict_then_learn"}):
            continue
        n += 1
        key = f"train:{last}"
        e = Engine(p, b, models=ws_models(p, ent))
        upd = [x for x in e.events if x.kind == "call" and x.name in WUPD]
        oks = okrets(e)
        miss = [r for r in q.not_preceded(e, lambda x: x.kind == "ret", lambda x: x in upd) if r in oks]
        ck.ob(f"{key}:updated", upd and not miss, f"{path} can report success for an example without updating the model", q.loc(miss[0]) if miss else "")
        feats = [i for i in range(1, b.argc + 1) if "Features" in str(b.lty(i).strip().adt if b.lty(i).strip().k == "adt" else "")]
        for u in upd:
            ck.ob(f"{key}:once", not any(y in upd for y in q.after(e, u)), f"{path} updates again after this update", q.loc(u))
            ck.ob(f"{key}:prediction-first", not any(y.kind == "call" and y.name.startswith("ws.") for y in q.after(e, u)), f"{path} asks the model again for the same example after updating it", q.loc(u))
            for nm, i in (("features", 1), ("label", 2)):
                src = {x for x in subterms(u.args[i]) if x.op == "par"}
                want = "Features" if nm == "features" else "Label"
                okp = [x for x in src if par_type(b, e, x, want)]
                ck.ob(f"{key}:{nm}", len(okp) == 1 and len(src) == 1, f"{path} updates with {nm} {pp(u.args[i])[:120]}", q.loc(u))
        # predictions used are those of this example
    ck.floor("callers of the model", n, 4)


def par_type(b, e, x, want):
    i = next((i for i, y in enumerate(e.params) if y is x), None)
    if i is None:
        return False
    s = repr_type(b.lty(i + 1))
    return want in s


def repr_type(t):
    t = t.strip()
    r = t.adt if t.k == "adt" else ""
    for a in t.a or ():
        if hasattr(a, "strip"):
            r += " " + repr_type(a)
    return r


def okrets(e):
    """returns that can carry success"""
    out = []
    for r in [x for x in e.events if x.kind == "ret"]:
        v = r.args[0]
        if v.op == "agg" and v.a[1] == "Err":
            continue
        out.append(r)
    return out
