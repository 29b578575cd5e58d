"""Reductions: factories, implementations, explored methods and their calls to child reductions."""
import re
import q
from engine import pp, subterms, proj

IMPL = "reductionml_core::reduction::ReductionImpl"
FACT = "reductionml_core::reduction_factory::ReductionFactory"
METHODS = ("predict", "learn", "predict_then_learn")


def short(b):
    m = re.match(r"^<(.*?) as ", b.path)
    return m.group(1).split("::")[-1] if m else b.path.split("::")[-1]


def merge_fns(prog):
    """the primitives that merge features into / out of an example: methods of SparseFeatures taking another SparseFeatures"""
    out = set()
    for b in prog.bodies.values():
        if b.kind in ("method", "fn") and b.argc == 2 and not b.trait and b.self_ty is not None and b.self_ty.strip().k == "adt" and b.self_ty.strip().adt.endswith("SparseFeatures"):
            if b.lty(1).k == "ref" and b.lty(1).mut and b.lty(2).strip().k == "adt" and b.lty(2).strip().adt.endswith("::SparseFeatures"):
                out.add(b.path)
    return out


_op = {}


def opaque(prog):
    k = (prog.dir, prog.tag)
    if k not in _op:
        names = {strip(x) for x in merge_fns(prog)}
        ns = re.compile(r"SparseFeatures::(set_namespace|remove_namespace|get_or_create_namespace|get_namespace|get_namespace_mut)$")

        def f(b, fn):
            return strip(b.path) in names or (b.kind != "mono" and ns.search(strip(b.path)) is not None)

        _op[k] = f
    return _op[k]


def strip(p):
    from engine import strip_generics

    return strip_generics(p)


def impl_types(prog):
    """adt path -> {method: body} for every implementor of ReductionImpl (default bodies included)"""
    out = {}
    dflt = {b.m: b for b in prog.bodies.values() if b.kind in ("method", "fn") and b.path.startswith(IMPL + "::") and b.m}
    for i in prog.impls_of(IMPL):
        t = i["self_ty"]
        ms = {}
        for it in i["items"]:
            ms[it["m"]] = prog.bodies.get(it["id"])
        d = {}
        for m in METHODS + ("sensitivity", "children"):
            d[m] = ms.get(m)
            if d[m] is None:
                # the default body, instantiated for this type
                d[m] = mono_default(prog, m, t) or dflt.get(m)
        out[t.adt] = d
    return out


def mono_default(prog, m, t):
    for b in prog.bodies.values():
        if b.kind == "mono" and b.path.endswith(f"ReductionImpl::{m}") and b.argc and b.lty(1).strip().isadt(t.adt):
            return b
    return None


WRAP = None


def wrapper_methods(prog):
    """inherent methods of the type that owns a boxed reduction, keyed by path -> trait method they forward to"""
    k = (prog.dir, prog.tag)
    if k in _wm:
        return _wm[k]
    out = {}
    for b in prog.bodies.values():
        if b.kind != "method" or b.trait or b.self_ty is None or b.self_ty.k != "adt" or not b.argc or b.lty(1).k != "ref":
            continue
        if not b.lty(1).a[0].isadt(b.self_ty.adt):
            continue
        ms = {f["m"] for f, sp, t in q.callees(prog, b) if f and f.get("trait") == IMPL and f.get("r", {}).get("kind") == "virtual" and f.get("m") in METHODS + ("sensitivity",)}
        if len(ms) == 1:
            out[b.path] = ms.pop()
    _wm[k] = out
    return out


_wm = {}


def child_models(prog):
    """contract of calling a child reduction: features and depth record come back as passed (decided by C02 and C23),
    predict and sensitivity are pure (C01), learn and predict_then_learn change the child only"""
    import engine
    from engine import Event, Call

    def mkmodel(m):
        def f(ex, t, fn, args):
            snaps = [ex.snap(a) for a in args]
            pure = m in ("predict", "sensitivity")
            ct = Call("child." + m, snaps, None if pure else ex.nonce())
            ev = Event("call", "child." + m, path=fn["path"], args=tuple(snaps), refs=tuple(args), ret=ct, span=ex.span, ctx=ex.ctx, callee=fn)
            ex.events.append(ev)
            if not pure:
                tag = ("n", ct.a[2])
                ex.fa = engine.killtag(ex.fa, tag)
                ex.havoc(args[0], engine.mk("post", ct, 0))
            if m == "learn":
                return ex.finish(t, engine.UNIT)
            return ex.finish(t, ct)

        return f

    return {strip(p): mkmodel(m) for p, m in wrapper_methods(prog).items()}


def impl_models(prog):
    """contract of the reduction behind a wrapper: hands features and depth record back as they came (C02, C23 decide that)"""
    import engine
    from engine import Event, Call

    def mkmodel(m):
        def f(ex, t, fn, args):
            if fn.get("r", {}).get("kind") != "virtual":
                return NotImplemented
            snaps = [ex.snap(a) for a in args]
            pure = m in ("predict", "sensitivity")
            ct = Call("impl." + m, snaps, None if pure else ex.nonce())
            ex.events.append(Event("call", "impl." + m, path=fn["path"], args=tuple(snaps), refs=tuple(args), ret=ct, span=ex.span, ctx=ex.ctx, callee=fn))
            if not pure:
                ex.fa = engine.killtag(ex.fa, ("n", ct.a[2]))
                ex.havoc(args[0], engine.mk("post", ct, 0))
            return ex.finish(t, engine.UNIT if m == "learn" else ct)

        return f

    return {IMPL + "::" + m: mkmodel(m) for m in METHODS + ("sensitivity",)}


def param_of(b, adt_suffix, mut=None):
    """index of the parameter whose (referenced) type is the given adt"""
    for i in range(1, b.argc + 1):
        t = b.lty(i)
        if t.strip().k == "adt" and t.strip().adt.endswith("::" + adt_suffix):
            return i - 1
    return None


_ex = {}


def explore(prog, b, adt=None, **kw):
    """explore a reduction method; calls on its own `self` (from default bodies) are resolved to the type `adt`"""
    from engine import Engine

    if adt is None and b.self_ty is not None and b.self_ty.k == "adt":
        adt = b.self_ty.adt
    key = (prog.dir, prog.tag, b.id, adt)
    if key in _ex and not kw:
        return _ex[key]
    kw0 = bool(kw)
    its = impl_types(prog)

    def devirt(ex, f, args):
        if f.get("trait") == IMPL and not f.get("r") and adt in its and args:
            return its[adt].get(f["m"])
        return None

    kw.setdefault("opaque", opaque(prog))
    kw.setdefault("models", child_models(prog))
    kw.setdefault("devirt", devirt)
    e = Engine(prog, b, **kw)
    if not kw0:
        _ex[key] = e
    return e


def method(prog, adt, m, **kw):
    return explore(prog, impl_types(prog)[adt][m], adt, **kw)


def child_calls(eng, m=None):
    out = []
    for e in eng.events:
        if e.kind == "call" and e.name.startswith("child.") and (m is None or e.name == "child." + m):
            out.append(e)
    return out


def factories(prog):
    """factory self type -> create body"""
    return {b.self_ty.adt: b for b in prog.methods(FACT, "create") if b.self_ty is not None}


def discr_is(lab, term, variant):
    """None: the edge says nothing about term's variant; else whether it allows `variant`"""
    c, v = lab
    if c.op != "discr" or c.a[0] is not term:
        return None
    if isinstance(v, int) or (isinstance(v, tuple) and any(isinstance(x, int) for x in v[1])):
        return None  # drop elaboration: the variant's number, without its name
    if isinstance(v, tuple) and v[0] == "ne":
        return variant not in v[1]
    return v == variant
