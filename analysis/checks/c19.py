"""Walkers: the functions that enumerate the features and interactions of an example and hand each weight (or weight state) to a
callback are found as the generic functions that call the weight accessors.  Each walker is explored and reduced to an automaton
over its visible steps: taking the next element of an iterator, accessing a weight with a certain index and model offset, calling
back with a certain value.  All walkers must have the same automaton (steps equal as values, same succession of steps, same
conditions), whatever accessor they use, and every index must be derived from the example's features or be the constant feature's.

Base learners: in every method of a reduction that reaches a walker, every walker call must receive the same features, weights,
interactions, number of bits, constant-feature flag and offset as the prediction's; predict must reach a reading walker, learn a
changing one, and nothing but the changing walker's callback may write to the weights.  The callback of the changing walker writes
the weight itself on every path, the callbacks of the reading ones contribute on every path on which the contribution is not zero."""
import re
import q, reds, cfg
from engine import Engine, Term, pp, proj, subterms, children
from norm import canon
from equiv import Eq

OPQ = re.compile(r"adapters::(skip|take|step_by)::.*::next$|Iterator::(nth|advance_by)$|SparseFeatures\w*::(all_features|get_namespace)$|::constant_feature_index$|FeatureMask::from_num_bits$|FeatureHash::mask$")
ZERO = {("f", "0.0"), ("f", "-0.0")}


def weights_trait(p):
    for b in p.bodies.values():
        if b.trait and b.trait.endswith("weights::Weights"):
            return b.trait
    return None


def accessor(f, tr):
    return f is not None and f.get("trait") == tr


def walkers(p, tr):
    """functions (not implementations of the accessor trait) that call an accessor, closed upwards inside their module; the ones called from elsewhere"""
    par = {}
    calls = {}
    for b in p.bodies.values():
        if b.crate not in p.crates or b.kind not in ("fn", "method", "closure"):
            continue
        rb = p.bodies.get(b.root) if b.kind == "closure" else b
        root = (rb or b).path
        for f, sp, t in q.callees(p, b):
            if f:
                calls.setdefault(root, []).append(f)
    by = {}
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and b.crate in p.crates:
            by.setdefault(b.path, b)
    W = set()
    for r, fs in calls.items():
        b = by.get(r)
        if b is None or b.trait or not re.search(r"::weights(::\w+)*::\w+$", r) and not any("Weights" in str(g) for g in (b.gen or ())):
            continue
        if any(accessor(f, tr) for f in fs) and "dense_weights" not in r:
            W.add(r)
    mod = lambda x: x.rsplit("::", 1)[0]
    ch = True
    while ch:
        ch = False
        for r, fs in calls.items():
            if r in W or r not in by or by[r].trait:
                continue
            if any(f["path"] in W and mod(f["path"]) == mod(r) for f in fs):
                W.add(r)
                ch = True
    outer = set()
    for r, fs in calls.items():
        for f in fs:
            if f["path"] in W and r not in W:
                outer.add(f["path"])
    return [by[x] for x in sorted(outer)], W


def run(ck):
    p = ck.prog()
    tr = weights_trait(p)
    ck.anchor("weight accessors", tr)
    if not tr:
        return
    ws, W = walkers(p, tr)
    ck.floor("feature walkers", len(ws), 2)
    autos = []
    for w in ws:
        a = automaton(p, w, tr)
        autos.append(a)
        ck.count("accesses", len(a.acc))
        ck.ob(f"walks:{w.path}", a.acc and a.calls, "does not access weights and call back", w.path)
        provenance(ck, a)
    if autos:
        ref = autos[0]
        for a in autos[1:]:
            compare(ck, ref, a)
    learners(ck, p, tr, {w.path for w in ws}, {a.w.path: a for a in autos})


# ------------------------------------------------------------------ walkers
class Eqv(Eq):
    def _eq1(self, a, b, k):
        if a.op == "clo" and b.op == "clo":
            # what a callback does is compared step by step
            return True
        return Eq._eq1(self, a, b, k)


    def ins(self, e, t):
        """joins are looked through, but the variable of another loop is a value of its own"""
        if e.phi_in.get(t) is None:
            return None
        out, seen, st = [], {t}, [t]
        while st:
            for x in e.phi_in.get(st.pop(), ()):
                x = canon(x)
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "phi" and e.phi_in.get(x) is not None and not (cyclic(e, x) and not uses(e, x, t)):
                    st.append(x)
                else:
                    out.append(x)
        return out


_uses = {}


def uses(e, x, t):
    """x is computed from t"""
    k = (id(e), x)
    if k not in _uses:
        seen, st = set(), [x]
        while st:
            y = st.pop()
            ys = e.phi_in.get(y, ()) if y.op == "phi" else children(y)
            for z in ys:
                z = canon(z)
                if z not in seen:
                    seen.add(z)
                    st.append(z)
        _uses[k] = seen
    return t in _uses[k]


def cyclic(e, x):
    return uses(e, x, x)


class Auto:
    pass


def automaton(p, w, tr):
    op = lambda b, f: bool(OPQ.search(b.path if b else f["path"]))
    e = Engine(p, w, opaque=op)
    a = Auto()
    a.w, a.e = w, e
    a.acc = [x for x in e.events if x.kind == "call" and accessor(x.callee, tr)]
    rets = {}
    for x in a.acc:
        rets[x.ret] = x
    a.params = {w.lname(i + 1): e.params[i] for i in range(w.argc)}
    # the callback: a call through Fn* on something of parameter type, with a result of an accessor among its arguments
    def hands(x):
        out = []
        for s in set(subterms(x.args[1])) if len(x.args) > 1 else ():
            if s in rets:
                out.append(s)
        return out

    a.calls = [x for x in e.events if x.kind == "call" and re.search(r"Fn(Mut|Once)?::call(_mut|_once)?$", x.name) and hands(x)]
    a.rets, a.accid, a.calid = rets, set(map(id, a.acc)), set(map(id, a.calls))
    vis = a.accid | a.calid
    # iterator steps that decide about accesses
    nx = [x for x in e.events if x.kind == "call" and re.search(r"::next(_back)?$", x.name)]
    reach = set()
    goal = {x.xn for x in a.acc}
    pred = {}
    for n in e.nodes:
        for y, lab in n.succ:
            pred.setdefault(y, []).append(n)
    st = list(goal)
    while st:
        n = st.pop()
        if n in reach:
            continue
        reach.add(n)
        st += pred.get(n, [])
    a.next = [x for x in nx if x.xn in reach]
    vis |= set(map(id, a.next))
    a.vis = vis
    # steps
    accs = set(x.ret for x in a.acc)

    def ren(t):
        if t in accs:
            return ("ACCESS", t.a[1][1:])
        return (t.a[0], t.a[1])

    a.ren = ren
    a.dom = doms(e)
    a.step = {}
    for x in e.events:
        if id(x) in vis:
            a.step[id(x)] = x
    return a


def doms(e):
    """conditions every path to a node passes"""
    lab = {}
    order = list(e.nodes)
    lab[e.start] = frozenset()
    work = [e.start]
    while work:
        n = work.pop(0)
        for y, l in n.succ:
            s = lab[n]
            if l is not None and isinstance(l[0], Term):
                s = s | {(l[0], l[1] if not isinstance(l[1], list) else tuple(l[1]))}
            o = lab.get(y)
            m = s if o is None else (o & s)
            if m != o:
                lab[y] = m
                work.append(y)
    return lab


def key(a, x):
    """what a step is about, as values"""
    if id(x) in a.accid:
        return "access", tuple(x.args[1:])
    if id(x) in a.calid:
        t = x.args[1]
        first = proj(t, ("f", "0"))
        ac = [s for s in subterms(t) if s in a.rets]
        return "callback", (first,) + tuple(y for s in sorted(set(ac), key=lambda s: s.id)[:1] for y in a.rets[s].args[1:])
    return "next", tuple(x.args)


def classes(a):
    """steps equal as values form one class"""
    E = Eqv(a.e, a.e, None)
    ren = a.ren
    E.ren = ren
    cl = []
    a.cls = {}
    for i, x in a.step.items():
        k, v = key(a, x)
        for c in cl:
            if c[0] == k and len(c[1]) == len(v) and all(E.eq(s, t) for s, t in zip(c[1], v)):
                c[2].append(x)
                a.cls[i] = c
                break
        else:
            c = (k, tuple(v), [x])
            cl.append(c)
            a.cls[i] = c
    a.classes = cl
    # succession
    ed = set()
    idx = {id(c): n for n, c in enumerate(cl)}
    a.idx = idx

    def first(frm):
        evs, _ = q.walk(a.e, frm, lambda x: id(x) in a.vis)
        # stop events themselves are not reported: find them
        return stops(a, frm)

    for y in first(None):
        ed.add(("start", y))
    for i, x in a.step.items():
        for y in first(x):
            ed.add((idx[id(a.cls[i])], y))
    a.edges = ed
    return a


def stops(a, frm):
    out, seen, st = set(), set(), []

    def scan(n, i0):
        for ev in n.events[i0:]:
            if id(ev) in a.vis:
                out.add(a.idx[id(a.cls[id(ev)])])
                return
            if ev.kind == "ret":
                out.add("end")
                return
            if ev.kind == "panic":
                return
        for y, lab in n.succ:
            if y not in seen:
                seen.add(y)
                st.append(y)

    if frm is None:
        seen.add(a.e.start)
        scan(a.e.start, 0)
    else:
        scan(frm.xn, frm.i + 1)
    while st:
        scan(st.pop(), 0)
    return out


def compare(ck, r, a):
    for x in (r, a):
        if not hasattr(x, "classes"):
            classes(x)
    E = Eqv(r.e, a.e, None)
    E.ren = lambda t: r.ren(t) if t in _accs(r) else a.ren(t)
    m = {}
    n1, n2 = r.w.path.split("::")[-1], a.w.path.split("::")[-1]
    used = set()
    for i, c in enumerate(r.classes):
        for j, d in enumerate(a.classes):
            if j not in used and c[0] == d[0] and len(c[1]) == len(d[1]) and all(E.eq(s, t) for s, t in zip(c[1], d[1])):
                m[i] = j
                used.add(j)
                break
        ck.ob(f"step:{n1}:{n2}:{i}", i in m, f"{n1} has a step ({c[0]}) that {n2} does not have: the {say(c)}", q.loc(c[2][0]))
    for j, d in enumerate(a.classes):
        if j not in used:
            ck.ob(f"step:{n2}:{n1}:extra{j}", False, f"{n2} has a step ({d[0]}) that {n1} does not have: the {say(d)}", q.loc(d[2][0]))
    if len(m) != len(r.classes) or len(used) != len(a.classes):
        return
    g = lambda x: m.get(x, x)
    mapped = {(g(x), g(y)) for x, y in r.edges}
    ck.ob(f"order:{n1}:{n2}", mapped == a.edges, f"{n1} and {n2} do not take their steps in the same order or skip different ones: {diff(mapped, a)}", a.w.path)
    # every decision in one is a decision in the other
    x, y = branches(r), branches(a)
    z = [t for t in x if not any(E.eq(t, u) for u in y)]
    ck.ob(f"branches:{n1}:{n2}", not z, f"{n1} decides on something {n2} does not: {pp(z[0])[:120] if z else ''}", r.w.path)
    F = Eqv(a.e, r.e, None)
    F.ren = lambda t: a.ren(t) if t in _accs(a) else r.ren(t)
    z = [u for u in y if not any(F.eq(u, t) for t in x)]
    ck.ob(f"branches:{n2}:{n1}", not z, f"{n2} decides on something {n1} does not: {pp(z[0])[:120] if z else ''}", a.w.path)
    # conditions of the steps
    for i, j in m.items():
        c, d = r.classes[i], a.classes[j]
        if c[0] == "next":
            continue
        x, y = conds(r, c), conds(a, d)
        ok = all(any(lx == ly and E.eq(tx, ty) for ty, ly in y) for tx, lx in x) and all(any(lx == ly and E.eq(tx, ty) for tx, lx in x) for ty, ly in y)
        ck.ob(f"cond:{n1}:{n2}:{i}", ok, f"{n1} and {n2} take the same step under different conditions", q.loc(d[2][0]))


def branches(a):
    """comparisons the walker decides on"""
    out = []
    for n in a.e.nodes:
        for y, lab in n.succ:
            if lab is not None and isinstance(lab[0], Term) and lab[0].op in ("bin", "call", "un") and lab[0] not in out and isinstance(lab[1], bool):
                out.append(lab[0])
    return out


def _accs(a):
    if not hasattr(a, "_acc"):
        a._acc = {x.ret for x in a.acc}
    return a._acc


def diff(m, a):
    d = (m - a.edges) or (a.edges - m)
    if not d:
        return ""
    x, y = sorted(d, key=str)[0]
    nm = lambda z: z if isinstance(z, str) else a.classes[z][0]
    return f"{nm(x)} followed by {nm(y)} in only one of them"


def conds(a, c):
    """conditions common to all occurrences of the step, without the exhaustion of earlier loops"""
    s = None
    for x in c[2]:
        d = a.dom.get(x.xn, frozenset())
        s = d if s is None else s & d
    return [(t, l) for t, l in s or () if l != "None" and t.op != "phi"]


def say(c):
    return pp(c[1][0])[:120] if c[1] else c[0]


def leaves(e, t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and e.phi_in.get(x) is not None:
            st += list(e.phi_in[x])
            continue
        if x.op == "par":
            out.add(x)
        st += list(children(x))
    return out


def provenance(ck, a):
    """every index comes from the example (or is the constant feature's)"""
    names = {v: k for k, v in a.params.items()}
    feats = [v for k, v in a.params.items() if is_feats(a, k)]
    n = 0
    for x in a.acc:
        n += 1
        ls = leaves(a.e, x.args[1])
        const = any(s.op == "call" and str(s.a[0]).endswith("constant_feature_index") for s in subterms(x.args[1]))
        ok = const or any(f in ls for f in feats)
        ck.ob(f"index:{a.w.path.split('::')[-1]}:{n}", ok, "a weight is accessed at an index that comes neither from a feature of the example nor from the constant feature", q.loc(x))


def is_feats(a, k):
    for i in range(a.w.argc):
        if a.w.lname(i + 1) == k:
            return "SparseFeatures" in a.w.lty(i + 1).s
    return False


# ------------------------------------------------------------------ base learners
def learners(ck, p, tr, wp, autos):
    isw = lambda path: path in wp
    op = reds.opaque(p)
    opq = lambda b, f: isw(b.path if b else f["path"]) or (op(b, f) if op else False)
    n = 0
    impl = cfg.trait(p, "ReductionImpl")
    for ty in {i["self_ty"].adt for i in p.impls_of(impl) if i["self_ty"].k == "adt"}:
        ms = [b for b in p.bodies.values() if b.kind == "method" and b.trait == impl and b.self_ty is not None and b.self_ty.adt == ty]
        use = {}
        for b in ms:
            if not reaches(p, b, wp):
                continue
            e = Engine(p, b, opaque=lambda b, f: isw(b.path if b else f["path"]))
            use[b.m] = (e, [x for x in e.events if x.kind == "call" and isw(x.path)])
        if not use:
            continue
        n += 1
        sh = ty.split("::")[-1]
        learner(ck, p, sh, use, autos, tr)
    ck.floor("base learners", n, 1)


def reaches(p, b, wp):
    import checks.c06 as c06

    seen, st = set(), [b]
    kids = q.parents(p)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st += kids.get(x.id, [])
        for f, sp, t in q.callees(p, x):
            if not f:
                continue
            if f["path"] in wp:
                return True
            y = q.body_of(p, f)
            if y is not None and y.crate in p.crates:
                st.append(y)
    return False


def byname(p, x, autos):
    """arguments of a walker call by the walker's parameter names; the callback apart"""
    w = autos[x.path].w
    d, cb = {}, None
    for i in range(w.argc):
        t = x.argtys[i].strip() if i < len(x.argtys) else None
        a = x.args[i]
        r = x.refs[i] if i < len(x.refs) else None
        if t is not None and t.k in ("closure", "fndef"):
            cb = r if isinstance(r, Term) else a
            continue
        d[w.lname(i + 1)] = (a, r)
    return d, cb


def mutable(x):
    return any(t.k == "ref" and t.mut and "eights" in t.s for t in x.argtys)


def learner(ck, p, sh, use, autos, tr):
    ck.ob(f"roles:{sh}:predict", "predict" in use and any(not mutable(x) for x in use.get("predict", (0, []))[1]), "prediction does not read the weights of the example's features", sh)
    ck.ob(f"roles:{sh}:learn", "learn" in use and any(mutable(x) for x in use.get("learn", (0, []))[1]), "an update does not visit the weights of the example's features", sh)
    if "predict" not in use or not use["predict"][1]:
        return
    e0, c0 = use["predict"]
    d0, _ = byname(p, c0[0], autos)
    for m, (e, cs) in sorted(use.items()):
        E = Eq(e0, e)
        for k, x in enumerate(cs):
            d, cb = byname(p, x, autos)
            for nm, (a, r) in d.items():
                if nm not in d0:
                    ck.ob(f"args:{sh}:{m}:{k}:{nm}", False, f"walker parameter {nm} has no counterpart in the prediction's walk", q.loc(x))
                    continue
                a0, r0 = d0[nm]
                ok = E.eq(a0, a) or place(r0) is not None and place(r0) == place(r)
                ck.ob(f"args:{sh}:{m}:{k}:{nm}", ok, f"{m} walks the example with another {nm} than predict does", q.loc(x))
            if cb is not None:
                callback(ck, p, sh, m, k, x, cb, mutable(x))
        # on every path that returns normally the walk has taken place
        miss = q.not_preceded(e, lambda ev: ev.kind == "ret" and ev.ctx.body is e.entry, lambda ev: ev in cs and (mutable(ev) or not any(mutable(y) for y in cs))) if m in ("predict", "learn") else []
        ck.ob(f"always:{sh}:{m}", not miss, f"{m} can return without having walked over the features", q.loc(miss[0]) if miss else "")
        others(ck, p, sh, m, e, cs)


def place(r):
    if r is None or not isinstance(r, Term):
        return None
    if r.op == "ref":
        return (r.a[0], r.a[1])
    return None


def others(ck, p, sh, m, e, cs):
    """nothing else writes to the weights"""
    wfields = set()
    for x in cs:
        for t, r in zip(x.argtys, x.refs):
            if t.k == "ref" and "eights" in t.s and place(r):
                wfields.add(place(r))
    bad = []
    for ev in e.events:
        if ev.kind in ("write", "lwrite", "elem"):
            r = ev.args[0]
            pl = place(r)
            if pl and any(pl[0] == w[0] and tuple(pl[1][: len(w[1])]) == tuple(w[1]) for w in wfields):
                bad.append(ev)
        elif ev.kind == "call" and ev not in cs:
            for t, r in zip(ev.argtys, ev.refs):
                pl = place(r)
                if t.k == "ref" and t.mut and pl and any(pl[0] == w[0] and tuple(pl[1][: len(w[1])]) == tuple(w[1]) for w in wfields):
                    bad.append(ev)
    ck.ob(f"only:{sh}:{m}", not bad, "weights are changed other than through the walk over the example's features", q.loc(bad[0]) if bad else "")


def callback(ck, p, sh, m, k, x, cb, mut):
    b = p.bodies.get(cb.a[0]) if cb.op == "clo" else None
    if b is None:
        ck.ob(f"callback:{sh}:{m}:{k}", False, f"callback of the walk not found ({pp(cb)[:80]})", q.loc(x))
        return
    e = Engine(p, b)
    # the state parameter is the last one
    st = e.params[-1]

    def hit(ev):
        if ev.kind not in ("write", "lwrite", "elem"):
            return False
        if not mut:
            return True
        pl = place(ev.args[0])
        return pl is not None and pl[0] == ("M", st) and len(pl[1]) > 0 and zero_elem(pl[1])

    def skip(lab):
        t, v = lab
        if mut or t.op != "bin" or t.a[0] not in ("Eq", "Ne"):
            return False
        z = [y for y in t.a[1:] if y.op == "k" and y.a[0] in ZERO]
        return bool(z) and (v is True) == (t.a[0] == "Eq")

    miss = q.not_preceded(e, lambda ev: ev.kind == "ret" and ev.ctx.body is e.entry, hit, skip)
    what = "leaves the weight of a visited feature as it was on some path" if mut else "leaves out a visited feature on some path"
    ck.ob(f"callback:{sh}:{m}:{k}", not miss, f"the callback of the walk in {m} {what}", f"{b.path} ({b.bb[0].get('sp', '')})")


def zero_elem(path):
    return path[0][0] == "idx" and (path[0][1] == 0 or isinstance(path[0][1], Term) and path[0][1].op == "k" and path[0][1].a[0] == 0)
