"""Every method of every reduction, of the wrapper and of the workspace that is lent features is explored with the feature
primitives interpreted algebraically: merging S into X yields merged(X, S); taking S out of merged(X, S) yields X, out of
anything else an unknown value; setting / removing a namespace yields an override map over X, whose entries vanish when the
original entry is put back (removal forks on whether the namespace was there; a generated namespace is absent beforehand).
Rule 1: at every return the value of every location reachable from the lent features is the value at entry.  Any other
mutation of lent features leaves an unequal value.  Rule 2: the merge and unmerge primitives are inverses: the same iteration
over the other features, the same guards, the same per-namespace vectors extended by the other's vectors and truncated by
their lengths.  Rule 3: the set and remove primitives are exactly one map insertion / removal under the given name."""
import re
import q, reds
from engine import Engine, Event, Call, Agg, mk, pp, proj, setp, subterms, contains, strip_generics, K, Term

TAGS = ["rel"]
FRESH = "RawHash"
SHRINK = re.compile(r"::(truncate|drain|split_off|pop|resize|clear|retain|set_len|remove)$")
GROW = re.compile(r"::(push|extend|extend_from_slice|append|insert|extend_from_within)$")


def classify(p):
    """merge primitives -> 'in' / 'out'"""
    out = {}
    for path in reds.merge_fns(p):
        b = p.by_path[path]
        e = q.run(p, b)
        # container emptied by what it removes is not growth: map insertion of an empty entry is not a feature
        g = any(x.kind == "call" and GROW.search(strip_generics(x.path or x.name)) and is_vec(x) for x in e.events)
        s = any(x.kind == "call" and SHRINK.search(strip_generics(x.path or x.name)) and is_vec(x) for x in e.events)
        out[path] = "in" if g and not s else ("out" if s and not g else "?")
    return out


def is_vec(x):
    return bool(re.search(r"\b(Vec|SmallVec|slice)\b|Extend::", x.name + " " + (x.path or "")))


# ---------------------------------------------------------------- models of the primitives
def norm(t):
    if t.op == "nsmap" and not t.a[1]:
        return t.a[0]
    return t


def nsget(t, k):
    """override entry for key k or None"""
    if t.op == "nsmap":
        for kk, v in t.a[1]:
            if kk is k:
                return v
    return None


def nswith(t, k, v):
    base, ents = (t.a[0], dict(t.a[1])) if t.op == "nsmap" else (t, {})
    if v is None:
        ents.pop(k, None)
    else:
        ents[k] = v
    if not ents:
        return base
    return mk("nsmap", base, tuple(sorted(ents.items(), key=lambda x: pp(x[0]))))


DEL = mk("nsdel")


def some(v):
    return Agg("core::option::Option", "Some", ["0"], [v])


NONE = Agg("core::option::Option", "None", [], [])


def event(ex, t, f, args, name):
    ev = Event("call", name, path=f["path"], args=tuple(ex.snap(a) for a in args), refs=tuple(args), span=ex.span, ctx=ex.ctx, callee=f)
    ex.events.append(ev)


def wr(ex, ptr, val):
    r, p = ex.target(ptr)
    if p:
        base = ex.read(r)
        ex.st[r] = simplify(setp(base, p, val))
    else:
        ex.st[r] = val


def simplify(t):
    """drop updates that store what is already there"""
    if t.op == "upd":
        b = simplify(t.a[0])
        if proj(b, t.a[1]) is t.a[2]:
            return b
        return mk("upd", b, t.a[1], t.a[2])
    return t


def m_in(ex, t, f, args):
    event(ex, t, f, args, "features.merge")
    x = ex.read(*ex.target(args[0]))
    wr(ex, args[0], mk("merged", x, ex.snap(args[1])))
    return ex.finish(t, mk("tup", ()))


def m_out(ex, t, f, args):
    event(ex, t, f, args, "features.unmerge")
    x = ex.read(*ex.target(args[0]))
    s = ex.snap(args[1])
    if x.op == "merged" and x.a[1] is s:
        wr(ex, args[0], x.a[0])
    else:
        wr(ex, args[0], mk("unmerged", x, s))
    return ex.finish(t, mk("tup", ()))


def m_set(ex, t, f, args):
    event(ex, t, f, args, "features.set_namespace")
    x = ex.read(*ex.target(args[0]))
    k = ex.snap(args[1])
    v = args[2]
    base = x.a[0] if x.op == "nsmap" else x
    if v.op == "nsval" and v.a[0] is base and v.a[1] is k:
        wr(ex, args[0], nswith(x, k, None))
    else:
        wr(ex, args[0], nswith(x, k, mk("put", v)))
    return ex.finish(t, mk("tup", ()))


def fresh(k):
    return k.op == "agg" and k.a[1] == FRESH


def m_del(ex, t, f, args):
    event(ex, t, f, args, "features.remove_namespace")
    x = ex.read(*ex.target(args[0]))
    k = ex.snap(args[1])
    o = nsget(x, k)
    if o is not None and o is not DEL:
        # put earlier in this call
        wr(ex, args[0], nswith(x, k, None if fresh(k) else DEL))
        return ex.finish(t, some(o.a[0]))
    if o is DEL or fresh(k):
        return ex.finish(t, NONE)
    base = x.a[0] if x.op == "nsmap" else x
    outs = []
    st0, fa0 = ex.st, ex.fa
    for v in (NONE, some(mk("nsval", base, k))):
        ex.st, ex.fa = dict(st0), dict(fa0)
        if v is not NONE:
            wr(ex, args[0], nswith(x, k, DEL))
        d = mk("discr", mk("nspresent", base, k), "core::option::Option")
        lab = (d, "Some" if v is not NONE else "None")
        outs += ex.finish(t, v, lab)
    return outs


def primitives(p):
    """set / remove primitives: methods of the features type taking a namespace and mutating self"""
    out = {}
    for b in p.bodies.values():
        if b.kind != "method" or b.trait or b.self_ty is None or b.self_ty.k != "adt" or not b.self_ty.adt.endswith("::SparseFeatures"):
            continue
        if b.argc < 2 or b.lty(1).k != "ref" or not b.lty(1).mut:
            continue
        if not b.lty(2).isadt("reductionml_core::sparse_namespaced_features::Namespace"):
            continue
        rt = b.lty(0)
        if b.argc == 3 and b.lty(3).k == "adt" and b.lty(3).adt.endswith("::SparseFeaturesNamespace"):
            out[b.path] = "set"
        elif b.argc == 2 and rt.k == "adt" and rt.adt.endswith("Option") and rt.a[0].k == "adt" and rt.a[0].adt.endswith("::SparseFeaturesNamespace"):
            out[b.path] = "del"
    return out


def explore(p, b, adt, cls, prims, wrapper=False, init=None, corr=True):
    its = reds.impl_types(p)
    models = dict(reds.impl_models(p) if wrapper else reds.child_models(p))
    for path, c in cls.items():
        models[strip_generics(path)] = m_in if c == "in" else m_out
    for path, c in prims.items():
        models[strip_generics(path)] = m_set if c == "set" else m_del

    def devirt(ex, f, args):
        if adt and f.get("trait") == reds.IMPL and not f.get("r") and args:
            return its[adt].get(f["m"])
        return None

    return Engine(p, b, opaque=reds.opaque(p), models=models, devirt=devirt, init=init, corr=corr)


def derives(t, x0):
    """is pointer t reached from x0 (through fields, elements and receivers, not through indices)?"""
    while True:
        if t is x0:
            return True
        if t.op in ("f", "vf", "idx", "sub", "prj", "upd", "post", "wupd", "deref"):
            t = t.a[0]
        elif t.op == "call" and t.a[1]:
            t = t.a[1][0]
        elif t.op == "ref":
            if t.a[0][0] != "M":
                return False
            t = t.a[0][1]
        elif t.op == "phi":
            return contains(t, x0)
        else:
            return False


def variants(p, b, k):
    """initial contents of the lent parameter: one per variant of the features type"""
    t = b.lty(k + 1)
    nm = b.lname(k + 1)
    if t.k != "ref" or not t.mut or not t.a[0].isadt(FEATURES):
        yield "", None
        return
    for v in p.adts[FEATURES]["vs"]:
        yield v["n"], {nm: lambda x, v=v: Agg(FEATURES, v["n"], [f["n"] for f in v["f"]], [mk("vf", x, v["n"], f["n"]) for f in v["f"]])}


FEATURES = "reductionml_core::types::Features"


def check_all(ck, p, key, b, adt, cls, prims, wrapper=False):
    k = reds.param_of(b, "Features")
    ret = 0
    es = []
    for v, init in variants(p, b, k):
        for corr in (False, True):
            # cheap exploration first; conditions tested repeatedly are kept apart only when that is needed
            e = explore(p, b, adt, cls, prims, wrapper, init, corr)
            e.init0 = {("M", e.params[k]): f(e.params[k]) for f in (init or {}).values()}
            res = check_fn(e, k)
            if not any(bad for _, bad in res):
                break
        for r, bad in res:
            msg = "; ".join(f"{pp(a)[:160]} is left as {pp(v)[:260]}" for a, v in bad[:2])
            ck.ob(key, not bad, f"{msg} when {b.path} returns", q.loc(r))
        ret += len(res)
        es.append(e)
    ck.ob(key + ":returns", ret > 0, f"{b.path} never returns normally")
    return es


def check_fn(e, idx):
    """[(return event, [(location, value left behind)])]"""
    x0 = e.params[idx]
    out = []
    for r in [x for x in e.events if x.kind == "ret"]:
        bad = []
        for root, v in r.mem.items():
            if root[0] != "M" or not derives(root[1], x0):
                continue
            v = simplify(v)
            if v is not root[1] and v is not e.init0.get(root):
                bad.append((root[1], v))
        out.append((r, bad))
    return out


# ---------------------------------------------------------------- inverse primitives
def strip_nonce(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "call":
        r = mk("call", t.a[0], tuple(strip_nonce(x, memo) for x in t.a[1]), None)
    elif t.op == "phi":
        r = mk("loc", tuple(_sn(x, memo) for x in t.a[1]))
    else:
        r = mk(t.op, *[_sn(x, memo) for x in t.a])
    memo[t] = r
    return r


def _sn(x, memo):
    if isinstance(x, Term):
        return strip_nonce(x, memo)
    if isinstance(x, tuple):
        return tuple(_sn(y, memo) for y in x)
    return x


def guards(e, ev):
    """conditions every path to ev must satisfy, whose other outcome can still return"""
    conds = set()
    for x in e.nodes:
        for y, lab in x.succ:
            if lab is not None and isinstance(lab[0], Term):
                conds.add(lab)
    out = set()
    for c, v in conds:
        # removing the edges with this outcome makes ev unreachable
        if ev in q.walk(e, None, None, lambda l: l[0] is c and l[1] == v)[0]:
            continue
        others = [y for x in e.nodes for y, lab in x.succ if lab is not None and lab[0] is c and lab[1] != v]
        if others and not any(reach_ret(e, y) for y in others):
            continue
        out.add((c, v))
    return out


def reach_ret(e, n):
    seen = {n}
    st = [n]
    while st:
        x = st.pop()
        if any(ev.kind == "ret" for ev in x.events):
            return True
        for y, _ in x.succ:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return False


def last_field(ref):
    """(container pointer path, field) of a reference to a vector inside a container"""
    if ref.op == "ref" and ref.a[1] and ref.a[1][-1][0] == "f":
        return (ref.a[0], ref.a[1][:-1]), ref.a[1][-1][1]
    return None, None


def inverse(ck, p, pin, pout):
    ei, eo = q.run(p, p.by_path[pin]), q.run(p, p.by_path[pout])
    other_i, other_o = ei.params[1], eo.params[1]
    S = {}
    ins = {}
    for x in ei.events:
        if x.kind == "call" and x.refs and is_vec(x) and GROW.search(strip_generics(x.path or x.name)):
            c, f = last_field(x.refs[0])
            if f is None:
                continue
            src = strip_nonce(x.args[1])
            ins.setdefault(f, []).append((x, src))
    outs = {}
    for x in eo.events:
        if x.kind == "call" and x.refs and is_vec(x) and SHRINK.search(strip_generics(x.path or x.name)):
            c, f = last_field(x.refs[0])
            if f is None:
                continue
            outs.setdefault(f, []).append((x, strip_nonce(x.args[1]) if len(x.args) > 1 else None))
    ck.ob("inverse:vectors", set(ins) == set(outs) and len(ins) >= 2, f"merging extends {sorted(ins)} and unmerging cuts {sorted(outs)} of a namespace")
    elems = set()
    gi, go = {}, {}
    oi = mk("par", other_i.a[0])

    def canon_other(t, par):
        return strip_nonce(replace(t, par, mk("par", "OTHER")))

    for f, xs in ins.items():
        ck.ob(f"inverse:{f}:once", len(xs) == 1, f"{pin} extends {f} in {len(xs)} places", q.loc(xs[0][0]))
        x, src = xs[0]
        s = canon_other(x.args[1], other_i)
        while s.op == "call" and s.a[0] in ("iter", "Iterator::copied", "Iterator::cloned") and s.a[1]:
            s = s.a[1][0]
        ok = s.op == "f" and s.a[1] == f
        ck.ob(f"inverse:{f}:source", ok, f"{pin} extends {f} with {pp(s)[:200]}, not with the same vector of the other features", q.loc(x))
        if ok:
            elems.add(s.a[0])
        gi[f] = {(canon_other(c, other_i), v) for c, v in guards(ei, x)}
        for c, v in gi[f]:
            ck.ob(f"inverse:{f}:guard", not any(y is ei.params[0] for y in subterms(c)), f"{pin} extends {f} depending on the receiving features: {pp(c)[:200]}", q.loc(x))
    ck.ob("inverse:element", len(elems) == 1, "the vectors of a namespace are extended from different namespaces: " + "; ".join(pp(x)[:150] for x in elems))
    for f, xs in outs.items():
        ck.ob(f"inverse:{f}:cut-once", len(xs) == 1, f"{pout} cuts {f} in {len(xs)} places", q.loc(xs[0][0]))
        x, arg = xs[0]
        a = canon_other(x.args[1], other_o) if len(x.args) > 1 else mk("undef")
        if a.op == "call" and a.a[0] == "num::saturating_sub":
            a = mk("bin", "Sub", a.a[1][0], a.a[1][1])
        ok = a.op == "bin" and a.a[0] == "Sub" and a.a[1].op == "len" and a.a[2].op == "len" and x.name.endswith("truncate")
        if ok:
            big, small = a.a[1].a[0], a.a[2].a[0]
            ok = small.op == "f" and small.a[1] in ins and small.a[0] in elems
            own = big.op == "f" and big.a[1] in ins and not any(y.op == "post" and y.a[0].op == "call" and SHRINK.search("::" + y.a[0].a[0].split("::")[-1]) for y in subterms(big))
            ok = ok and own
        ck.ob(f"inverse:{f}:length", ok, f"{pout} cuts {f} to {pp(a)[:300]}; expected its own length minus the length merged in", q.loc(x))
        go[f] = {(canon_other(c, other_o), v) for c, v in guards(eo, x)}
        go[f] = {(c, v) for c, v in go[f] if not any(y.op == "par" and y.a[0] == eo.params[0].a[0] for y in subterms(c))}
        if f in gi:
            ck.ob(f"inverse:{f}:guards", gi[f] == go[f], f"{f} is merged under {[(pp(c)[:120], v) for c, v in gi[f]]} but unmerged under {[(pp(c)[:120], v) for c, v in go[f]]}", q.loc(x))
    # complete iteration on both sides
    for e, pth in ((ei, pin), (eo, pout)):
        evs, _ = q.walk(e, None, None, lambda l: l[0].op == "discr" and l[0].a[0].op == "call" and l[0].a[0].a[0] in ("next", "next_back") and l[1] == "None")
        ck.ob(f"inverse:{pth.split('::')[-1]}:all", not any(x.kind == "ret" for x in evs), f"{pth} can return before it has visited every namespace")
    # a namespace is switched off by unmerging only when nothing is left in it, and never by merging
    for e, pth in ((ei, pin), (eo, pout)):
        for w in e.events:
            if w.kind != "write" or w.args[1] is not mk("k", False, "b"):
                continue
            t = w.args[0]
            g = guards(e, w)
            ok = any(
                (c.op == "bin" and c.a[0] == "Eq" and v is True and c.a[1].op == "len" and c.a[2] is K(0) and own_vec(c.a[1].a[0], e.params[0], outs))
                for c, v in g
            )
            ck.ob(f"inverse:{pth.split('::')[-1]}:switch-off", ok, f"{pth} switches a namespace off without having found it empty", q.loc(w))
    # where the container comes from: keyed by the namespace of the element
    for e, pth, d in ((ei, pin, ins), (eo, pout, outs)):
        par = e.params[1]
        for f, xs in d.items():
            c, _ = last_field(xs[0][0].refs[0])
            base = c[0][1] if c[0][0] == "M" else mk("undef")
            base = canon_other(base, par)
            keyok = any(y.op == "call" and re.search(r"entry|get_mut|get$|index_mut", y.a[0]) and len(y.a[1]) > 1 and key_of(y.a[1][1], elems) for y in subterms(base))
            ck.ob(f"inverse:{pth.split('::')[-1]}:{f}:container", keyok, f"{pth}: the container of {f} is {pp(base)[:250]}, which is not looked up by the namespace being merged", q.loc(xs[0][0]))


def own_vec(t, self_par, fields):
    """one of the vectors of the receiving namespace, as it is or after being cut"""
    while t.op == "post" and t.a[1] == 0 and t.a[0].op == "call":
        t = t.a[0].a[1][0]
    return t.op == "f" and t.a[1] in fields and contains(t, self_par) or (t.op == "f" and t.a[1] in fields and any(y.op == "phi" for y in subterms(t)))


def key_of(k, elems):
    """k is the key belonging to (or stored in) the element"""
    for el in elems:
        if el.op == "f":
            if k.op == "f" and k.a[0] is el.a[0]:
                return True
        if k.op == "f" and k.a[0] is el:
            return True
    return False


def replace(t, a, b, memo=None):
    memo = {} if memo is None else memo
    if t is a:
        return b
    r = memo.get(t)
    if r is not None:
        return r
    r = mk(t.op, *[_rp(x, a, b, memo) for x in t.a])
    memo[t] = r
    return r


def _rp(x, a, b, memo):
    if isinstance(x, Term):
        return replace(x, a, b, memo)
    if isinstance(x, tuple):
        return tuple(_rp(y, a, b, memo) for y in x)
    return x


def run(ck):
    p = ck.prog()
    cls = classify(p)
    for path, c in cls.items():
        ck.ob(f"primitive:{path.split('::')[-1]}", c in ("in", "out"), f"{path} both adds to and removes from the features")
    ins = [x for x, c in cls.items() if c == "in"]
    outs = [x for x, c in cls.items() if c == "out"]
    ck.floor("merge primitives", len(ins), 1)
    ck.floor("unmerge primitives", len(outs), 1)
    if len(ins) == 1 and len(outs) == 1:
        inverse(ck, p, ins[0], outs[0])
    prims = primitives(p)
    ck.floor("set/remove primitives", len(prims), 2)
    for path, c in sorted(prims.items()):
        b = p.by_path[path]
        e = q.run(p, b)
        muts = [x for x in e.events if x.kind == "call" and re.search(r"(BTreeMap|HashMap)::", x.name) and x.refs and x.refs[0].op == "ref" and contains(x.refs[0].a[0][1], e.params[0])]
        want = "insert" if c == "set" else "remove"
        ok = len(muts) == 1 and muts[0].name.endswith("::" + want) and q.not_preceded(e, lambda y: y.kind == "ret", lambda y: y is muts[0]) == []
        if ok:
            a = muts[0].args
            ok = a[1] is e.params[1] and (c == "del" or a[2] is e.params[2])
            if c == "del":
                ok = ok and all(r.args[0] is muts[0].ret for r in e.events if r.kind == "ret")
        ck.ob(f"primitive:{path.split('::')[-1]}:exact", ok, f"{path} is not exactly one {want} of the given namespace ({[(x.name, [pp(a)[:60] for a in x.args]) for x in muts]})", path)
    # reductions
    n = 0
    for adt, ms in sorted(reds.impl_types(p).items()):
        name = adt.split("::")[-1]
        for m in reds.METHODS + ("sensitivity",):
            b = ms.get(m)
            if b is None:
                continue
            k = reds.param_of(b, "Features")
            if k is None:
                continue
            n += 1
            check_all(ck, p, f"{name}:{m}", b, adt, cls, prims)
    ck.floor("reduction methods", n, 24)
    w = 0
    for path, m in sorted(reds.wrapper_methods(p).items()):
        b = p.by_path[path]
        k = reds.param_of(b, "Features")
        w += 1
        for e in check_all(ck, p, f"wrapper:{m}", b, None, cls, prims, True):
            for c in e.events:
                if c.kind == "call" and c.name == "impl." + m:
                    x0 = e.params[k]
                    ok = any(r is x0 or (a is e.init0.get(("M", x0)) and r.op == "ref" and r.a[0] == ("M", x0)) for r, a in zip(c.refs, c.args))
                    ck.ob(f"wrapper:{m}:passes", ok, f"{path} hands other features to the reduction", q.loc(c))
    ck.floor("wrapper methods", w, 4)
    w = 0
    for b in p.bodies.values():
        if b.kind == "method" and not b.trait and b.self_ty is not None and b.self_ty.isadt("reductionml_core::workspace::Workspace"):
            k = reds.param_of(b, "Features")
            if k is None:
                continue
            w += 1
            check_all(ck, p, f"workspace:{b.path.split('::')[-1]}", b, None, cls, prims)
    ck.floor("workspace methods", w, 3)
