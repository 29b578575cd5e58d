"""Coverage: for every type a saved model contains (everything reachable from the workspace, every reduction and loss function
implementation), the serialiser writes each field unconditionally under one key and the deserialiser puts the value of that same
key, unaltered, into that same field; enum variants are written and read under the same names; a field that is skipped may not
be read by anything prediction or update can call.  Sparse weights: what the skipping writer leaves out is exactly the zeros, the
reader starts from as many zeros as the writer recorded and stores each value at its own index.  The exported form visits every
(feature, model) pair inside the table, leaves out a feature only when all its values are zero, and the importer copies each state
to the position it came from.  The rewriting of nested weights in the exported JSON recognises exactly the objects that are
weights, descends everywhere else and drops no error.  Saving and loading functions and commands return and write exactly the
(de)serialised argument."""
import re
import q, reds, serde_tab, cfg, tab
from engine import Engine, Agg, K, mk, pp, subterms, Term
from tab import rets, alts
import checks.c06 as c06
import checks.c07 as c07

CORE = re.compile(r"^<?reductionml_core::")


def run(ck):
    p = ck.prog()
    skipped = tables(ck, p)
    unread(ck, p, skipped)
    dw = next((a for a in p.adts if a.endswith("::DenseWeights")), None)
    if ck.anchor("weight storage", dw):
        weights(ck, p, dw)
    entry(ck, p)
    commands(ck, p)


# ------------------------------------------------------------------ tables
def roots(p):
    out = [a for a in p.adts if a.endswith("::workspace::Workspace")]
    for t in (reds.IMPL, cfg.trait(p, "LossFunctionImpl")):
        out += [i["self_ty"].adt for i in p.impls_of(t) if i["self_ty"].k == "adt"]
    return sorted(set(out))


def tables(ck, p):
    seen, st = set(), roots(p)
    skipped = set()
    n = nf = 0
    while st:
        a = st.pop()
        if a in seen or a not in p.adts or a.split("::")[0] not in p.crates and not CORE.match(a):
            continue
        seen.add(a)
        skip = one(ck, p, a)
        if skip is None:
            skip = []
        n += 1
        for v in p.adts[a]["vs"]:
            for f in v["f"]:
                nf += 1
                if f["n"] in skip:
                    skipped.add((a, f["n"]))
                    continue
                st += list(serde_tab.adts_in(p.adts[a]["types"][f["t"]]))
        # the sparse form a field is written as is part of the model too
        st += [x for x in wrapper_types(p, a)]
    ck.floor("types in a saved model", n, 28)
    ck.count("fields of types in a saved model", nf)
    return skipped


def wrapper_types(p, a):
    T = serde_tab.de_struct(p, a)
    out = []
    if T:
        for f, (ty, x) in T.reads.items():
            if str(ty).endswith("__DeserializeWith"):
                b = serde_tab.impl_for(p, serde_tab.DE, ty)
                if b is not None:
                    for y in c06.reach(p, b):
                        for fn, sp, t in q.callees(p, y):
                            if fn and re.search(r"Deserialize::deserialize$", fn["path"]):
                                for i in fn.get("a") or ():
                                    t = y.types[i] if isinstance(i, int) else None
                                    if t is not None and t.k == "adt" and t.adt in p.adts:
                                        out.append(t.adt)
    return out


def one(ck, p, a):
    """fields of a that are left out of the saved form"""
    nm = a.split("::")[-1]
    T = serde_tab.de_struct(p, a)
    E = serde_tab.de_enum(p, a) if T is None else None
    S = serde_tab.ser(p, a)
    flds = [f["n"] for v in p.adts[a]["vs"] for f in v["f"]]
    if T is not None:
        for x in T.problems:
            ck.bad(f"{nm}:table", x)
        if not ck.ob(f"{nm}:serialiser", S is not None and S[0] == "struct", f"{a} has no struct serialiser"):
            return []
        for f in flds:
            if f in T.skipped and not [k for k, x in S[1].items() if field_of(x) == f]:
                continue
            k = [k for k, g in T.keys.items() if g == f]
            w = [kk for kk, x in S[1].items() if field_of(x) == f]
            ck.ob(f"{nm}.{f}:written", len(w) == 1, f"{a}.{f} is part of the model but is saved under {w}")
            ck.ob(f"{nm}.{f}:same-key", len(w) == 1 and w[0] in k, f"{a}.{f} is saved under {w} but restored from {k}")
            ck.ob(f"{nm}.{f}:always", not (set(w) & set(S[2])), f"{a}.{f} is saved only sometimes")
            if f in T.reads:
                ty, x = T.reads[f]
                ok = c07.given(p, ty, x)
                if not ok and str(ty).endswith("__DeserializeWith"):
                    ok = True  # decided as a pair below
                    pair(ck, p, a, f, ty, [S[1][kk] for kk in w], S[3])
                ck.ob(f"{nm}.{f}:as-saved", ok, f"{a}.{f} is not restored to the saved value but to {pp(x)[:160]}")
                wx = [S[1][kk] for kk in w]
                if wx and not str(ty).endswith("__DeserializeWith"):
                    ck.ob(f"{nm}.{f}:as-is", cfg.field_written(wx[0]) == f and wx[0].op != "agg", f"{a}.{f} is not saved as it is but as {pp(wx[0])[:160]}")
        extra = [k for k, x in S[1].items() if field_of(x) is None]
        ck.ob(f"{nm}:only-fields", not extra, f"{a} saves something other than its fields under {extra}")
        return [f for f in T.skipped]
    if E is not None:
        ok = S is not None and S[0] == "enum"
        ck.ob(f"{nm}:serialiser", ok, f"{a} has no enum serialiser")
        if ok:
            back = {v: k for k, v in E[0].items()}
            for v in p.adts[a]["vs"]:
                ck.ob(f"{nm}::{v['n']}", S[1].get(v["n"]) is not None and E[0].get(S[1][v["n"]]) == v["n"], f"{a}::{v['n']} is saved as {S[1].get(v['n'])}, which is restored as {E[0].get(S[1].get(v['n']))}")
                ck.ob(f"{nm}::{v['n']}:payload", len(v["f"]) <= 1, f"the order of the contents of {a}::{v['n']} is not decided")
        return []
    # newtypes and single-field tuple types
    if serde_tab.impl_for(p, serde_tab.DE, a) is None and S is None:
        if a.endswith("ReductionWrapper"):
            return []
        return external(ck, p, a, nm)
    newtype(ck, p, a, nm)
    return []


def external(ck, p, a, nm):
    # only trait objects are saved through their tag
    ck.bad(f"{nm}:not-saved", f"{a} is part of the model but can be neither saved nor loaded")
    return []


def field_of(x):
    f = cfg.field_written(x)
    if f is None and x.op == "agg" and x.a[0].endswith("__SerializeWith"):
        fs = {s.a[1] for s in subterms(x) if s.op == "f" and s.a[0].op in ("par",)} | {s.a[1] for s in subterms(x) if s.op == "f" and pp(s.a[0]) == "self"}
        if len(fs) == 1:
            return fs.pop()
    return f


def newtype(ck, p, a, nm):
    b = serde_tab.impl_for(p, serde_tab.SER, a)
    d = serde_tab.impl_for(p, serde_tab.DE, a)
    fs = [f["n"] for v in p.adts[a]["vs"] for f in v["f"]]
    if not ck.ob(f"{nm}:newtype", b is not None and d is not None and fs == ["0"], f"{a} is part of the model but its saved form is not decided"):
        return
    e = Engine(p, b, corr=False)
    w = [x for x in e.events if x.kind == "call" and re.search(r"serialize(_\w+)?$", x.name)]
    ok = bool(w) and all(any(s.op == "f" and s.a[1] == "0" and pp(s.a[0]) == "self" for y in x.args for s in subterms(y)) for x in w)
    plain = all(any(y.op == "f" and y.a[1] == "0" for y in x.args) for x in w)
    ck.ob(f"{nm}.0:written", ok and plain, f"{a} is not saved as its contents")
    vs = [m for m in ("visit_newtype_struct", "visit_seq")]
    vb = serde_tab.visitor(p, a, "visit_newtype_struct")
    if vb is None:
        e = Engine(p, d, corr=False)
        good = all(restored(e, t) for r, t in rets(e) if ok_of(t) is not None)
        ck.ob(f"{nm}.0:restored", good and any(ok_of(t) is not None for r, t in rets(e)), f"{a} is not restored to what was saved")
        return
    e = Engine(p, vb, models={"Try::branch": serde_tab.m_branch}, corr=False)
    oks = [ok_of(t) for r, t in rets(e) if ok_of(t) is not None]
    ck.ob(f"{nm}.0:restored", bool(oks) and all(restored(e, t) for t in oks), f"{a} is not restored to what was saved: {[pp(x)[:80] for x in oks]}")


def ok_of(t):
    if t.op == "agg" and t.a[1] == "Ok":
        return t.a[3][0]
    if t.op == "call" and not t.a[0].endswith("from_residual"):
        return t
    return None


def restored(e, t):
    """t is the newtype around exactly what was deserialised"""
    t = alts(e, t)
    if len(t) != 1:
        return False
    t = t[0]
    if t.op == "agg" and len(t.a[3]) == 1:
        t = t.a[3][0]
    while t.op in ("vf", "f"):
        t = t.a[0]
        if t.op == "call" and t.a[0].endswith("Try::branch"):
            t = t.a[1][0]
    return t.op == "call" and re.search(r"deserialize(_\w+)?$", t.a[0]) is not None


def pair(ck, p, a, f, ty, ws, e):
    """a field with its own writer and reader: they must be the two halves of one conversion that loses nothing"""
    nm = f"{a.split('::')[-1]}.{f}"
    d = serde_tab.impl_for(p, serde_tab.DE, ty)
    if not ck.ob(f"{nm}:reader", d is not None, f"the reader of {a}.{f} was not found"):
        return
    isw = len(ws) == 1 and ws[0].op == "agg" and ws[0].a[0].endswith("__SerializeWith")
    if not ck.ob(f"{nm}:writer", isw, f"{a}.{f} has a reader of its own but no writer of its own"):
        return
    s = serde_tab.impl_for(p, serde_tab.SER, ws[0].a[0])
    if not ck.ob(f"{nm}:writer-found", s is not None, f"the writer of {a}.{f} was not found"):
        return
    sparse(ck, p, nm, s, d)


# ------------------------------------------------------------------ sparse vectors
NZ = re.compile(r"^(Eq|Ne)$")


def iszero(t):
    return t.op == "k" and (t.a[0] == ("f", "0.0") or t.a[0] == ("f", "0") or t.a[0] == 0)


def zero_edge(lab, elem=None):
    """True: this edge establishes that a value is zero; False: that it is not; None: neither"""
    c, v = lab
    if not isinstance(c, Term):
        return None
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    if c.op == "bin" and NZ.match(c.a[0]) and (iszero(c.a[1]) or iszero(c.a[2])):
        o = c.a[2] if iszero(c.a[1]) else c.a[1]
        if elem is not None and not any(s is elem for s in subterms(o)):
            return None
        return ((c.a[0] == "Eq") == bool(v)) != neg
    return None


def nexts(e):
    return [x for x in e.events if x.kind == "call" and x.name.endswith("Iterator::next") and x.ret is not None]


def nxt(t):
    """the Some payload of a next call, as term"""
    return mk("vf", t, "Some", "0")


def is_next_edge(lab, t, which):
    c, v = lab
    return isinstance(c, Term) and c.op == "discr" and c.a[0] is t and v == which


def sparse(ck, p, nm, s, d):
    # writer: explored down to the intermediate struct
    e = Engine(p, s, corr=False)
    top = [x for x in e.events if x.kind == "call" and x.name.endswith("serialize_struct")]
    w = {}
    for x in e.events:
        if x.kind == "call" and x.name.endswith("serialize_field") and x.args[1].op == "k":
            w[x.args[1].a[0]] = x
    ck.ob(f"{nm}:sparse-form", len(top) == 1 and len(w) == 2, f"the saved form of {nm} is not the pair of a length and the non-zero values")
    if len(w) != 2:
        return
    src = None
    lens = {}
    pairs = {}
    for k, x in w.items():
        v = x.args[2]
        c = v
        c = plain(c)
        if c.op in ("len",) or c.op == "call" and c.a[0].endswith("len"):
            lens[k] = c
        else:
            pairs[k] = v
    if not ck.ob(f"{nm}:sparse-keys", len(lens) == 1 and len(pairs) == 1, f"the saved form of {nm} has no recorded length: {[pp(x.args[2])[:60] for x in w.values()]}"):
        return
    lk, pk = list(lens)[0], list(pairs)[0]
    base = lens[lk].a[1][0] if lens[lk].op == "call" else lens[lk].a[0]
    # the vector itself
    ck.ob(f"{nm}:sparse-source", pp(base).startswith("self") and any(y.op == "f" for y in subterms(base)), f"the recorded length of {nm} is that of {pp(base)[:80]}")
    ns = [x for x in nexts(e) if iter_of(x) is not None and (iter_of(x) is base or pp(iter_of(x)) == pp(base) or rng_over(x, base))]
    if not ck.ob(f"{nm}:sparse-loop", len(ns) >= 1, f"the values saved of {nm} do not come from one pass over it"):
        return
    pushed = [y for y in c06.deep(e, pairs[pk]) if y.op == "call" and y.a[0] == "push" or y.op == "push"]
    ck.count("sparse pushes", len(pushed))
    for n in ns:
        el = nxt(n.ret)
        ok = bool(pushed)
        for y in pushed:
            args = y.a[1] if y.op == "call" else y.a
            val = args[1]
            if not (val.op == "tup" or val.op == "agg"):
                ok = False
                continue
            xs = val.a[0] if val.op == "tup" else val.a[3]
            ok = ok and len(xs) == 2 and index_of(e, xs[0], n, [m for m in e.nodes if any(z.kind in ("call", "elem") and z.name.endswith("push") and z.args[-1] is val for z in m.events)]) and value_of(xs[1], n, base)
        ck.ob(f"{nm}:sparse-pairs", ok, f"the values of {nm} are not saved with their own positions: {[pp(y)[:140] for y in pushed]}", q.loc(n))
        # an element that is passed over is zero
        edges = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, n.ret, "Some")]
        bad = skips(e, n, edges, lambda lab: zero_edge(lab) is True, lambda m: grows(e, m, pairs[pk]))
        ck.ob(f"{nm}:sparse-only-zeros", bool(edges) and not bad, f"a value of {nm} that is not zero can be left out of the saved model", q.loc(n))
        early = leaves_loop(e, n)
        ck.ob(f"{nm}:sparse-all", not early, f"the pass over {nm} can stop before its end", q.loc(n))
    # reader
    e = Engine(p, d, corr=False, models={"Try::branch": serde_tab.m_branch, "Result::map_err": m_map_err})
    oks = []
    for r, t in rets(e):
        v = ok_of(t)
        if v is not None:
            if v.op == "agg" and v.a[0].endswith("__DeserializeWith"):
                v = dict(zip(v.a[2], v.a[3])).get("value", v)
            oks.append(v)
    if not ck.ob(f"{nm}:dense-result", len(oks) >= 1, f"the reader of {nm} never succeeds"):
        return
    for v in [y for x in oks for y in tab.unwrap(e, x)]:
        base = [y for y in c06.deep(e, v) if y.op == "call" and y.a[0].endswith("from_elem")]
        okb = bool(base) and all(iszero(y.a[1][0]) and lenfield(y.a[1][1], p) for y in base)
        ck.ob(f"{nm}:dense-start", okb, f"{nm} is not restored into as many zeros as were saved: {[pp(y)[:160] for y in base]}")
    ns = [x for x in nexts(e)]
    # stores: *get_mut(vec, index) = value, vec[index] = value, index_mut
    good = bool(ns)
    for n in ns:
        el = nxt(n.ret)
        st = [x for x in e.events if store_of(x, el)]
        other = [x for x in e.events if x.kind in ("write", "lwrite") and any(s is el for s in subterms(x.args[0])) and not store_of(x, el)]
        ids = {id(x) for x in st}
        edges = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, n.ret, "Some")]
        miss = skips(e, n, edges, lambda lab: False, lambda m: any(id(x) in ids for x in m.events))
        ck.ob(f"{nm}:dense-stores", bool(st) and not other and not miss, f"a saved value of {nm} is not stored at its own position when it is restored", q.loc(n))
    ck.ob(f"{nm}:dense-loop", len(ns) >= 1, f"the saved values of {nm} are not stored back one by one")


def plain(t, proj=True):
    """through casts, conversions and payloads"""
    while True:
        if t.op == "cast":
            t = t.a[1]
        elif t.op == "call" and t.a[1] and re.search(r"(try_into|try_from|from|into|unwrap|map_err|branch)$", t.a[0]):
            t = t.a[1][0]
        elif proj and t.op == "vf":
            t = t.a[0]
        else:
            return t


def m_map_err(ex, t, f, args):
    v = args[0]
    if v.op == "agg" and v.a[1] == "Ok":
        return ex.finish(t, v)
    if v.op == "agg" and v.a[1] == "Err":
        return ex.finish(t, Agg(v.a[0], "Err", v.a[2], [mk("in", "err", v.a[3][0])]))
    return NotImplemented


def iter_of(x):
    """what a next call iterates over"""
    r = x.ret
    if r is None or r.op != "call" or not r.a[1]:
        return None
    a = r.a[1][0]
    while a.op == "call" and a.a[1] and re.search(r"(iter|iter_mut|into_iter|enumerate|deref|as_slice)$", a.a[0]):
        a = a.a[1][0]
    return a


def rng_over(x, base):
    r = x.ret
    a = r.a[1][0] if r.op == "call" else None
    if not isinstance(a, Term) or a.op != "agg" or "Range" not in a.a[0]:
        return False
    d = dict(zip(a.a[2], a.a[3]))
    en = d.get("end")
    return d.get("start") is K(0) and en is not None and pp(en) == f"len({pp(base)})"


def index_of(e, t, n, uses):
    """t counts the elements of the loop from 0"""
    while t.op == "cast":
        t = t.a[1]
    el = nxt(n.ret)
    if any(s is el for s in subterms(t)):
        return t is el or t.op == "vf" and t.a[0] is el or t.op == "f" and t.a[1] == "0"
    return q.counter(e, t, lambda lab: is_next_edge(lab, n.ret, "Some"), uses)


def value_of(t, n, base):
    el = nxt(n.ret)
    if t is el:
        return True
    if t.op == "f" and t.a[0] is el and t.a[1] == "1":
        return True
    return pp(t) == f"{pp(base)}[{pp(el)}]"


def grows(e, m, acc):
    return any(x.kind in ("call", "elem") and x.name.endswith("push") for x in m.events)


def skips(e, n, starts, edge, hit):
    """from an element being taken, is the next one reached without `hit` and without an edge that excuses it?"""
    seen = set(starts)
    st = list(starts)
    while st:
        m = st.pop()
        if hit(m):
            continue
        if any(x.kind == "ret" and any(not fails(t) for t in alts(e, x.args[0])) for x in m.events) or any(x.kind == "call" and x.name.endswith("Iterator::next") and x.ret is n.ret for x in m.events):
            return m
        for y, lab in m.succ:
            if lab is not None and isinstance(lab[0], Term) and edge(lab):
                continue
            if y not in seen:
                seen.add(y)
                st.append(y)
    return None


def fails(t):
    return t.op == "agg" and t.a[1] in ("Err", "None", "Break") or t.op == "call" and t.a[0].endswith("from_residual")


def leaves_loop(e, n):
    """after an element was taken, can the function succeed without asking for the next one?"""
    starts = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, n.ret, "Some")]
    seen = set(starts)
    st = list(starts)
    while st:
        m = st.pop()
        if any(x.kind == "call" and x.name.endswith("Iterator::next") and x.ret is n.ret for x in m.events):
            continue
        for x in m.events:
            if x.kind == "ret":
                if any(not fails(t) for t in alts(e, x.args[0])):
                    return x
        for y, lab in m.succ:
            if y not in seen:
                seen.add(y)
                st.append(y)
    return None


def lenfield(t, p):
    t = plain(t, False)
    return t.op in ("f", "vf") and t.a[-1] == "len"


def store_of(x, el):
    """a store of the pair's value at the pair's index"""
    if x.kind not in ("write", "lwrite") or len(x.args) < 2:
        return False
    tgt, val = x.args[0], x.args[1]
    f = lambda i: lambda s: s.op == "f" and s.a[0] is el and s.a[1] == i
    hasi = [s for s in subterms(tgt) if f("0")(s)]
    # the index is exactly the pair's: no arithmetic on it
    arith = [s for s in subterms(tgt) if s.op == "bin" and any(f("0")(y) for y in subterms(s))]
    return bool(hasi) and not arith and f("1")(val)


# ------------------------------------------------------------------ fields that are not saved
def unread(ck, p, skipped):
    ck.floor("entry points of prediction and update", len(entries(p)), 20)
    seen = set()
    bodies = []
    for b in entries(p):
        bodies += c06.reach(p, b, seen)
    # trait-object calls: every implementation
    extra = [b for b in p.bodies.values() if b.kind == "method" and b.trait and any(b.trait.endswith("::" + t) for t in ("ReductionImpl", "LossFunctionImpl", "Weights", "MetricImpl")) and b.m in ("predict", "learn", "predict_then_learn", "sensitivity", "get_value", "get_update", "get_unsafe_update", "get_revert_time", "get_square_grad", "first_derivative", "second_derivative")]
    for b in extra:
        bodies += c06.reach(p, b, seen)
    ck.count("bodies prediction and update can reach", len(bodies))
    for a, f in sorted(skipped):
        hit = [(b, sp) for b in bodies for x, g, m, sp in q.field_accesses(b) if x == a and g == f and m != "write"]
        ck.ob(f"{a.split('::')[-1]}.{f}:not-saved-not-read", not hit, f"{a}.{f} is not saved, but prediction or update reads it", f"{hit[0][0].path} ({hit[0][1]})" if hit else "")


def entries(p):
    out = [b for b in p.bodies.values() if b.kind == "method" and b.trait == reds.IMPL and b.m in ("predict", "learn", "predict_then_learn", "sensitivity")]
    out += [b for b in p.bodies.values() if b.kind in ("fn", "method") and re.search(r"::workspace::Workspace::(predict|learn|predict_then_learn)$", b.path)]
    return out


# ------------------------------------------------------------------ exported weights
ACC = re.compile(r"(^|::)(state_at|state_at_mut)$")


def closure_zero(p, clo):
    """'nonzero' / 'zero': the predicate the closure computes on its argument"""
    b = p.bodies.get(clo.a[0]) if clo.op == "clo" else None
    if b is None:
        b = next((x for x in p.bodies.values() if clo.op == "clo" and x.o.get("def") == clo.a[0]), None)
    if b is None:
        return None
    quant = lambda ex, t, f, a: ex.finish(t, mk("in", f["m"], ex.snap(a[0]), a[1]))
    e = Engine(p, b, models={"Iterator::any": quant, "Iterator::all": quant})
    rs = {t for r, t in rets(e)}
    if len(rs) != 1:
        return None
    t = rs.pop()
    neg = False
    while t.op == "un" and t.a[0] == "Not":
        t, neg = t.a[1], not neg
    if t.op == "in" and t.a[0] in ("any", "all") and not neg:
        k = closure_zero(p, t.a[2])
        return {("any", "nonzero"): "row-nonzero", ("all", "zero"): "row-zero"}.get((t.a[0], k))
    if t.op == "bin" and t.a[0] in ("Eq", "Ne") and (iszero(t.a[1]) or iszero(t.a[2])):
        return "zero" if (t.a[0] == "Eq") != neg else "nonzero"
    return None


def weights(ck, p, dw):
    acc = {}
    for b in p.bodies.values():
        if b.kind == "method" and b.self_ty is not None and b.self_ty.isadt(dw) and b.m in ("state_at", "state_at_mut", "weight_at", "weight_at_mut"):
            e = Engine(p, b)
            ix = [x for x in e.events if x.kind == "call" and re.search(r"Index(Mut)?::index(_mut)?$", x.name)]
            acc[b.m] = [canon(b, x.args[1]) for x in ix]
    ck.ob("weights:accessors", set(acc) >= {"state_at", "state_at_mut"} and all(len(v) == 1 for v in acc.values()), f"the accessors of the weights are not decided: { {k: len(v) for k, v in acc.items()} }")
    ck.ob("weights:same-place", acc.get("state_at") == acc.get("state_at_mut"), f"state_at and state_at_mut address different places")
    nd = next((a for a in p.adts if a.endswith("::DenseWeightsWithNDArray")), None)
    if not ck.anchor("exported weights", nd):
        return
    op = lambda b, f: b.kind == "method" and b.self_ty is not None and b.self_ty.isadt(dw) and b.m in ("state_at", "state_at_mut")
    fr = [b for b in p.bodies.values() if b.kind in ("fn", "method") and not b.derived and b.lty(0).isadt(nd) and b.argc == 1 and b.lty(1).strip().isadt(dw)]
    gives = lambda ty: ty.isadt(dw) or ty.isadt("core::result::Result") and bool(ty.a) and ty.a[0].isadt(dw)
    to = [b for b in p.bodies.values() if b.kind in ("fn", "method") and not b.derived and gives(b.lty(0)) and b.argc == 1 and b.lty(1).strip().isadt(nd)]
    ck.anchor("conversion to the exported form", fr)
    ck.anchor("conversion from the exported form", to)
    for b in fr:
        export(ck, p, b, nd, dw, op)
    for b in to:
        imports(ck, p, b, nd, dw, op)
    rewriting(ck, p, nd, dw, [b.id for b in fr + to])


def canon(b, t):
    """parameter names out of the term"""
    names = {b.lname(i): f"${i}" for i in range(1, b.argc + 1)}

    def go(x):
        if x.op == "par" and x.a[0] in names:
            return mk("par", names[x.a[0]])
        return x

    return rebuild(t, go)


def rebuild(t, go):
    import engine

    def r(x):
        if isinstance(x, Term):
            y = go(x)
            if y is not x:
                return y
            return mk(x.op, *[r(z) for z in x.a])
        if isinstance(x, tuple):
            return tuple(r(z) for z in x)
        if isinstance(x, list):
            return [r(z) for z in x]
        return x

    return r(t)


def scalars(ck, p, key, v, src, adts, arg):
    fs = {f["n"]: p.adts[adts]["types"][f["t"]] for w in p.adts[adts]["vs"] for f in w["f"]}
    d = dict(zip(v.a[2], v.a[3]))
    for f, ty in fs.items():
        if ty.isadt("alloc::vec::Vec") or ty.isadt("std::collections::hash::map::HashMap"):
            continue
        x = d.get(f)
        ok = x is not None and x.op == "f" and x.a[1] == f and pp(x.a[0]) == arg
        ck.ob(f"{key}.{f}", ok, f"{f} is not carried over unchanged but as {pp(x)[:120] if x is not None else None}")


def m_quant(ex, t, f, a):
    """any / all as a decision"""
    c = mk("in", f["m"], ex.snap(a[0]), a[1])
    st0, fa0 = ex.st, ex.fa
    res = []
    for v in (True, False):
        ex.st, ex.fa = dict(st0), dict(fa0)
        ex.fa[c] = ("eq", int(v))
        res += ex.finish(t, K(v), (c, v))
    ex.st, ex.fa = st0, fa0
    return res


def export(ck, p, b, nd, dw, op):
    nm = "export"
    e = Engine(p, b, opaque=op, models={"Iterator::any": m_quant, "Iterator::all": m_quant})
    arg = b.lname(1)
    rs = [t for r, t in rets(e)]
    for v in rs:
        if ck.ob(f"{nm}:result", v.op == "agg" and v.a[0] == nd, f"{b.path} does not build the exported form: {pp(v)[:100]}"):
            scalars(ck, p, nm, v, b, nd, arg)
    # loops
    sizes = {}
    for x in nexts(e):
        r = x.ret.a[1][0]
        if isinstance(r, Term) and r.op == "agg" and "Range" in r.a[0]:
            d = dict(zip(r.a[2], r.a[3]))
            if d.get("start") is not None and d["start"].op == "k" and d["start"].a[0] == 0:
                for f in ("feature_index_size", "model_index_size"):
                    if end_is(d.get("end"), arg, f, "Inclusive" in r.a[0]):
                        sizes.setdefault(f, {})[x.ret] = x
    ok = ck.ob(f"{nm}:all-features", len(sizes.get("feature_index_size", ())) == 1, f"{b.path} does not visit the features 0..feature_index_size")
    ok &= ck.ob(f"{nm}:all-models", len(sizes.get("model_index_size", ())) == 1, f"{b.path} does not visit the models 0..model_index_size")
    if not ok:
        return
    outer, inner = list(sizes["feature_index_size"].values())[0], list(sizes["model_index_size"].values())[0]
    oi, ii = nxt(outer.ret), nxt(inner.ret)
    st = [x for x in e.events if x.kind == "call" and ACC.search(x.name)]
    ck.ob(f"{nm}:reads", bool(st) and all(pp(x.args[0]) == arg and wraps(x.args[1], oi) and wraps(x.args[2], ii) for x in st), f"{b.path} does not read each state at its own feature and model: {[[pp(y)[:80] for y in x.args[1:]] for x in st][:2]}")
    rd = {x.ret for x in st}

    # each model's state is pushed, in order, whatever it holds
    pu = [x for x in e.events if x.kind in ("call", "elem") and x.name.endswith("push") and conv_of(x.args[-1], rd)]
    ids = {id(x) for x in pu}
    ist = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, inner.ret, "Some")]
    miss = skips(e, inner, ist, lambda lab: False, lambda m: any(id(x) in ids for x in m.events))
    # the feature itself may be passed over only by reaching the next feature
    odd = [x for x in e.events if x.kind in ("call", "elem") and x.name.endswith("push") and id(x) not in ids]
    ck.ob(f"{nm}:each-state", bool(pu) and not miss and not odd, f"{b.path} can leave out or alter the state of a model", q.loc(inner))
    ins = [x for x in e.events if x.kind == "call" and re.search(r"Map::insert$|Entry::or_insert", x.name)]
    ck.ob(f"{nm}:insert", bool(ins) and all(wraps(x.args[1], oi) for x in ins), f"{b.path} does not export a feature under its own index")
    iid = {id(x) for x in ins}

    def test(lab):
        """'nz' / 'z' when the edge says some value of the state is not zero / all are (this one is), else None"""
        c, v = lab
        if not isinstance(c, Term):
            return None
        neg = False
        while c.op == "un" and c.a[0] == "Not":
            c, neg = c.a[1], not neg
        if c.op == "in" and c.a[0] in ("any", "all"):
            k = closure_zero(p, c.a[2])
            row = (k or "").startswith("row-")
            if not any(s in rd for s in (c06.deep(e, c.a[1]) if row else subterms(c.a[1]))):
                return None
            if c.a[0] == "any" and k in ("nonzero", "row-nonzero"):
                return "nz" if bool(v) != neg else "z"
            if c.a[0] == "all" and k in ("zero", "row-zero"):
                return "z" if bool(v) != neg else "nz"
            return None
        z = zero_edge(lab)
        if z is not None and any(s in rd for s in subterms(c)) and any(s.op == "call" and s.a[0] == "next" and any(r in rd for r in subterms(s)) for s in subterms(c)):
            return "z1" if z else "nz"
        return None

    starts = []
    tested = 0
    for m in e.nodes:
        for y, lab in m.succ:
            if lab is not None and isinstance(lab[0], Term) and test(lab) == "nz":
                starts.append(y)
                tested += 1
    lost = skips(e, outer, starts, lambda lab: False, lambda m: any(id(x) in iid for x in m.events))
    ck.ob(f"{nm}:non-zero-kept", not lost, f"{b.path} can leave out a feature after seeing that one of its values is not zero", q.loc(outer))
    # every model's state is looked at before a feature is left out
    un = skips(e, outer, ist, lambda lab: test(lab) in ("nz", "z") or is_row_test(lab, rd), lambda m: any(id(x) in iid for x in m.events))
    ck.ob(f"{nm}:tested", tested > 0 and not un, f"{b.path} can leave out a feature without having looked at the values of one of its models", q.loc(inner))
    for n in (outer,):
        ck.ob(f"{nm}:complete", not leaves_loop(e, n), f"{b.path} can stop before the last feature", q.loc(n))


def is_row_test(lab, rd):
    c = lab[0]
    return isinstance(c, Term) and c.op == "discr" and c.a[0].op == "call" and c.a[0].a[0] == "next" and any(s in rd for s in subterms(c.a[0])) and lab[1] == "None"


def end_is(t, arg, f, incl=False):
    if t is None or incl:
        return False
    t = plain(t, False)
    s = pp(t)
    return s in (f"{arg}.{f}.0", f"{arg}.{f}")


def wraps(t, el):
    """a newtype or conversion around exactly el"""
    while t is not el:
        if t.op == "agg" and len(t.a[3]) == 1:
            t = t.a[3][0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "call" and re.search(r"(from|into|try_from|try_into|unwrap)$", t.a[0]) and t.a[1]:
            t = t.a[1][0]
        elif t.op == "vf" and t.a[1] == "Ok":
            t = t.a[0]
        else:
            return False
    return True


def conv_of(t, rd):
    while t not in rd:
        if t.op == "call" and re.search(r"(from|into|to_vec|to_owned|clone|collect)$", t.a[0]) and t.a[1]:
            t = t.a[1][0]
        elif t.op == "post":
            t = t.a[0]
        else:
            return False
    return True


def imports(ck, p, b, nd, dw, op):
    nm = "import"
    e = Engine(p, b, opaque=op)
    arg = b.lname(1)
    base = []
    for r, t in rets(e):
        for s in c06.deep(e, t):
            if s.op == "agg" and s.a[0] == dw and s not in base:
                base.append(s)
    if ck.ob(f"{nm}:result", len(base) == 1, f"{b.path} does not build the weights in one place"):
        scalars(ck, p, nm, base[0], b, dw, arg)
        w = dict(zip(base[0].a[2], base[0].a[3])).get("weights")
        fe = [s for s in c06.deep(e, w) if s.op == "call" and s.a[0].endswith("from_elem")] if w is not None else []
        ck.ob(f"{nm}:zeros", len(fe) == 1 and iszero(fe[0].a[1][0]), f"{b.path} does not start from zeros: {pp(w)[:100] if w is not None else None}")
        size = [pp(fe[0].a[1][1])] if fe else []
        ck.ob(f"{nm}:size", fe and table_size(p, dw, fe[0].a[1][1], arg), f"{b.path} does not allocate the table its sizes describe: {size}")
    ns = nexts(e)
    outer = [x for x in ns if pp(x.ret).startswith(f"next(iter({arg}.weights)") or pp(iter_of(x) or K(0)) == f"{arg}.weights"]
    if not ck.ob(f"{nm}:all-features", len(outer) == 1, f"{b.path} does not visit every exported feature"):
        return
    outer = outer[0]
    oe = nxt(outer.ret)
    inner = [x for x in ns if x is not outer and any(s is oe for s in subterms(x.ret))]
    if not ck.ob(f"{nm}:all-models", len(inner) == 1, f"{b.path} does not visit every model of a feature"):
        return
    inner = inner[0]
    ie = nxt(inner.ret)
    st = [x for x in e.events if x.kind == "call" and ACC.search(x.name)]
    ok = bool(st)
    for x in st:
        key = x.args[1]
        ok = ok and key.op == "f" and key.a[0] is oe and key.a[1] == "0"
        m = x.args[2]
        while m.op == "agg" and len(m.a[3]) == 1:
            m = m.a[3][0]
        ok = ok and index_of(e, m, inner, [z for z in e.nodes if x in z.events])
    ck.ob(f"{nm}:places", ok, f"{b.path} does not restore each state at its own feature and model: {[[pp(y)[:80] for y in x.args[1:]] for x in st][:2]}")
    places = {x.ret for x in st}
    cp = [x for x in e.events if x.kind == "call" and re.search(r"(copy_from_slice|clone_from_slice)$", x.name)]
    good = [x for x in cp if any(s in places for s in subterms(x.refs[0] if x.refs else x.args[0])) or any(s in places for s in subterms(x.args[0]))]
    good = [x for x in good if state_value(x.args[1], ie)]
    ids = {id(x) for x in good}
    ist = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, inner.ret, "Some")]
    miss = skips(e, inner, ist, lambda lab: False, lambda m: any(id(x) in ids for x in m.events))
    ck.ob(f"{nm}:copied", bool(good) and len(good) == len(cp) and not miss, f"{b.path} does not restore the whole state of every model", q.loc(inner))
    for n in (outer, inner):
        ck.ob(f"{nm}:complete", not leaves_loop(e, n), f"{b.path} can stop before everything is restored", q.loc(n))
    est = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, outer.ret, "Some")]
    miss = skips(e, outer, est, lambda lab: False, lambda m: any(x.kind == "call" and x.ret is inner.ret for x in m.events))
    ck.ob(f"{nm}:each-feature", not miss, f"{b.path} can pass over an exported feature", q.loc(outer))


def state_value(t, ie):
    while t is not ie:
        if t.op == "call" and re.search(r"(deref|as_slice|as_ref)$", t.a[0]):
            t = t.a[1][0]
        elif t.op == "call" and re.search(r"Index::index$|^index$", t.a[0]) and pp(t.a[1][1]).startswith("RangeFull"):
            t = t.a[1][0]
        elif t.op == "f" and t.a[1] == "1":
            t = t.a[0]
        else:
            return False
    return True


def table_size(p, dw, t, arg):
    """the size of the table that DenseWeights::new allocates for the same sizes"""
    new = [b for b in p.bodies.values() if b.kind in ("fn", "method") and b.self_ty is not None and b.self_ty.isadt(dw) and not b.trait and re.search(r"::new$", b.path)]
    if len(new) != 1:
        return False
    e = Engine(p, new[0])
    fe = [x for x in e.events if x.kind == "call" and x.name.endswith("from_elem")]
    if len(fe) != 1:
        return False
    want = fe[0].args[1]
    # what `new` stores, in terms of its sizes
    sh, par = {}, {}
    me = next((x.a[0] for x in subterms(t) if x.op == "f" and pp(x.a[0]) == arg), None)
    for r, v in rets(e):
        if v.op == "agg" and v.a[1] == "Ok" and v.a[3][0].op == "agg":
            d = v.a[3][0]
            for f, x in zip(d.a[2], d.a[3]):
                if x in e.params:
                    par[x] = mk("f", me, f) if me is not None else x
                else:
                    ls = {plain(y) for y in tab.unwrap(e, plain(x)) if not pp(plain(y)).startswith("zst(")}
                    sh[f] = ls.pop() if len(ls) == 1 else x
    inself = lambda x: par.get(x, x)
    sub = {f: rebuild(x, inself) for f, x in sh.items()}
    got = rebuild(t, lambda x: sub.get(x.a[1], x) if x.op == "f" and x.a[0] is me else x)
    return factors(got) == factors(rebuild(want, inself))


def factors(t):
    t = rebuild(t, lambda x: x)
    while t.op == "cast":
        t = t.a[1]
    if t.op == "bin" and t.a[0].startswith("Mul"):
        return sorted(factors(t.a[1]) + factors(t.a[2]))
    return [str(hash(nocast(t)))]


def nocast(t):
    def go(x):
        if x.op == "cast":
            return nocast(x.a[1])
        return x

    return rebuild(t, go)


# ------------------------------------------------------------------ rewriting of exported JSON
def rewriting(ck, p, nd, dw, convs):
    sk = {}
    for a in (nd, dw):
        S = serde_tab.ser(p, a)
        sk[a] = set(S[1]) if S else set()
    out = []
    fns = []
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and CORE.match(b.path) and b.argc >= 1 and any(b.lty(i).k == "ref" and b.lty(i).mut and b.lty(i).strip().isadt("serde_json::value::Value") for i in range(1, b.argc + 1)):
            fns.append(b)
    ck.floor("rewriters of exported JSON", len(fns), 2)
    for b in fns:
        rewriter(ck, p, b, nd, dw, sk, convs)


def const_items(t):
    """the constants an iterator runs over"""
    while t.op == "call" and t.a[1] and re.search(r"(iter|into_iter|copied|cloned)$", t.a[0]):
        t = t.a[1][0]
    xs = t.a[0] if t.op in ("arr", "tup") else t.a[3] if t.op == "agg" else ()
    return [x.a[0] for x in xs] if xs and all(isinstance(x, Term) and x.op == "k" for x in xs) else []


def m_quant_const(ex, t, f, a):
    return m_quant(ex, t, f, a) if const_items(ex.snap(a[0])) else NotImplemented


def moved(t):
    """through copies and moves of a value"""
    while t.op == "post" or t.op == "call" and t.a[1] and re.search(r"(clone|to_owned|Value::take|mem::take|mem::replace)$", t.a[0]):
        t = t.a[1][0] if t.op == "call" else t.a[0]
    return t


def tests_key(p, clo):
    b = p.bodies.get(clo.a[0]) if clo.op == "clo" else None
    if b is None:
        return False
    rs = {t for r, t in rets(Engine(p, b))}
    return len(rs) == 1 and all(t.op == "call" and t.a[0].endswith("contains_key") and t.a[1][1] in (mk("par", b.lname(2) or "p2"), mk("f", mk("par", b.lname(2) or "p2"), "0")) for t in rs)


def rewriter(ck, p, b, nd, dw, sk, convs):
    nm = b.path.split("::")[-1]
    op = lambda x, f: x.id in convs or x.id != b.id and x.kind in ("fn", "method") and x.self_ty is not None and (x.self_ty.isadt(nd) or x.self_ty.isadt(dw))
    e = Engine(p, b, opaque=op, unroll=True, models={"Iterator::any": m_quant_const, "Iterator::all": m_quant_const})
    val = b.lname(1)
    wr = [x for x in e.events if x.kind == "write" and x.args[0].op in ("ref", "cref", "par") and "*" + val in pp(x.args[0]) or x.kind == "write" and pp(x.args[0]) in (f"&mut *{val}", val)]
    if not ck.ob(f"{nm}:replaces", len(wr) >= 1, f"{b.path} never replaces the weights it finds"):
        return
    dirs = set()
    for w in wr:
        chain = [s.a[0] for s in subterms(w.args[1]) if s.op == "call"]
        cv = [s for s in subterms(w.args[1]) if s.op == "call" and any((x.kind == "call" and x.ret is s and q.body_of(p, x.callee) is not None and q.body_of(p, x.callee).id in convs) for x in e.events if x.callee)]
        ok = len(cv) == 1
        if ok:
            c = cv[0]
            a = c.a[1][0]
            base = a
            while base.op in ("vf", "f", "post") or base.op == "call" and re.search(r"(branch|clone|Value::take|mem::take|mem::replace)$", base.a[0]):
                base = base.a[1][0] if base.op == "call" else base.a[0]
            ok = base.op == "call" and cfg.FV.search(base.a[0]) and pp(moved(base.a[1][0])) in (val, f"*{val}")
            o = w.args[1]
            while o.op in ("vf", "f") or o.op == "call" and re.search(r"branch$", o.a[0]):
                o = o.a[1][0] if o.op == "call" else o.a[0]
            ok = ok and o.op == "call" and o.a[0].endswith("to_value")
            o = o.a[1][0] if ok else o
            while o.op in ("vf", "f") or o.op == "call" and re.search(r"branch$", o.a[0]):  # a conversion that can fail, with `?`
                o = o.a[1][0] if o.op == "call" else o.a[0]
            ok = ok and o is c
            dirs.add(c.a[0])
        ck.ob(f"{nm}:converted", ok, f"{b.path} replaces weights by something other than their converted form: {pp(w.args[1])[:160]}", q.loc(w))
    # recognised keys: what every path to the replacement has established
    def est(lab):
        """keys the edge establishes / denies"""
        c, v = lab
        if not isinstance(c, Term):
            return set()
        neg = False
        while c.op == "un" and c.a[0] == "Not":
            c, neg = c.a[1], not neg
        if c.op == "call" and c.a[0].endswith("contains_key") and c.a[1][1].op == "k" and bool(v) != neg:
            return {c.a[1][1].a[0]}
        if c.op == "discr" and c.a[0].op == "call" and re.search(r"Map::(get|get_mut)$", c.a[0].a[0]) and c.a[0].a[1][1].op == "k" and v == "Some":
            return {c.a[0].a[1][1].a[0]}
        if c.op == "in" and c.a[0] == "all" and bool(v) != neg and tests_key(p, c.a[2]):
            return set(const_items(c.a[1]))
        return set()

    cand = {k for m in e.nodes for y, lab in m.succ if lab is not None for k in est(lab)}
    keys = set()
    for k in cand:
        evs, _ = q.walk(e, None, None, lambda lab: k in est(lab))
        if not any(x in wr for x in evs):
            keys.add(k)
    ck.ob(f"{nm}:recognises", bool(keys) and keys <= sk[nd] and keys <= sk[dw], f"{b.path} looks for the keys {sorted(keys)}, but the weights are saved with {sorted(sk[dw])} and {sorted(sk[nd])}")
    ck.ob(f"{nm}:recognises-only", keys >= (sk[nd] & sk[dw]) or len(keys) >= 2, f"{b.path} takes any object with the keys {sorted(keys)} for weights")
    # no other type of the model looks like weights
    for a in serde_tab.reachable(p, roots(p)):
        T = serde_tab.ser(p, a)
        if T and T[0] == "struct" and a not in (nd, dw):
            ck.ob(f"{nm}:not-{a.split('::')[-1]}", not keys <= set(T[1]), f"{b.path} would take a saved {a} for weights")
    # an object that is not weights, and an array, are descended into completely; nothing else is left alone
    rec = [x for x in e.events if x.kind == "call" and x.callee and q.body_of(p, x.callee) is b]
    kinds = {}
    for n in nexts(e):
        s = pp(n.ret)
        for k in ("Object", "Array"):
            if k in s:
                kinds.setdefault(k, []).append(n)
    for k in ("Object", "Array"):
        ns = kinds.get(k, [])
        if not ck.ob(f"{nm}:into-{k}", len(ns) >= 1, f"{b.path} does not look inside a JSON {k.lower()}"):
            continue
        for n in ns:
            el = nxt(n.ret)
            hit = [x for x in rec if any(s is el or s.op == "phi" and pp(el) in pp(s) for s in subterms(x.args[0])) or pp(el) in pp(x.args[0]) or any(pp(el) in pp(r) for r in (x.refs or []) if isinstance(r, Term))]
            ids = {id(x) for x in hit}
            st = [y for m in e.nodes for y, lab in m.succ if lab is not None and is_next_edge(lab, n.ret, "Some")]
            miss = skips(e, n, st, lambda lab: False, lambda m: any(id(x) in ids for x in m.events))
            ck.ob(f"{nm}:each-of-{k}", bool(hit) and not miss, f"{b.path} passes over part of a JSON {k.lower()}", q.loc(n))
            ck.ob(f"{nm}:all-of-{k}", not leaves_loop(e, n), f"{b.path} can stop inside a JSON {k.lower()}", q.loc(n))
    for x in rec:
        # the error of the inner call is returned
        ok = x.ret is not None and any(contains_ret(e, t, x.ret) for r, t in rets(e)) or any(isinstance(l[0], Term) and any(s is x.ret for s in subterms(l[0])) for m in e.nodes for y, l in m.succ if l is not None)
        ck.ob(f"{nm}:errors", ok, f"{b.path} drops the error of a nested value", q.loc(x))
    # success without descending: only when replaced, or when the value is neither object nor array
    def edge(lab):
        c, v = lab
        if isinstance(c, Term) and c.op == "discr" and pp(c.a[0]) in (val, f"*{val}"):
            return v not in ("Object", "Array", "else")
        return False

    stopn = {id(x) for x in wr} | {id(x) for n in sum(kinds.values(), []) for x in [n]}
    evs, _ = q.walk(e, None, lambda x: id(x) in stopn or x.kind == "call" and x.name.endswith("Iterator::next"), edge)
    bad = [x for x in evs if x.kind == "ret" and any(not fails(t) for t in alts(e, x.args[0]))]
    ck.ob(f"{nm}:nothing-skipped", not bad, f"{b.path} can succeed without having looked at an object or array", q.loc(bad[0]) if bad else "")


def contains_ret(e, t, r):
    return any(s is r for s in c06.deep(e, t))


# ------------------------------------------------------------------ library entry points
def opq(p, pats):
    r = re.compile(pats)
    return lambda b, f: r.search(b.path) is not None or re.search(r"::(serialize|deserialize)$", b.path) is not None


def entry(ck, p):
    ws = next((a for a in p.adts if a.endswith("::workspace::Workspace")), None)
    if not ck.anchor("workspace", ws):
        return
    op = opq(p, r"::rewrite_json|::validate$")
    rew = {b.id for b in p.bodies.values() if b.kind in ("fn", "method") and CORE.match(b.path) and b.argc >= 1 and b.lty(1).k == "ref" and b.lty(1).mut and b.lty(1).strip().isadt("serde_json::value::Value")}
    n = 0
    for b in p.bodies.values():
        if not (b.kind in ("fn", "method") and CORE.match(b.path) and b.self_ty is not None and b.self_ty.isadt(ws) and not b.trait and not b.derived):
            continue
        out = b.lty(0)
        nm = b.path.split("::")[-1]
        okt = out.a[0] if out.isadt("core::result::Result") and out.a else None
        if okt is None:
            continue
        if okt.isadt(ws) and b.argc == 1 and not b.lty(1).strip().isadt(ws) and not (b.lty(1).k == "adt" and b.lty(1).adt.endswith("Configuration")):
            n += 1
            e = Engine(p, b, opaque=lambda x, f: x.id in rew or op(x, f))
            for r, t in rets(e):
                for v in tab.unwrap(e, mk("vf", t, "Ok", "0")):
                    src, rewr = source(e, v, rew, p)
                    js = b.lty(1).strip().isadt("serde_json::value::Value")
                    ck.ob(f"{nm}:rewritten", rewr == js, f"{b.path} can read the exported form without converting the weights in it" if js else f"{b.path} rewrites a saved model", q.loc(r))
                    ck.ob(f"{nm}:restores", src is not None, f"{b.path} can return a workspace that is not the one it read: {pp(v)[:160]}", q.loc(r))
        elif b.argc == 1 and b.lty(1).k == "ref" and b.lty(1).strip().isadt(ws) and (okt.isadt("alloc::vec::Vec") or okt.isadt("serde_json::value::Value")):
            n += 1
            e = Engine(p, b, opaque=lambda x, f: x.id in rew or op(x, f))
            me = b.lname(1)
            sers = [x for x in e.events if x.kind == "call" and re.search(r"(Serialize::serialize|::serialize|to_value|to_vec|to_string)$", x.name)]
            okk = bool(sers) and all(pp(x.args[0]) == me for x in sers)
            ck.ob(f"{nm}:saves-self", okk, f"{b.path} does not save the workspace itself: {[pp(x.args[0])[:60] for x in sers]}")
            rs = [(r, v) for r, t in rets(e) for v in tab.unwrap(e, mk("vf", t, "Ok", "0"))]
            for r, v in rs:
                ok, rewr = saved(e, v, sers, rew, p)
                js = okt.isadt("serde_json::value::Value")
                ck.ob(f"{nm}:rewritten", rewr == js, f"{b.path} can export the model without converting the weights in it" if js else f"{b.path} rewrites a saved model", q.loc(r))
                ck.ob(f"{nm}:returns-saved", ok, f"{b.path} can return something other than what was saved: {pp(v)[:160]}", q.loc(r))
            fails = [x for x in sers if not checked(e, x)]
            ck.ob(f"{nm}:errors", not fails, f"{b.path} drops a failure to save")
            # nothing is returned before the workspace was saved, nor before nested weights were rewritten
            early = q.not_preceded(e, lambda x: x.kind == "ret" and any(not fails(t) for t in alts(e, x.args[0])), lambda x: x in sers)
            ck.ob(f"{nm}:saved-first", not early, f"{b.path} can succeed without saving the workspace")
    ck.floor("saving and loading functions", n, 4)
    # JSON: written with one rewriter, read with the opposite one
    used = {}
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and CORE.match(b.path) and b.id not in rew:
            for f, sp, t in q.callees(p, b):
                g = q.body_of(p, f) if f else None
                if g is not None and g.id in rew:
                    used.setdefault(b.path.split("::")[-1], set()).add(g.id)
    ck.ob("json:opposite", len(used) == 2 and all(len(v) == 1 for v in used.values()) and len({next(iter(v)) for v in used.values()}) == 2, f"exporting and importing do not use the two opposite rewriters: {sorted(used)}")


def is_rew(e, c, rew, p):
    return next((x for x in e.events if x.kind == "call" and x.ret is c and x.callee and q.body_of(p, x.callee) is not None and q.body_of(p, x.callee).id in rew), None)


def source(e, v, rew, p):
    """the argument a workspace was read from, and whether a rewriter saw it on the way"""
    rewr = False
    for _ in range(14):
        if v in e.params:
            return v, rewr
        if v.op == "post":
            if is_rew(e, v.a[0], rew, p) is None:
                return None, rewr
            rewr = True
            v = v.a[0].a[1][int(v.a[1])]
        elif v.op in ("vf", "f", "clone"):
            v = v.a[0]
        elif v.op == "call" and (cfg.FV.search(v.a[0]) or re.search(r"(get_root|from_slice|clone|branch|map_err|as_ref|deserialize_struct)$", v.a[0])):
            v = v.a[1][0]
        elif v.op == "phi":
            out = {source(e, x, rew, p) for x in set(alts(e, v))}
            return out.pop() if len(out) == 1 else (None, rewr)
        else:
            return None, rewr
    return None, rewr


def saved(e, v, sers, rew, p):
    rewr = False
    for _ in range(14):
        if any(v is x.ret for x in sers):
            return True, rewr
        if v.op in ("vf", "f"):
            v = v.a[0]
        elif v.op == "post":
            c = v.a[0]
            if any(c is x.ret for x in sers):
                return True, rewr
            if is_rew(e, c, rew, p) is not None:
                rewr = True
                v = c.a[1][int(v.a[1])]
                continue
            return False, rewr
        elif v.op == "call" and re.search(r"(take_buffer|branch|map_err|into_inner)$", v.a[0]):
            v = v.a[1][0]
        elif v.op == "phi":
            out = [saved(e, y, sers, rew, p) for y in alts(e, v)]
            return all(o[0] for o in out), all(o[1] for o in out)
        else:
            return False, rewr
    return False, rewr


def checked(e, x):
    return any(isinstance(l[0], Term) and any(s is x.ret for s in subterms(l[0])) for m in e.nodes for y, l in m.succ if l is not None) or any(contains_ret(e, t, x.ret) for r, t in rets(e))


# ------------------------------------------------------------------ commands
def commands(ck, p):
    core = lambda b, f: CORE.match(b.path) is not None
    n = 0
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.kind != "method" or not b.path.endswith("::execute") or not b.trait or CORE.match(b.path):
            continue
        uses = set()
        for y in c06.reach(p, b):
            if CORE.match(y.path):
                continue
            for f, sp, t in q.callees(p, y):
                m = re.search(r"Workspace::(serialize_model|serialize_to_json|create_from_model|deserialize_from_json)$", f["path"]) if f else None
                if m:
                    uses.add(m.group(1))
        if not uses:
            continue
        n += 1
        cmd = b.path.split("::")[-3].split(" ")[0] if False else re.search(r"(\w+)Command", b.path).group(1).lower()
        e = Engine(p, b, opaque=core)
        outs = []
        for x in e.events:
            if x.kind != "call":
                continue
            m = re.search(r"Workspace::(serialize_model|serialize_to_json)$", x.name)
            if m:
                outs.append(x)
                ws = [y for y in whole(e, x.args[0])]
                src = {y.a[0].split("::")[-1] if y.op == "call" else pp(y)[:60] for y in ws}
                want = {"new", "create_from_model", "deserialize_from_json"}
                ck.ob(f"{cmd}:{m.group(1)}:of-the-model", bool(ws) and src <= want, f"{b.path} saves something other than the model it loaded or trained: {sorted(src)}", q.loc(x))
                late = [y for y in q.after(e, x) if y.kind == "call" and re.search(r"Workspace::(learn|predict_then_learn)$", y.name)]
                ck.ob(f"{cmd}:{m.group(1)}:last", not late, f"{b.path} goes on learning after the model was saved", q.loc(x))
            m = re.search(r"Workspace::(create_from_model|deserialize_from_json)$", x.name)
            if m:
                src = [y for y in whole(e, x.args[0], files=True)]
                ok = bool(src) and all(y.op == "call" and re.search(r"fs::read$|read_to_end$|fs::read_to_string$", y.a[0]) and any(z.op in ("f", "vf") for z in subterms(y.a[1][0])) for y in src)
                ck.ob(f"{cmd}:{m.group(1)}:file", ok, f"{b.path} does not load the whole file it was given: {[pp(y)[:80] for y in src]}", q.loc(x))
        for o in outs:
            snk = [x for x in q.after(e, o) if x.kind == "call" and re.search(r"fs::write$|write_all$|_print$|to_writer", x.name) and any(payload_is(e, a, o.ret) for a in x.args)]
            ck.ob(f"{cmd}:written", bool(snk), f"{b.path} saves the model but never writes it out as it is", q.loc(o))
            miss = q.not_followed(e, o, lambda x: x in snk, lambda x: x.kind == "ret" and any(not fails(t) for t in alts(e, x.args[0])))
            ck.ob(f"{cmd}:written-always", not miss, f"{b.path} can succeed without writing the saved model", q.loc(o))
            for x in snk:
                if x.name.endswith("fs::write"):
                    pt = x.args[0]
                    names = {s.a[-1] for s in subterms(pt) if s.op in ("f", "vf")}
                    ck.ob(f"{cmd}:output-file", "output_model" in names, f"{b.path} writes the model to {pp(pt)[:80]}, not to the output model", q.loc(x))
    ck.floor("commands that save or load a model", n, 3)


def whole(e, t, files=False, seen=None):
    """calls a workspace (or file content) comes from, through mutation by learning, `?` and conversions"""
    seen = set() if seen is None else seen
    if t in seen:
        return []
    seen.add(t)
    if t.op == "phi":
        return [y for x in alts(e, t) for y in whole(e, x, files, seen)]
    if t.op in ("vf", "f"):
        return whole(e, t.a[0], files, seen)
    if t.op == "post":
        c = t.a[0]
        if c.op == "call" and re.search(r"Workspace::(learn|predict_then_learn|predict)$", c.a[0]):
            return whole(e, c.a[1][0], files, seen)
        return [c]
    if t.op == "call" and re.search(r"(branch|map_err|context|with_context|from_slice|from_str|deref|as_ref|as_slice|into|from)$", t.a[0]) and t.a[1]:
        return whole(e, t.a[1][0], files, seen)
    return [t]


def payload_is(e, t, r):
    """t carries exactly the payload of r (through formatting of the whole value and `?`)"""
    return any(s is r for s in c06.deep(e, t)) and not any(s.op == "bin" or s.op == "call" and re.search(r"(index|truncate|split|take|replace|get)$", s.a[0]) and any(y is r for y in subterms(s)) for s in c06.deep(e, t))
