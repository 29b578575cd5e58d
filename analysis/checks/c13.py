"""Coverage: every place that puts a features object back into a pool has, on every path, gone over all its namespaces and put each
back into the state a namespace starts with; nobody but the pool touches the pooled objects; every function that reads the namespaces
of a features object gives the same result, does the same and goes on in the same way whether or not an emptied namespace is left in
it; namespaces that are taken into use again start active, empty and under their own key; recycled text buffers are emptied before
they are used; parsers keep no other state between examples."""
import re
import q, tab, cfg
from engine import Engine, K, mk, pp, subterms, Term
from tab import rets, alts
import checks.c06 as c06
import checks.c08 as c08

QUANT = {"Iterator::any": c08.m_quant, "Iterator::all": c08.m_quant}
MUTABLE = re.compile(r"::(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Lazy|Mutex|RwLock|ReentrantMutex|Atomic\w+|Condvar|DashMap)$")


def run(ck):
    p = ck.prog()
    pool = next((a for a in p.adts if a.endswith("::object_pool::Pool")), None)
    sf = next((a for a in p.adts if a.endswith("::SparseFeatures")), None)
    if not ck.anchor("object pool", pool) or not ck.anchor("features", sf):
        return
    ns = mapf = None
    for v in p.adts[sf]["vs"]:
        for f in v["f"]:
            ty = p.adts[sf]["types"][f["t"]]
            for a in ty.a or ():
                if getattr(a, "k", None) == "adt" and a.adt in p.adts:
                    a2 = [g["n"] for g in p.adts[a.adt]["vs"][0]["f"]]
                    if len(p.adts[a.adt]["vs"]) == 1 and len(a2) > 1:
                        ns, mapf = a.adt, f["n"]
    if not ck.anchor("namespaces of a features object", ns):
        return
    X = Ctx(p, pool, sf, ns, mapf)
    pool_itself(ck, X)
    givers(ck, X)
    readers(ck, X)
    buffers(ck, X)
    stateless(ck, X)


class Ctx:
    def __init__(self, p, pool, sf, ns, mapf):
        self.p, self.pool, self.sf, self.ns, self.mapf = p, pool, sf, ns, mapf
        fs = {f["n"]: p.adts[ns]["types"][f["t"]] for f in p.adts[ns]["vs"][0]["f"]}
        self.vecs = [f for f, t in fs.items() if re.search(r"::(Vec|SmallVec|VecDeque|String)$", t.adt or "")]
        self.flags = [f for f, t in fs.items() if t.s == "bool"]
        self.methods = [b for b in p.bodies.values() if b.kind in ("fn", "method") and b.self_ty is not None and b.self_ty.isadt(pool)]
        # the type parameter of the pool by value: in or out
        self.put = [b for b in self.methods if b.argc >= 2 and any(b.lty(i).k == "param" for i in range(2, b.argc + 1)) and b.lty(1).k == "ref"]
        self.get = [b for b in self.methods if b.lty(0).k == "param" and b.argc == 1]


# ------------------------------------------------------------------ the pool
def pool_itself(ck, X):
    p = X.p
    ck.floor("ways into and out of the pool", min(len(X.put), len(X.get)), 1)
    fields = {f["n"] for v in p.adts[X.pool]["vs"] for f in v["f"]}
    for b in p.bodies.values():
        if b in X.methods or b.root is not None and any(b.root == m.id for m in X.methods):
            continue
        hit = [(f, sp) for a, f, m, sp in q.field_accesses(b) if a == X.pool]
        if hit and not any(b.path.startswith(m.path) for m in X.methods):
            ck.bad(f"pool:{b.path}", f"{b.path} reaches into the pool", hit[0][1])
    for b in X.get:
        e = Engine(p, b)
        for r, t in rets(e):
            s = t
            while s.op in ("vf", "f"):
                s = s.a[0]
            if s.op == "call" and re.search(r"Option::unwrap_or(_else|_default|)$", s.a[0]):
                dflt = s.a[1][1:]
                if dflt and dflt[0].op == "clo" and dflt[0].a[0] in p.bodies:
                    dflt = [v for rr, v in rets(Engine(p, p.bodies[dflt[0].a[0]]))]
                if not all(v.op == "call" and re.search(r"^default:|::(default|new)$", v.a[0]) for v in dflt):
                    s = dflt[0]
                else:
                    s = s.a[1][0]
            ok = s.op == "call" and re.search(r"^default:|(pop|pop_front|pop_back|remove|swap_remove|default)$", s.a[0])
            ck.ob(f"pool:{b.m or b.path.split('::')[-1]}", ok, f"{b.path} returns something that is neither a returned object nor a new one: {pp(t)[:120]}", q.loc(r))
    for b in X.put:
        e = Engine(p, b)
        par = {mk("par", b.lname(i) or f"p{i}") for i in range(2, b.argc + 1) if b.lty(i).k == "param"}
        ps = [x for x in e.events if x.kind in ("call", "elem") and re.search(r"(push|push_back|push_front|insert|extend|send)$", x.name)]
        ck.ob(f"pool:{b.path.split('::')[-1]}", all(x.args[-1] in par for x in ps), f"{b.path} stores something other than the object it is given", q.loc(ps[0]) if ps else "")


# ------------------------------------------------------------------ giving back
def elem_of_map(X, n):
    """(map term, element namespace term, iteration) when a next call runs over the namespaces of a features object"""
    r = n.ret
    if r is None or r.op != "call" or not r.a[1]:
        return None
    src = None
    for s in subterms(r.a[1][0]):
        if s.op == "f" and s.a[1] == X.mapf:
            src = s
        elif s.op == "ref" and s.a[1] and s.a[1][-1] == ("f", X.mapf):
            src = s
    return src


def belongs(t, el):
    return any(s is el for s in subterms(t))


def fieldref(t, fld):
    """t addresses field `fld`"""
    return t.op == "ref" and len(t.a[1]) >= 1 and t.a[1][-1] == ("f", fld) or t.op == "f" and t.a[1] == fld


def empties(X, e, n):
    """does the iteration n empty every element it takes?  -> list of complaints"""
    el = c08.nxt(n.ret)
    edges = [y for m in e.nodes for y, lab in m.succ if lab is not None and c08.is_next_edge(lab, n.ret, "Some")]
    bad = []

    def hits(fld, pred):
        ids = set()
        for x in e.events:
            if x.kind == "write" and x.args[0].op in ("ref", "mref") and fieldref(x.args[0], fld) and belongs(x.args[0], el):
                if pred(x.args[1]):
                    ids.add(id(x))
            elif x.kind == "call" and clears(x) and any(isinstance(r, Term) and fieldref(r, fld) and belongs(r, el) for r in x.refs or ()):
                ids.add(id(x))
        return ids

    emptyv = lambda v: v.op == "call" and v.a[0] in ("[]", "Vec::new", "Vec::with_capacity") and not (v.a[0] == "[]" and v.a[1])
    for f in X.vecs:
        ids = hits(f, emptyv)
        if not edges or not ids or c08.skips(e, n, edges, lambda lab: False, lambda m: any(id(x) in ids for x in m.events)):
            bad.append(f"{f} of a namespace is not emptied")
        late = [x for x in e.events if x.kind == "write" and x.args[0].op == "ref" and fieldref(x.args[0], f) and belongs(x.args[0], el) and not emptyv(x.args[1])]
        if late:
            bad.append(f"{f} of a namespace is changed")
    for f in X.flags:
        off = lambda v: v is K(False)
        ids = hits(f, off)
        if not edges or not ids or c08.skips(e, n, edges, lambda lab: flag_edge(lab, el, f) is False, lambda m: any(id(x) in ids for x in m.events)):
            bad.append(f"{f} of a namespace is not reset")
        late = [x for x in e.events if x.kind == "write" and x.args[0].op == "ref" and fieldref(x.args[0], f) and belongs(x.args[0], el) and not off(x.args[1])]
        if late:
            bad.append(f"{f} of a namespace is set")
    if c08.leaves_loop(e, n):
        bad.append("the pass over the namespaces can stop early")
    return bad


def clears(x):
    return re.search(r"::clear$", x.name) or re.search(r"::(truncate|resize)$", x.name) and x.args[1] is K(0)


def flag_edge(lab, el, f):
    """the value of the element's flag that the edge establishes"""
    c, v = lab
    if not isinstance(c, Term):
        return None
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    if c.op == "f" and c.a[1] == f and belongs(c, el) or c.op == "phi" and f".{f}" in pp(c):
        return bool(v) != neg
    if c.op == "bin" and c.a[0] in ("Eq", "Ne") and any(x.op == "f" and x.a[1] == f and belongs(x, el) for x in c.a[1:]):
        k = [x for x in c.a[1:] if x.op == "k"]
        if k and isinstance(k[0].a[0], bool):
            return ((c.a[0] == "Eq") == k[0].a[0]) == (bool(v) != neg)
    return None


def givers(ck, X):
    p = X.p
    puts = {b.path for b in X.put}
    n = 0
    for b in p.bodies.values():
        if b.kind not in ("fn", "method", "closure") or b in X.methods or "::tests::" in b.path or "::test::" in b.path:
            continue
        sites = [(f, sp) for f, sp, t in q.callees(p, b) if f and f["path"] in puts]
        sites = [(f, sp) for f, sp in sites if not text(b, f)]
        if not sites:
            continue
        e = Engine(p, b, opaque=lambda x, f: f["path"] in puts)
        xs = [x for x in e.events if x.kind == "call" and x.callee and x.callee["path"] in puts and not text(x.ctx.body, x.callee)]
        ck.ob(f"give:{b.path}:seen", len({x.span for x in xs}) >= 1, f"the object that {b.path} returns to the pool was not found")
        for x in xs:
            n += 1
            ok, why = emptied(X, e, x)
            ck.ob(f"give:{b.path}", ok, f"{b.path} returns an object to the pool that is not emptied: {why}", q.loc(x))
    ck.floor("places that return a features object", n, 1)


def text(b, f):
    """a pool of text buffers, which readers empty (decided separately)"""
    ts = [b.types[i] for i in f.get("a") or () if isinstance(i, int)]
    return any(t.k == "adt" and t.adt.endswith("string::String") for t in ts)


def emptied(X, e, x):
    obj = x.args[-1]
    # replaced by a new object
    if all(t.op == "call" and re.search(r"::(new|default)$", t.a[0]) or t.op == "agg" and t.a[0] == X.sf and pp(t.a[3][0]) == "[]()" for t in alts(e, obj)):
        return True, ""
    ns = [n for n in c08.nexts(e) if elem_of_map(X, n) is not None and iter_mut(n)]
    ns = [n for n in ns if q.after(e, n, None, None) and x in q.after(e, n, None, None)]
    why = "it is not gone over"
    if ns and all(t.op == "par" for t in alts(e, obj)):
        return False, "it is a copy made before its namespaces were gone over"
    for n in ns:
        w = empties(X, e, n)
        if w:
            why = "; ".join(w)
            continue
        # no way to the return without having completed the pass
        done = lambda lab: c08.is_next_edge(lab, n.ret, "None")
        if x in q.walk(e, None, None, done)[0]:
            why = "it can be returned without the pass over its namespaces"
            continue
        # nothing is put into it afterwards
        ends = [y for m in e.nodes for y, lab in m.succ if lab is not None and done(lab)]
        return True, ""
    # the map itself emptied
    cl = [y for y in e.events if y.kind == "call" and re.search(r"Map::clear$", y.name) and any(isinstance(r, Term) and fieldref(r, X.mapf) for r in y.refs or ())]
    if cl:
        ids = {id(y) for y in cl}
        if x not in q.walk(e, None, lambda y: id(y) in ids)[0]:
            return True, ""
        why = "it can be returned without being cleared"
    return False, why


def iter_mut(n):
    return any(s.op == "call" and s.a[0] in ("iter_mut",) or s.op == "call" and s.a[0].endswith(("iter_mut", "values_mut")) for s in subterms(n.ret.a[1][0]))


# ------------------------------------------------------------------ reading
PURE = re.compile(r"(::|^)(iter|into_iter|iter_mut|values|values_mut|keys|len|is_empty|next|deref|deref_mut|as_ref|as_mut|borrow|size_hint|cloned|copied|clone)$")
MAPOPS = re.compile(r"Map::(\w+)$|Entry::(\w+)$|IntoIterator::into_iter$")


def readers(ck, X):
    p = X.p
    bodies = []
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and any(a == X.sf and f == X.mapf for a, f, m, sp in q.field_accesses(b)):
            bodies.append(b)
    # iterators over namespaces that the library defines
    for i in p.impls_of("core::iter::traits::iterator::Iterator"):
        a = i["self_ty"].adt if i["self_ty"].k == "adt" else None
        if a in p.adts and any(X.ns.split("::")[-1] in p.adts[a]["types"][f["t"]].s and "btree" in p.adts[a]["types"][f["t"]].s for v in p.adts[a]["vs"] for f in v["f"]):
            for it in i["items"]:
                if it["m"] == "next" and it["id"] in p.bodies:
                    bodies.append(p.bodies[it["id"]])
    ck.floor("functions that read the namespaces", len(bodies), 10)
    for b in bodies:
        nm = "read:" + (f"{b.self_ty.adt.split('::')[-1]}::" if b.self_ty is not None and b.self_ty.k == "adt" else "") + (b.m or b.path.split("::")[-1])
        if b.derived:
            ck.ob(nm + ":derived", b.m in ("clone", "fmt", "clone_from") or b.trait and b.trait.endswith(("Clone", "Debug")), f"{b.trait} for a features object is derived: it sees the emptied namespaces of a recycled object")
            continue
        out = b.lty(0)
        if any(b.lty(i).isadt(X.ns) for i in range(1, b.argc + 1)) or own(out, X.ns):
            continue  # stores or hands out a namespace itself
        if out.k == "tuple" and not out.a and b.argc == 1:
            continue  # empties the object (decided where it is returned)
        reader(ck, X, b, nm)


def own(t, ns):
    return t.isadt(ns) or t.k == "adt" and t.isadt("core::option::Option") and any(getattr(a, "k", None) == "adt" and a.isadt(ns) for a in t.a or ())


def over_map(X, t):
    return any(s.op == "f" and s.a[1] == X.mapf or s.op == "ref" and s.a[1] and s.a[1][-1] == ("f", X.mapf) for s in subterms(t))


def reader(ck, X, b, nm):
    p = X.p
    e = Engine(p, b, models=QUANT)
    el_of = {}
    for n in c08.nexts(e):
        if over_map(X, n.ret) and not inner_vec(X, n.ret):
            el_of[n.ret] = n
    gets = {}
    for x in e.events:
        if x.kind == "call" and re.search(r"Map::(get|get_mut|get_key_value)$", x.name) and any(isinstance(r, Term) and over_map(X, r) for r in list(x.refs or ()) + list(x.args)):
            gets[id(x)] = x
        m = re.search(r"(BTreeMap|HashMap|IndexMap)::(\w+)$", x.name) if x.kind == "call" else None
        if m and any(isinstance(r, Term) and fieldref(r, X.mapf) for r in list(x.refs or ())[:1] + list(x.args)[:1]):
            ck.ob(f"{nm}:{m.group(2)}", m.group(2) in ("iter", "iter_mut", "values", "values_mut", "keys", "into_iter", "get", "get_mut", "entry", "insert", "remove", "is_empty", "clear"), f"{b.path} depends on the namespaces left in a recycled object ({m.group(2)})", q.loc(x))

    def live(lab, el):
        return quantified(lab) or live1(X, lab, el)

    def quantified(lab):
        """any/all over the namespaces: the result that emptied namespaces alone do not give"""
        c, v = lab
        if not (isinstance(c, Term) and c.op == "in" and c.a[0] in ("any", "all") and iterates(X, c.a[1])):
            return False
        return bool(v) == (c.a[0] == "any")

    for c in {lab[0] for m in e.nodes for y, lab in m.succ if lab is not None and isinstance(lab[0], Term) and lab[0].op == "in" and lab[0].a[0] in ("any", "all")}:
        if iterates(X, c.a[1]) and not filtered(X, c.a[1]):
            vs = ghost_values(X, c.a[2])
            ck.ob(f"{nm}:left-over", vs == {K(c.a[0] == "all")}, f"{b.path}: {c.a[0]} over the namespaces is decided by an emptied namespace that is left in a recycled object", b.path)
    for x in e.events:
        if x.kind != "call" or x.name == "next" or LAZY.search(x.name) or PURE.search(x.name):
            continue
        for a in x.args:
            if isinstance(a, Term) and iterates(X, a) and not filtered(X, a):
                clos = [z for z in x.args if isinstance(z, Term) and z.op == "clo"]
                ok = re.search(r"(for_each|fold|try_for_each|try_fold)$", x.name) and clos and all(not ghost_effects(X, z) for z in clos)
                ck.ob(f"{nm}:left-over", ok or yields_nothing(X, a), f"{b.path} goes over the emptied namespaces left in a recycled object ({x.name})", q.loc(x))

    for r, n in el_of.items():
        el = c08.nxt(r)
        starts = [y for m in e.nodes for y, lab in m.succ if lab is not None and c08.is_next_edge(lab, r, "Some")]
        bad = effects(X, e, starts, lambda lab: live(lab, el), r, el)
        ck.ob(f"{nm}:left-over", not bad, f"{b.path} notices an emptied namespace that is left in a recycled object: {show(bad)}", q.loc(bad) if bad else "")
    for x in gets.values():
        g = x.ret
        if g is None:
            g = next((c.a[0] for m in e.nodes for y, l in m.succ if l is not None for c in [l[0]] if isinstance(c, Term) and c.op == "discr" and c.a[0].op == "call" and re.search(r"::(get|get_mut)$", c.a[0].a[0]) and over_map(X, c.a[0])), None)
        if g is None:
            g = next((z for r, t in rets(e) for z in subterms(t) if z.op == "call" and re.search(r"::(get|get_mut)$", z.a[0]) and over_map(X, z)), None)
        if g is None:
            continue
        el = mk("vf", g, "Some", "0")
        some = [y for m in e.nodes for y, lab in m.succ if lab is not None and c08.is_next_edge(lab, g, "Some")]
        none = [y for m in e.nodes for y, lab in m.succ if lab is not None and c08.is_next_edge(lab, g, "None")]
        rn = results(e, none, lambda lab: False)
        if none and not rn:
            continue  # only ever asked for a namespace that is there
        rs = results(e, some, lambda lab: live(lab, el))
        if not some and not none:
            # handed out as it is
            hand = [t for r, t in rets(e) if any(s is g for s in subterms(t))]
            ck.ob(f"{nm}:left-over", not hand, f"{b.path} hands out an emptied namespace that is left in a recycled object")
            continue
        ck.ob(f"{nm}:left-over", rs <= rn, f"{b.path} treats an emptied namespace left in a recycled object differently from one that is not there: {[pp(t)[:60] for t in rs - rn]}", q.loc(x))
    # is_empty of the map
    for m in e.nodes:
        for y, lab in m.succ:
            c = lab[0] if lab is not None else None
            if isinstance(c, Term) and over_map(X, c) and (c.op == "call" and c.a[0].endswith("is_empty") or c.op == "bin" and any(z.op == "len" for z in c.a[1:])) and not el_of.keys() & set(subterms(c)):
                t1 = results(e, [y], lambda l: quantified(l) or any(live(l, c08.nxt(r)) for r in el_of))
                t2 = set()
                for y2, lab2 in m.succ:
                    if y2 is not y:
                        t2 |= results(e, [y2], lambda l: quantified(l) or any(live(l, c08.nxt(r)) for r in el_of))
                ck.ob(f"{nm}:count", t1 == t2, f"{b.path} depends on whether a recycled object has emptied namespaces left", e.entry.path)
    for r, t in rets(e):
        if t.op == "call" and t.a[0].endswith(("is_empty", "len")) and over_map(X, t) or t.op == "len" and over_map(X, t) or t.op == "bin" and any(z.op == "len" and over_map(X, z) for z in t.a[1:]):
            ck.bad(f"{nm}:count", f"{b.path} counts the emptied namespaces left in a recycled object", q.loc(r))
    # taking a namespace into use
    ent = [x for x in e.events if x.kind == "call" and re.search(r"Map::entry$", x.name)]
    if ent:
        taken(ck, X, e, b, nm, ent)
    # iterators that are returned unfinished
    for r, t in rets(e):
        lazy(ck, X, b, nm, t, r)


def live1(X, lab, el):
    """an edge that an emptied, inactive namespace does not take"""
    c, v = lab
    if not isinstance(c, Term):
        return False
    for f in X.flags:
        if flag_edge(lab, el, f) is True:
            return True
    if c.op == "discr" and v == "Some" and c.a[0].op == "call" and c.a[0].a[0] == "next" and belongs(c.a[0], el) and inner_vec(X, c.a[0]):
        return True
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    if c.op == "bin" and any(x.op in ("len",) and belongs(x, el) or x.op == "call" and x.a[0].endswith("len") and belongs(x, el) for x in c.a[1:]) and any(x is K(0) for x in c.a[1:]):
        z = {"Eq": True, "Ne": False, "Gt": False, "Lt": False, "Ge": True, "Le": True}.get(c.a[0])
        return z is not None and (bool(v) != neg) != z
    if c.op == "call" and c.a[0].endswith("is_empty") and belongs(c, el):
        return not (bool(v) != neg)
    return False


LAZY = re.compile(r"(::|^)(filter|map|flat_map|filter_map|take|skip|zip|enumerate|peekable|by_ref|copied|cloned|chain|rev|flatten|inspect|take_while|skip_while|size_hint)$")


def iterates(X, t):
    return any(s.op == "call" and (s.a[0] in ("iter", "iter_mut") or re.search(r"Map::(iter|iter_mut|values|values_mut|into_iter|into_values|keys)$", s.a[0])) and over_map(X, s) and not inner_vec2(X, s) for s in unstarted(t))


def unstarted(t):
    """subterms, but not the iterators that elements were taken from"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term):
            continue
        yield x
        if x.op == "call" and (x.a[0] == "next" or x.a[0].endswith("::next")):
            continue
        for y in x.a:
            if isinstance(y, Term):
                st.append(y)
            elif isinstance(y, (list, tuple)):
                st += [z for z in y if isinstance(z, Term)]


def inner_vec2(X, s):
    return any(z.op == "f" and z.a[1] in X.vecs for z in subterms(s))


def closures_of(t, names):
    """closures given to the adaptors `names` anywhere in the iterator t"""
    out = []
    for s in subterms(t):
        if s.op == "agg" and re.search(names + "$", s.a[0].split("::")[-1].lower()):
            out += [v for v in s.a[3] if v.op == "clo"]
        elif s.op == "call" and re.search(names + "$", s.a[0].lower()):
            out += [v for v in s.a[1] if v.op == "clo"]
    return out


def filtered(X, t):
    """is the iteration restricted to active namespaces?"""
    for c in closures_of(t, "(filter)"):
        if ghost_values(X, c) == {K(False)}:
            return True
    for c in closures_of(t, "(filter_?map)"):
        vs = ghost_values(X, c)
        if vs and all(v.op == "agg" and v.a[1] == "None" for v in vs):
            return True
    return False


def yields_nothing(X, t):
    """flat_map(|ns| its features)"""
    for c in closures_of(t, "(flat_?map)"):
        vs = ghost_values(X, c)
        if vs and all(any(s2.op == "f" and s2.a[1] in X.vecs for s2 in subterms(v)) and not any(s2.op == "f" and s2.a[1] in X.flags for s2 in subterms(v)) for v in vs):
            return True
    return False


def clo_engine(X, c):
    b = X.p.bodies.get(c.a[0])
    if b is None:
        return None
    d = X.__dict__.setdefault("clos", {})
    if b.id not in d:
        d[b.id] = Engine(X.p, b)
    return d[b.id]


def ghost_values(X, c):
    """what the closure can return for an emptied, inactive namespace"""
    e = clo_engine(X, c)
    if e is None:
        return set()
    seen = {e.start}
    st = [e.start]
    out = set()
    while st:
        m = st.pop()
        for x in m.events:
            if x.kind == "ret":
                for v in alts(e, x.args[0]):
                    neg = False
                    while v.op == "un" and v.a[0] == "Not":
                        v, neg = v.a[1], not neg
                    if v.op == "f" and v.a[1] in X.flags:
                        v = K(neg)
                    elif v.op == "bin" and v.a[0] in ("Eq", "Ne") and any(z.op == "f" and z.a[1] in X.flags for z in v.a[1:]) and any(z in (K(True), K(False)) for z in v.a[1:]):
                        k = next(z for z in v.a[1:] if z in (K(True), K(False)))
                        v = K(((v.a[0] == "Eq") == (k is K(False))) != neg)
                    elif v.op == "bin" and v.a[0] in ("Eq", "Ne", "Gt") and any(lenof(X, z) for z in v.a[1:]) and v.a[2] is K(0):
                        v = K((v.a[0] == "Eq") != neg)
                    elif neg and v in (K(True), K(False)):
                        v = K(v is K(False))
                    elif v.op == "bin" and v.a[0] in ("BitAnd", "BitOr"):
                        v = v
                    out.add(v)
        for y, lab in m.succ:
            if lab is not None and isinstance(lab[0], Term) and any_live(X, lab):
                continue
            if y not in seen:
                seen.add(y)
                st.append(y)
    return out


def lenof(X, z):
    return (z.op == "len" or z.op == "call" and z.a[0].endswith("len")) and any(s.op == "f" and s.a[1] in X.vecs for s in subterms(z))


def any_live(X, lab):
    """live1 for the element a closure is given"""
    pars = [s for s in subterms(lab[0]) if s.op in ("par", "f", "vf", "cbarg")]
    return any(live1(X, lab, s) for s in pars if s.op in ("par", "cbarg"))


def ghost_effects(X, c):
    e = clo_engine(X, c)
    if e is None:
        return True
    bad = effects(X, e, [e.start], lambda lab: any_live(X, lab), None, None)
    return bad is not None and bad.kind != "ret"


def inner_vec(X, r):
    """iteration over the features inside a namespace"""
    a = r.a[1][0]
    return any(s.op == "f" and s.a[1] in X.vecs for s in subterms(a))


def show(x):
    return f"{x.kind} {x.name}" if x is not None else ""


def results(e, starts, stop):
    out = set()
    seen = set(starts)
    st = list(starts)
    while st:
        m = st.pop()
        for x in m.events:
            if x.kind == "ret":
                out |= set(alts(e, x.args[0]))
            if x.kind in ("write",):
                out.add(mk("in", "write", x.args[0]))
        for y, lab in m.succ:
            if lab is not None and isinstance(lab[0], Term) and stop(lab):
                continue
            if y not in seen:
                seen.add(y)
                st.append(y)
    return out


def effects(X, e, starts, stop, r, el):
    """first thing done on the way from an element back to the next one"""
    seen = set(starts)
    st = list(starts)
    while st:
        m = st.pop()
        end = False
        for x in m.events:
            if x.kind == "call" and r is not None and x.ret is r:
                end = True
                break
            if x.kind == "call" and (PURE.search(x.name) or re.search(r"::(filter|map|take|skip|zip|enumerate|peekable|by_ref)$", x.name)):
                continue
            if x.kind == "drop":
                continue
            if x.kind == "call" and x.ret is not None and not any(re_mut(z) for z in x.refs or ()):
                continue  # a value is computed; what depends on it is looked at by itself
            return x
        if end:
            continue
        for y, lab in m.succ:
            if lab is not None and isinstance(lab[0], Term) and stop(lab):
                continue
            if y not in seen:
                seen.add(y)
                st.append(y)
    return None


def re_mut(z):
    return isinstance(z, Term) and z.op == "ref" and z.a[2]


def taken(ck, X, e, b, nm, ent):
    """entry(key).or_insert(..): the namespace becomes active, keeps its features and belongs to its key"""
    p = X.p
    key = ent[0].args[1]
    ins = [x for x in e.events if x.kind == "call" and re.search(r"Entry::(or_insert|or_insert_with|or_default|or_insert_with_key|insert)\w*$", x.name)]
    for x in ins:
        vs = [s for s in subterms(x.args[-1]) if s.op == "agg" and s.a[0] == X.ns]
        if x.args[-1].op == "clo":
            c = p.bodies.get(x.args[-1].a[0])
            ec = Engine(p, c) if c is not None else None
            vs = [t for r, t in rets(ec) if t.op == "agg" and t.a[0] == X.ns] if ec else []
            okey = lambda v: True
        else:
            okey = lambda v: v is key
        ok = bool(vs)
        for v in vs:
            d = dict(zip(v.a[2], v.a[3]))
            ok = ok and all(d[f].op == "call" and d[f].a[0] in ("[]", "Vec::new", "Vec::with_capacity") for f in X.vecs)
            ok = ok and all(okey(w) for f, w in d.items() if f not in X.vecs and f not in X.flags)
        ck.ob(f"{nm}:new", ok, f"{b.path} creates a namespace that is not empty or not its key's: {pp(x.args[-1])[:120]}", q.loc(x))
    for f in X.flags:
        on = [x for x in e.events if x.kind == "write" and fieldref(x.args[0], f) and x.args[1] is K(True)]
        ids = {id(x) for x in on}
        later = q.not_preceded(e, lambda x: x.kind == "ret", lambda x: id(x) in ids, lambda lab: known_on(lab, f))
        off = [x for x in e.events if x.kind == "write" and fieldref(x.args[0], f) and x.args[1] is not K(True)]
        if b.lty(0).k == "ref":
            ck.ob(f"{nm}:{f}", on and not later and not off, f"{b.path} can hand out a namespace of a recycled object without making it {f}")


def known_on(lab, f):
    c, v = lab
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    return c.op in ("f", "phi", "in") and pp(c).endswith(f".{f}") and bool(v) != neg


def lazy(ck, X, b, nm, t, r):
    p = X.p
    its = [s for s in subterms(t) if s.op == "call" and s.a[0] in ("iter", "iter_mut", "BTreeMap::values", "BTreeMap::iter") and over_map(X, s)]
    if not its:
        return
    clos = [s for s in subterms(t) if s.op == "clo"]
    for c in clos:
        cb = p.bodies.get(c.a[0])
        if cb is None:
            continue
        ec = Engine(p, cb)
        for rr, v in rets(ec):
            s = pp(v)
            if v.op == "f" and v.a[1] in X.flags:
                return  # filtered by activity
            ok = any(s2.op == "f" and s2.a[1] in X.vecs for s2 in subterms(v)) and not any(s2.op == "f" and s2.a[1] in X.flags for s2 in subterms(v))
            ck.ob(f"{nm}:lazy", ok, f"{b.path} yields something for the emptied namespaces of a recycled object: {s[:100]}", q.loc(r))


# ------------------------------------------------------------------ text buffers
def buffers(ck, X):
    p = X.p
    tr = cfg.trait(p, "TextModeParser")
    n = 0
    for b in p.bodies.values():
        if not (b.kind == "method" and b.trait == tr and b.m == "get_next_chunk"):
            continue
        k = [i for i in range(1, b.argc + 1) if b.lty(i).k == "adt" and b.lty(i).adt.endswith("string::String")]
        if not ck.ob(f"buffer:{b.self_ty.adt.split('::')[-1]}", len(k) == 1, f"{b.path} takes no buffer"):
            continue
        par = mk("par", b.lname(k[0]) or f"p{k[0]}")
        e = Engine(p, b)
        n += 1
        bad = []
        for x in e.events:
            if x.kind == "drop" or x.kind == "call" and (re.search(r"(String|Vec)::(capacity|reserve)$", x.name) or clears(x)):
                continue
            args = [a for a in x.args if isinstance(a, Term)]
            if any(par in c06.deep(e, a) for a in args):
                bad.append(x)
        ck.ob(f"buffer:{b.self_ty.adt.split('::')[-1]}:emptied", not bad, f"{b.path} uses a recycled buffer before emptying it", q.loc(bad[0]) if bad else "")
    ck.floor("readers into a recycled buffer", n, 3)


# ------------------------------------------------------------------ state between examples
def stateless(ck, X):
    p = X.p
    tr = cfg.trait(p, "TextModeParser")
    types = sorted({i["self_ty"].adt for i in p.impls_of(tr) if i["self_ty"].k == "adt"})
    ck.floor("parsers", len(types), 3)
    for a in types:
        hit = hidden(p, a, X.pool, set())
        ck.ob(f"state:{a.split('::')[-1]}", not hit, f"{a} can keep something from one example to the next: {hit}")
    for b in p.bodies.values():
        if b.kind == "method" and b.trait == tr and b.m == "parse_chunk":
            ck.ob(f"state:{b.self_ty.adt.split('::')[-1]}:shared", b.lty(1).k == "ref" and not b.lty(1).mut, f"{b.path} can change the parser")
            for m in c06.reach(p, b):
                if not m.crate.startswith(("reductionml", "reml")):
                    continue
                hit = [x for x in statics(p, m) if MUTABLE.search(x.split("<")[0]) or any(MUTABLE.search(y) for y in re.findall(r"[\w:]+", x))]
                loc = [f["path"] for f, sp, t in q.callees(p, m) if f and re.search(r"LocalKey", f["path"])]
                if hit or loc:
                    ck.bad(f"state:{m.path}", f"{m.path}, used for parsing, keeps state between examples: {(hit + loc)[0]}")


def statics(p, b):
    """types of the statics a body mentions"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if "static" in x:
                s = (p.bodies.get(x["static"]) or p.by_path.get(x["static"])) if isinstance(x["static"], str) else None
                out.append(s.lty(0).s if s is not None else str(x["static"]))
            for v in x.values():
                go(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                go(v)

    for bb in b.bb:
        if not bb.get("cl"):
            go(bb["s"])
            go(bb["t"])
    return out


def hidden(p, a, pool, seen):
    """a field through which a shared value can be changed"""
    if a in seen or a == pool or a not in p.adts:
        return None
    seen.add(a)
    for v in p.adts[a]["vs"]:
        for f in v["f"]:
            t = p.adts[a]["types"][f["t"]]
            h = hidden_ty(p, t, pool, seen)
            if h:
                return f"{f['n']}: {h}"
    return None


def hidden_ty(p, t, pool, seen):
    if t.k == "adt":
        if t.adt == pool:
            return None
        if MUTABLE.search(t.adt):
            return t.s
        h = hidden(p, t.adt, pool, seen)
        if h:
            return h
    if t.k == "ref" and t.mut:
        return t.s
    if t.k == "ptr":
        return t.s
    for x in t.a or ():
        if hasattr(x, "k"):
            h = hidden_ty(p, x, pool, seen)
            if h:
                return h
    return None
