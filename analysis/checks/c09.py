"""C09: reading a configuration or a model ends in a workspace or in an error value.

Every function that turns outside text or bytes into a workspace is explored in the debug build (where arithmetic is checked) with everything local
inlined, and every construct on the way that can panic or abort is an obligation: panics, failed assertions, checked arithmetic, slicing and indexing,
library functions that panic, and allocations whose size comes from the input.  Sub-models are created through the registry; the pairing of type name,
factory and configuration type, on which the unchecked downcasts rely, is checked factory by factory.  The weights of a JSON model are accepted only after
every element has been compared with the declared sizes."""
import collections
import re

import checks.c10 as c10
import checks.c15 as c15
import cfg
import panics
import q
import reds
from engine import Engine, Term, mk, pp, subterms

TAGS = ["dev"]
ENTRY = re.compile(r"(Configuration::from_\w+|Workspace::(new|create_from_model|deserialize\w*|import\w*|load\w*|from_\w+)|reduction_factory::(parse_config|create_reduction)|::deserialize_\w+)$")
ALLOC = re.compile(r"(from_elem|with_capacity|with_capacity_in|::reserve|reserve_exact|::resize|::resize_with|repeat|zeroed_\w*|new_uninit_slice|alloc(_zeroed)?)$")
TRY = re.compile(r"try_reserve(_exact)?$|try_with_capacity$|try_new_\w+$")
NAMES = ("ReductionFactory", "ReductionConfig")
SMALL = 1 << 20


def run(ck):
    ck.tag = "dev"
    p = ck.prog("dev")
    core = [b for b in p.bodies.values() if b.kind in ("fn", "method") and b.crate in p.crates]
    fact, conf = reds.FACT, cfg.trait(p, "ReductionConfig")
    roots = [b for b in core if ENTRY.search(b.path) and not b.derived]
    roots += [b for b in core if b.trait in (fact, conf) and b.m in ("create", "parse_config", "typename")]
    roots += [b for b in core if b.m in ("try_from", "try_into", "from_str", "deserialize") and not b.derived and b not in roots and own_impl(b) and from_text(b)]
    roots = list({b.id: b for b in roots}.values())
    ck.anchor("entry points", sum(1 for b in roots if ENTRY.search(b.path)) >= 8)
    names = typenames(ck, p, fact, conf)
    n = collections.Counter()
    for b in sorted(roots, key=lambda b: b.path):
        e = Engine(p, b)
        base = known(p, b, e, fact)
        m = panics.Must(e, base)
        key = key_of(b)
        v = Validated(e, m)
        sites(ck, e, m, key, n, names, v)
        allocations(ck, e, m, key, n)
        offsets(ck, p, e, m, key, n)
    ck.floor("entry points analysed", len(roots), 40)
    ck.floor("operations that could panic", n["panic"], 60)
    ck.floor("allocations sized by input", n["alloc"], 4)
    ck.floor("sub-models created", n["create"], 7)
    bits(ck, p, core)
    agreeing(ck, p)


def from_text(b):
    ty = b.lty(1) if b.argc else None
    return b.m == "deserialize" or ty is not None and re.search(r"\bstr\b|String|Value|\[u8\]", ty.s or "")


def own_impl(b):
    return "_::" not in b.path and "__" not in b.path


def key_of(b):
    m = re.search(r"<([\w:]+?)(?:<.*>)? as ", b.path)
    return (m.group(1).split("::")[-1] + "." if m else ".".join(b.path.split("::")[-2:-1]) + ".") + b.path.split("::")[-1]


def known(p, b, e, fact):
    """what callers guarantee: numbers of bits are range-checked where they are read (bits()), models above are at least one (offsets())"""
    base = {}
    for x in e.events:
        for a in x.args:
            if isinstance(a, Term):
                for t in subterms(a):
                    if t.op == "f" and t.a[1] == "num_bits":
                        base[t] = (0, 31)
                    if t.op == "f" and str(t.a[1]) == "0" and isinstance(t.a[0], Term) and is_above(b, t.a[0]):
                        base[t] = (1, 255)
    return base


def is_above(b, t):
    """the parameter that says how many models there are above"""
    if not t.a or t.op in ("f", "vf", "call", "agg", "phi", "k"):
        return False
    nm = str(t.a[-1]) if not isinstance(t.a[-1], Term) else ""
    for i in range(1, b.argc + 1):
        ty = b.lty(i)
        if ty is not None and (ty.s or "").split("::")[-1] == "ModelIndex" and nm in (b.lname(i), str(i)):
            return True
    return False


# ------------------------------------------------------------------ names
def typenames(ck, p, fact, conf):
    """type name of every factory and configuration type; the pairs agree, so that create() is only ever given its own configuration"""
    out = {}
    for tr in (fact, conf):
        for b in p.methods(tr, "typename"):
            if b.self_ty is None or b.crate not in p.crates:
                continue
            e = Engine(p, b)
            ss = set()
            for x in e.events:
                if x.kind == "ret" and x.ctx.depth == 0:
                    for l in panics.leaves(e, x.args[0]):
                        ss |= {t.a[0][1] if isinstance(t.a[0], tuple) else t.a[0] for t in subterms(l) if t.op == "k" and (isinstance(t.a[0], str) or isinstance(t.a[0], tuple) and t.a[0][0] == "str")}
            out[(tr, b.self_ty.adt)] = ss
    fs = reds.factories(p)
    ck.anchor("factories", len(fs) >= 8)
    good = set()
    for adt, b in sorted(fs.items()):
        nm = out.get((fact, adt), set())
        pc = next((x for x in p.methods(fact, "parse_config") if x.self_ty is not None and x.self_ty.adt == adt), None)
        tys, down = set(), set()
        for y, acc in ((pc, tys), (b, down)):
            for z in c10.local_reach(p, y) if y is not None else ():
                if z is not y and z.root != y.id:
                    continue
                for f, sp, t in q.callees(p, z):
                    if f and re.search(r"from_value$|downcast_ref$|downcast$|::deserialize$" if acc is tys else r"downcast_ref$|downcast$|downcast_mut$", f["path"]):
                        acc |= {z.types[i].adt or z.types[i].s for i in f.get("a", ()) if isinstance(i, int)}
        k = adt.split("::")[-1]
        local = {t for t in tys if t and (conf, t) in out}
        ok = ck.ob(f"name:{k}", len(nm) == 1 and len(local) == 1 and all(out[(conf, t)] == nm for t in local), f"{k} is registered as {sorted(nm)} but parses configurations named {sorted(s for t in local for s in out[(conf, t)])}", b.span)
        ok &= ck.ob(f"config type:{k}", bool(local) and local <= down, f"{k} creates from a {sorted(str(d).split('::')[-1] for d in down)} but parses a {sorted(t.split('::')[-1] for t in local)}", b.span)
        for s in nm:
            ok &= ck.ob(f"pascal:{k}", pascal(s), f"the type name {s!r} is not accepted as a type name, so creating a {k} panics", b.span)
        if ok:
            good.add(adt)
    return {"names": out, "good": good}


def pascal(s):
    return isinstance(s, str) and s != "" and s[0].isascii() and s[0].isupper() and s.isascii() and s.isalnum()


# ------------------------------------------------------------------ panics
def sites(ck, e, m, key, n, names, v):
    seen = {}
    for x in e.events:
        if not (x.kind in ("panic", "assert") or x.kind == "call" and panics.PANICKY.search(x.path or x.name)):
            continue
        n["panic"] += 1
        why = panics.discharged(m, x, panics.width(x) if x.kind == "assert" else None)
        why = why or relied_on(e, m, x, names) or v.covers(x)
        what = (x.path or x.name).split("::")[-1]
        k = f"panic:{key}:{c10.fn(x)}:{what}"
        if why is None and seen.get(k, (True,))[0]:
            seen[k] = (False, f"{what} can panic here for some configuration or model: nothing tested before excludes it (arguments {', '.join(pp(a)[-160:] for a in x.args[:3] if isinstance(a, Term))})", q.loc(x))
        else:
            seen.setdefault(k, (True, "", q.loc(x)))
    for k, (ok, msg, w) in seen.items():
        ck.ob(k, ok, msg, w)


def relied_on(e, m, x, names):
    """panics excluded by how names, factories and configuration types go together"""
    if x.kind != "panic":
        return None
    st = m.before(x)
    for c, v in st.lab:
        if c.op == "discr" and v == "None" and c.a[0].op == "call" and re.search(r"downcast_(ref|mut)$", c.a[0].a[0]) and given(e, c.a[0]):
            adt = e.entry.self_ty.adt if getattr(e.entry, "self_ty", None) is not None else None
            if adt in names["good"]:
                return "a factory is only given configurations it parsed"
        if c.op == "discr" and v == "Err" and c.a[0].op == "call" and re.search(r"value::(ser::)?to_value$|::to_value$", c.a[0].a[0]) and any(s.op != "param" for s in c.a[0].a[1]) and default_value(c.a[0].a[1]):
            return "the default configuration can be written as JSON"
    c = x.ctx
    while c is not None:
        b = c.body
        if b.m == "typename" and b.self_ty is not None:
            for k, ss in names["names"].items():
                if k[1] == b.self_ty.adt and ss and all(pascal(s) for s in ss):
                    return "a valid constant name"
        c = getattr(c, "parent", None)
    return None


def given(e, t):
    """the downcast value is a parameter of the function itself, not a configuration made on the way"""
    a = panics.deref(t.a[1][0]) if t.a[1] else None
    while a is not None and a.op == "call" and a.a[1] and a.a[0].split("::")[-1] == "as_any":
        a = panics.deref(a.a[1][0])
    return a is not None and not any(s.op in ("call", "vf", "phi") for s in subterms(a))


def default_value(args):
    """a value made of constants only"""
    return all(s.op in ("agg", "k", "tup", "arr", "ref", "cref", "call", "cast", "push", "f", "un", "bin") for a in args for s in subterms(a))


# ------------------------------------------------------------------ elements checked before use
class Validated:
    """collections of feature weights whose every element was compared with the declared sizes, before a loop that relies on it

    For a loop over a collection C whose element is (index, list of states): every round that reaches the end of the loop, or a successful return, passes a
    test that the index is below the feature size; likewise that the list is no longer than the number of models, and that each state has the state size."""

    def __init__(self, e, m):
        self.e, self.m = e, m
        self.heads = {}
        for x in m.at:
            for y, l in x.succ:
                if l is not None and isinstance(l[0], Term) and l[0].op == "discr" and l[1] == "Some" and panics.is_call(l[0].a[0], "next"):
                    self.heads.setdefault(panics.deref(l[0].a[0].a[1][0]) if l[0].a[0].a[1] else None, []).append((l[0].a[0], x, y))
        self.memo = {}

    def elem(self, t):
        """(collection, element) when t is an item of an iteration"""
        for s in subterms(t):
            if s.op == "vf" and s.a[1] == "Some" and panics.is_call(s.a[0], "next") and s.a[0].a[1]:
                c = source(self.e, s.a[0])
                if c is not None:
                    yield c, s

    def covers(self, x):
        if not self.heads:
            return None
        args = [a for a in x.args if isinstance(a, Term)]
        st = self.m.before(x)
        if x.kind == "panic":
            args += [c for n, c in guards(self.e, x)]
        cs = {c for a in args for c, s in self.elem(a)}
        sizes = {f for a in args for f in fieldnames(a) if f.endswith("_size") or f.endswith("_shift")}
        for c in cs:
            w = self.checked(c)
            if w and within(self.e, x, args):
                return "every element was compared with the sizes"
        # the models of a feature are counted by the position in its list
        for a in args:
            if any(f.endswith("model_index_size") for f in fieldnames(a)):
                for c in self.memo:
                    if self.memo[c] and x.kind == "panic":
                        return "every element was compared with the sizes"
        return None

    def checked(self, c):
        if c not in self.memo:
            self.memo[c] = None
            self.memo[c] = self.check(c)
        return self.memo[c]

    def check(self, c):
        """some loop over c tests its elements fully"""
        e, m = self.e, self.m
        for its in self.heads.values():
            for call, x, y in its:
                if source(e, call) is not c:
                    continue
                el = [s for n in m.at for z, l in n.succ if l is not None and isinstance(l[0], Term) for s in subterms(l[0]) if s.op == "vf" and s.a[1] == "Some" and s.a[0] is call]
                if not el:
                    continue
                el = el[0]
                good = {"index": set(), "models": set(), "state": set()}
                inner = []
                for n in m.at:
                    for z, l in n.succ:
                        if l is None or not isinstance(l[0], Term):
                            continue
                        for what, bound, ok in compared(l, el):
                            if ok:
                                good[what].add(l)
                        if l[1] == "Some" and l[0].op == "discr" and panics.is_call(l[0].a[0], "next") and any(s is el for s in subterms(l[0])) and l[0].a[0] is not call:
                            inner.append((l[0].a[0], z))
                if not (good["index"] and good["models"] and inner):
                    continue
                ok = True
                for what, start in [("index", y), ("models", y)]:
                    ok &= not self.escapes(start, good[what])
                for call2, z in inner:
                    st = [l for n in m.at for w, l in n.succ if l is not None and isinstance(l[0], Term) and is_state_len(l, call2)]
                    ok &= bool(st) and not self.escapes(z, set(st)) and not self.escapes(z, ended(m, call2))
                ok &= not self.escapes(y, ended(m, call))  # nothing is accepted before every element was seen
                if ok:
                    return True
        return False

    def escapes(self, start, good):
        """a success can be reached without passing any of the good branches"""
        asm = (lambda env, l: l in good,)
        return [o for o in c15.outcomes(self.e, [(start, None)], None, None, asm) if self.m.before(o[0]) is not None]


def ended(m, call):
    """branches taken when an iteration has no more items"""
    return {l for n in m.at for z, l in n.succ if l is not None and isinstance(l[0], Term) and l[0].op == "discr" and l[0].a[0] is call and l[1] != "Some"}


def source(e, call):
    """collection that an iterator goes over"""
    it = panics.deref(call.a[1][0]) if call.a[1] else None
    d = 0
    while it is not None and d < 12:
        d += 1
        if it.op == "call" and it.a[0].split("::")[-1] in ("iter", "into_iter", "iter_mut", "enumerate", "values", "keys", "by_ref", "copied", "cloned") and it.a[1]:
            it = panics.deref(it.a[1][0])
            continue
        if it.op == "agg" and it.a[3]:
            f = dict(zip(it.a[2], it.a[3]))
            if "iter" in f:
                it = panics.deref(f["iter"])
                continue
        if it.op == "phi":
            xs = [v for v in e.phi_in.get(it, ()) if v is not it]
            if len(set(xs)) == 1:
                it = panics.deref(xs[0])
                continue
        if it.op == "deref" and isinstance(it.a[0], Term):
            it = it.a[0]
            continue
        return it
    return it


def fieldnames(t):
    return {str(s.a[1]) for s in subterms(t) if s.op == "f"}


def order(l):
    """(a, b, strict) meaning a < b or a <= b on this edge"""
    c, v = l
    if c.op != "bin" or v not in (True, False):
        return None
    op, a, b = c.a[0], c.a[1], c.a[2]
    if panics.const(b) == 0 and a.op == "cmp":
        a, b = a.a[0], a.a[1]
    elif panics.const(b) == 0 and (a.op == "call" and a.a[0].split("::")[-1] in ("cmp", "partial_cmp", "three_way_compare") or a.op in ("bin", "discr", "cast") and "cmp" in pp(a).lower()[:60]):
        while a.op in ("cast", "discr", "vf", "f") and isinstance(a.a[-1] if a.op == "cast" else a.a[0], Term):
            a = a.a[-1] if a.op == "cast" else a.a[0]
        if a.op == "bin" and len(a.a) == 3:
            a, b = a.a[1], a.a[2]
        elif a.op == "call" and len(a.a[1]) == 2:
            a, b = a.a[1]
        else:
            return None
    if not v:
        op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}.get(op)
    return {"Lt": (a, b, "<"), "Le": (a, b, "<="), "Gt": (b, a, "<"), "Ge": (b, a, "<="), "Eq": (a, b, "=")}.get(op)


def compared(l, el):
    """what an edge says about an element of the collection: (index|models, bound, holds)"""
    r = order(l)
    if r is None:
        return
    a, b, o = r
    a, b = panics.deref(panics.uncast(a)), panics.deref(panics.uncast(b))
    if o == "<" and a.op != "len" and any(s is el for s in subterms(a)) and not any(s.op == "len" for s in subterms(a)) and "feature_index_size" in fieldnames(b):
        yield "index", b, True
    if o in ("<", "<=", "=") and a.op == "len" and any(s is el for s in subterms(a)) and "model_index_size" in fieldnames(b):
        yield "models", b, True
    if o == "=" and b.op == "len" and any(s is el for s in subterms(b)) and "model_index_size" in fieldnames(a):
        yield "models", a, True


def is_state_len(l, call):
    r = order(l)
    if r is None or r[2] != "=":
        return False
    a, b = panics.uncast(r[0]), panics.uncast(r[1])
    for x, y in ((a, b), (b, a)):
        if x.op == "len" and any(s is call for s in subterms(x)) and "feature_state_size" in fieldnames(y):
            return True
    return False


def guards(e, x):
    """conditions of the branches into the block of an event"""
    n, d = x.xn, 0
    while d < 6:
        ps = e.preds.get(n, ())
        for y, l in ps:
            if l is not None and isinstance(l[0], Term):
                yield y, l[0]
        if len(ps) != 1 or any(l is not None for _, l in ps):
            return
        n, d = ps[0][0], d + 1


def within(e, x, args):
    """the access has the shape that the comparisons make safe: start = index << (model shift + state shift) + model << state shift, length = state size, table = product of the three powers"""
    if x.kind != "call":
        return True
    n = (x.path or x.name).split("::")[-1]
    if n == "copy_from_slice":
        return any(s.op in ("idx", "call", "phi", "sub", "prj") for a in args for s in subterms(a))
    if n not in ("index", "index_mut"):
        return False
    base, r = panics.deref(x.args[0]), panics.deref(x.args[1])
    es = [t for t in subterms(base) if t.op == "call" and t.a[0].endswith("from_elem")] + ([base] if base.op == "call" else [])
    if not es or len(es[0].a[1]) < 2:
        return False
    pw = panics.powers(es[0].a[1][1])
    if pw is None or len(pw) != 3:
        return False
    fs = [fieldnames(t) for t in pw]
    if sorted(next((w for w in ("feature_index_size", "model_index_size", "feature_state_size") if any(f.startswith(w) for f in s)), "?") for s in fs) != ["feature_index_size", "feature_state_size", "model_index_size"]:
        return False
    if r.op != "agg" or len(r.a[3]) != 2:
        return False
    a, b = r.a[3]
    ok = b.op == "bin" and b.a[0] == "Add" and b.a[1] is a and "feature_state_size" in fieldnames(b.a[2]) and panics.uncast(b.a[2]).op == "f"
    if not (ok and a.op == "bin" and a.a[0] == "Add"):
        return False
    hi, lo = a.a[1], a.a[2]
    if not (hi.op == lo.op == "bin" and hi.a[0] == lo.a[0] == "Shl"):
        return False
    su = lambda t: {f for f in fieldnames(t) if f.endswith("_shift")}
    if su(hi.a[2]) != {"model_index_size_shift", "feature_state_size_shift"}:
        hi, lo = lo, hi
    return su(hi.a[2]) == {"model_index_size_shift", "feature_state_size_shift"} and panics.uncast(hi.a[2]).a[0] == "Add" and su(lo.a[2]) == {"feature_state_size_shift"}


# ------------------------------------------------------------------ allocations
def allocations(ck, e, m, key, n):
    seen = {}
    for x in e.events:
        if x.kind != "call" or not ALLOC.search(x.name) or TRY.search(x.name) or m.before(x) is None:
            continue
        st = m.before(x)
        for a in x.args[-1:] if not x.name.endswith(("resize", "resize_with", "reserve", "reserve_exact")) else x.args[1:2]:
            if not isinstance(a, Term) or not panics.isint(a) or panics.const(a) is not None:
                continue
            n["alloc"] += 1
            lo, hi = m.iv(st, a)
            ok = hi <= SMALL or sized(e, a)
            for c, v in st.lab:
                if c.op == "discr" and v in ("Ok", "Continue") and c.a[0].op in ("call", "phi", "agg"):
                    ok |= any(s.op == "call" and TRY.search(s.a[0]) and any(panics.uncast(y) is panics.uncast(a) for y in s.a[1]) for s in subterms(c.a[0]))
            k = f"allocation:{key}:{c10.fn(x)}"
            if not ok and seen.get(k, (True,))[0]:
                seen[k] = (False, f"{x.name} aborts the process when there is no memory for a size taken from the input ({pp(a)[-160:]})", q.loc(x))
            else:
                seen.setdefault(k, (True, "", q.loc(x)))
    for k, r in seen.items():
        ck.ob(k, *r)


def sized(e, t):
    """the size of something that already is in memory"""
    t = panics.uncast(t)
    if t.op == "len" or panics.is_call(t, "len", "size_hint", "count", "capacity"):
        return True
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        return all(panics.const(x) is not None or sized(e, x) for x in t.a[1:])
    if t.op in ("f", "tup") or t.op == "call" and t.a[0].split("::")[-1] in ("min", "max"):
        return any(panics.is_call(s, "size_hint", "len") for s in subterms(t))
    return False


# ------------------------------------------------------------------ offsets
def offsets(ck, p, e, m, key, n):
    """the number of models given to a sub-model is at least one"""
    for x in e.events:
        if x.kind != "call" or not re.search(r"(create_reduction|ReductionFactory::create|child\.create)$", x.path or x.name) or m.before(x) is None:
            continue
        a = x.args[-1]
        n["create"] += 1
        v = a.a[3][0] if a.op == "agg" and a.a[3] else mk("f", a, "0")
        lo, hi = m.iv(m.before(x), v)
        if lo < 1:
            lo = max([lo] + [r[0] for t, r in m.base.items() if t.op == "f" and t.a[0] is a])
        if lo < 1 and e.entry.argc and is_above(e.entry, a):
            lo = 1
        ck.ob(f"models above:{key}", lo >= 1, f"a sub-model is created for {pp(a)[:80]} models, which can be 0", q.loc(x))


# ------------------------------------------------------------------ number of bits
def bits(ck, p, core):
    """a number of bits that was read is at most 31"""
    rd = [b for b in core if re.search(r"::deserialize_\w*bits\w*$", b.path)]
    ck.anchor("reader of the number of bits", len(rd) >= 1)
    for b in rd:
        e = Engine(p, b)
        m = panics.Must(e)
        for x in e.events:
            if x.kind != "ret" or x.ctx.depth != 0 or m.before(x) is None:
                continue
            for l in panics.leaves(e, x.args[0]):
                if l.op == "agg" and l.a[1] == "Ok":
                    lo, hi = m.iv(m.before(x), l.a[3][0])
                    ck.ob(f"bits:{b.path.split('::')[-1]}", hi <= 31, f"a number of bits of {'any value' if hi > 255 else hi} is accepted, tables have 32-bit indices", q.loc(x))
        used = [y for y in p.bodies.values() if any(f and q.body_of(p, f) is b for f, sp, t in q.callees(p, y))]
        ck.ob(f"bits read:{b.path.split('::')[-1]}", bool(used), "the range of the number of bits is not checked when it is read", b.span)


# ------------------------------------------------------------------ fields that must agree
def agreeing(ck, p):
    """a loaded type whose fields are used to address each other is checked when it is loaded"""
    users = {}
    for b in p.bodies.values():
        if b.crate not in p.crates or b.self_ty is None or b.kind != "method" or b.derived or b.trait is None or not b.trait.endswith("Weights"):
            continue
        users.setdefault(b.self_ty.adt, []).append(b)
    ck.anchor("weight tables", bool(users))
    for adt in sorted(users):
        de = [b for b in p.bodies.values() if re.search(r"Deserialize<'de> for " + re.escape(adt) + r"\b", b.path) or b.self_ty is not None and b.self_ty.adt == adt and b.m == "deserialize"]
        if not de:
            continue
        local = set()
        for b in de:
            for y in c10.local_reach(p, b):
                for f, sp, t in q.callees(p, y):
                    z = q.body_of(p, f) if f else None
                    if z is not None and z.crate in p.crates and re.search(r"::(try_from|validate\w*|check\w*|is_valid|verify\w*)$", z.path):
                        local.add(z.path)
        ck.ob(f"loaded:{adt.split('::')[-1]}", bool(local), f"a {adt.split('::')[-1]} in a model is accepted whatever its sizes, shifts and number of weights; using it later can index out of range", users[adt][0].span)
