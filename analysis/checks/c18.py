"""C18: debug and release builds behave the same.

The program is compiled in both settings of debug assertions.  Every function whose two bodies differ in more than the compiler's own overflow checks is
explored in both settings, and the effects (writes to memory of others, calls that can change something), their order, the arguments they are given and the
values returned are matched one to one; whatever remains on the debug side must be free of effects.  Every panic that only the debug build has - failed
debug assertions and arithmetic that overflows - is an obligation: excluded by the branches before it, in every caller, or by an invariant decided elsewhere
(C02 for restored features, C11/C20 for indices of weights, C20/C23 for offsets)."""
import collections
import re

import checks.c09 as c09
import checks.c10 as c10
import checks.c01 as c01
import bits
import panics
import q
import reds
from engine import Engine, Term, mk, pp, subterms
from equiv import Eq

TAGS = ["dev", "rel"]
OVERFLOW = ("Add", "Sub", "Mul", "Shl", "Shr", "Neg")
INNER = re.compile(
    r"(cell::|sync::atomic|Mutex|RwLock|OnceCell|OnceLock|LazyLock|Lazy<|thread_local|static_mut|rand::|fs::|File::|net::|process::|env::set|ptr::write|ptr::swap|mem::(swap|replace|take)|io::Write|mpsc|channel)"
)
PRINT = re.compile(r"_e?print$|io::stdio|fmt::")
WIDE = ("u64", "usize", "i64", "u128", "i128", "isize", "u32", "i32")


def run(ck):
    ck.tag = "dev"
    D, R = ck.prog("dev"), ck.prog("rel")
    mine = {i: b for i, b in D.bodies.items() if b.crate in D.crates}
    other = {i: b for i, b in R.bodies.items() if b.crate in R.crates}
    ck.floor("functions compared between the builds", len([i for i in mine if i in other]), 3000)
    n = collections.Counter()
    # functions of one build only
    single = [b for i, b in mine.items() if i not in other] + [b for i, b in other.items() if i not in mine]
    for b in single:
        if b.kind in ("fn", "method") and i_trait(b):
            ck.bad(f"only:{b.path}", "a trait is implemented differently in the two builds: this method exists in one of them only", b.span)
    cand = []
    for i, b in mine.items():
        r = other.get(i)
        if b.derived:
            continue
        if r is not None and shape(b) != shape(r):
            cand.append((b, r))
    lay = layouts(D, R)
    for a in lay:
        ck.bad(f"type:{a}", f"{a} has different fields in the two builds")
    par = callers(D, mine)
    for b, r in cand:
        differ(ck, D, R, b, r, n, par)
    ck.floor("functions that differ between the builds", len(cand), 5)
    ck.floor("effects matched between the builds", n["effect"], 9)
    ck.floor("results matched between the builds", n["result"], 6)
    arithmetic(ck, D, mine, n, par)
    ck.floor("checked operations", n["op"], 48)
    ck.floor("numbers of bits stored", n["bits"], 5)


def i_trait(b):
    return bool(b.trait) and not b.derived


def layouts(D, R):
    out = []
    for a in D.adts:
        if a in R.adts and a.split("::")[0].startswith("reduc"):
            f = lambda P: [[(x["n"], P.adts[a]["types"][x["t"]].s) for x in v["f"]] for v in P.adts[a]["vs"]]
            if f(D) != f(R):
                out.append(a)
    return out


# ------------------------------------------------------------------ which bodies differ
def locals_in(o):
    """locals read by an operand, a place or a statement"""
    if isinstance(o, dict):
        for k in ("c", "m", "p"):
            if k in o and isinstance(o[k], list) and o[k] and isinstance(o[k][0], int):
                yield o[k][0]
                for x in o[k][1:]:
                    if isinstance(x, dict) and isinstance(x.get("i"), int):
                        yield x["i"]
        for k, v in o.items():
            if k not in ("c", "m", "p"):
                yield from locals_in(v)
    elif isinstance(o, list):
        for v in o:
            yield from locals_in(v)


def checks_only(b):
    """locals that exist for the compiler's own checks (overflow, alignment) alone"""
    uses, defs = collections.defaultdict(list), collections.defaultdict(list)
    seeds = set()
    for i, bb in enumerate(b.bb):
        for j, (pl, r, sp) in enumerate(bb["s"]):
            if len(pl) == 1:
                defs[pl[0]].append((i, j))
            else:
                uses[pl[0]].append((i, j))
            for l in locals_in(r):
                uses[l].append((i, j))
        t = bb["t"]
        own = t["t"] == "assert" and (t.get("kind") == "overflow" or t.get("kind") not in ("bounds", "div", "rem", None))
        for l in locals_in({k: v for k, v in t.items() if k != "dest"}):
            if own:
                seeds.add(l)
            else:
                uses[l].append((i, "t"))
        if t.get("dest"):
            uses[t["dest"][0]].append((i, "d"))
    skip = set()
    todo = list(seeds)
    gone = set()
    while todo:
        l = todo.pop()
        if l in skip or l == 0 or 1 <= l <= b.argc or any(u not in gone for u in uses[l]):
            continue
        if not defs[l]:
            continue
        skip.add(l)
        for i, j in defs[l]:
            gone.add((i, j))
            todo += list(locals_in(b.bb[i]["s"][j][1]))
    return skip


def shape(b):
    """what the body computes, the compiler's own checks set aside"""
    skip = checks_only(b)
    c = collections.Counter()
    for bb in b.bb:
        for pl, r, sp in bb["s"]:
            if len(pl) == 1 and pl[0] in skip:
                continue
            op = str(r.get("op", "")).replace("WithOverflow", "")
            k = "bin" if r.get("r") in ("bin", "cbin") else r.get("r")
            cs = tuple(consts(r))
            if k != "use" or cs:
                c[("s", k, op, cs)] += 1
            to = tuple(p["n"] for p in pl[1:] if isinstance(p, dict) and "n" in p) + tuple("*" for p in pl[1:] if p == "*")
            if to:
                c[("to", to)] += 1
        t = bb["t"]
        if t["t"] == "call":
            f = t["f"].get("k", {}).get("fn")
            c[("call", f["path"] if f else "?", tuple(x for a in t["args"] for x in consts(a)))] += 1
        elif t["t"] == "switch":
            c[("switch", tuple(v[0] for v in t["v"]))] += 1
    return c


def consts(o):
    if isinstance(o, dict):
        if "k" in o and isinstance(o["k"], dict):
            k = o["k"]
            for f in ("int", "str", "float", "cdef", "promoted", "static"):
                if f in k:
                    yield f"{k[f]}"
            return
        for v in o.values():
            yield from consts(v)
    elif isinstance(o, list):
        for v in o:
            yield from consts(v)


# ------------------------------------------------------------------ the same effects
def explore(p, b):
    return Engine(p, b, opaque=lambda x, f: x.crate in p.crates and x.kind in ("fn", "method") and x.id != b.id)


def outside(x, i):
    """the i-th argument lets the callee change memory that outlives the function"""
    ty = x.argtys[i] if x.argtys and i < len(x.argtys) else None
    r = x.refs[i] if x.refs and i < len(x.refs) else None
    if ty is None or "&mut" not in ty.s and "*mut" not in ty.s and "Cell" not in ty.s:
        return False
    if ty.k == "ref" and not ty.mut:
        return False  # nothing can be changed through it
    if not isinstance(r, Term):
        return True
    return any(t.op == "ref" and t.a[0] and t.a[0][0] not in ("L", "C") or t.op in ("par", "param") for t in subterms(r)) or ty.k == "ref" and any(t.k == "ref" and t.mut for t in ty.a)


def reaches_inner(p, f, memo={}):
    """a local function that can reach shared mutable state"""
    b = q.body_of(p, f) if f else None
    if b is None:
        return False
    if b.id not in memo:
        memo[b.id] = False
        for y in c10.local_reach(p, b):
            for g, sp, t in q.callees(p, y):
                if g and INNER.search(g["path"]) and not PRINT.search(g["path"]):
                    memo[b.id] = True
    return memo[b.id]


def effect(p, x):
    if x.kind == "write":
        t = x.args[0]
        return not (t.op == "ref" and t.a[0] and t.a[0][0] in ("L", "C", "H"))
    if x.kind != "call":
        return False
    if any(outside(x, i) for i in range(len(x.args))):
        return True
    return bool(INNER.search(x.path or x.name)) and not PRINT.search(x.path or x.name) or reaches_inner(p, x.callee)


def differ(ck, D, R, b, r, n, par):
    key = c09.key_of(b)
    e1, e2 = explore(D, b), explore(R, r)
    f = Eq(e1, e2)
    a, z = [x for x in e1.events if effect(D, x)], [x for x in e2.events if effect(R, x)]
    pair = {}
    for x in a:
        for y in z:
            if y in pair.values() or x.kind != y.kind or x.name != y.name or len(x.args) != len(y.args):
                continue
            if all(f.eq(s, t) for s, t in zip(x.args, y.args) if isinstance(s, Term)):
                pair[x] = y
                break
    n["effect"] += len(a)
    for x in a:
        y = pair.get(x)
        if not ck.ob(f"effect:{key}:{x.name}", y is not None, f"the debug build does something here that the release build does not: {x.name}({', '.join(pp(t)[-60:] for t in x.args)})", q.loc(x)):
            continue
        ck.ob(f"when:{key}:{x.name}", avoidable(e1, x) == avoidable(e2, y), f"{x.name} is certain to happen in one build but not in the other", q.loc(x))
        for x2, y2 in pair.items():
            ck.ob(f"order:{key}:{x.name}:{x2.name}", before(e1, x, x2) == before(e2, y, y2), f"{x.name} and {x2.name} happen in a different order in the two builds", q.loc(x))
    for y in z:
        if y not in pair.values():
            ck.bad(f"effect:{key}:{y.name}", f"the release build does something here that the debug build does not: {y.name}({', '.join(pp(t)[-60:] for t in y.args)})", q.loc(y))
    ra, rz = results(e1), results(e2)
    n["result"] += len(ra)
    for t, x in ra:
        ck.ob(f"result:{key}", any(f.eq(t, u) for u, _ in rz), f"the debug build can return something that the release build does not: {pp(t)[:120]}", q.loc(x))
    for u, y in rz:
        ck.ob(f"result:{key}", any(f.eq(t, u) for t, _ in ra), f"the release build can return something that the debug build does not: {pp(u)[:120]}", q.loc(y))
    # the choice between results and effects must not depend on more in one build
    c1, c2 = conditions(e1, [x.xn for x in a] + sources(e1, ra)), conditions(e2, [y.xn for y in z] + sources(e2, rz))
    for c, x in c1:
        ck.ob(f"choice:{key}", any(f.eq(c, d) for d, _ in c2), f"what happens depends, in the debug build only, on {pp(c)[:120]}", b.span)
    for d, x in c2:
        ck.ob(f"choice:{key}", any(f.eq(c, d) for c, _ in c1), f"what happens depends, in the release build only, on {pp(d)[:120]}", b.span)
    debug_panics(ck, D, b, r, e1, e2, f, key, n, par)


def results(e):
    out = []
    for x in e.events:
        if x.kind == "ret" and x.ctx.depth == 0:
            for t in panics.leaves(e, x.args[0]):
                if (t, x) not in out:
                    out.append((t, x))
    return out


def ends(e):
    return {x.xn for x in e.events if x.kind == "ret" and x.ctx.depth == 0}


def succs(e, start, stop=()):
    seen, st = set(), [start]
    while st:
        x = st.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        st += [y for y, _ in x.succ]
    return seen


def avoidable(e, x):
    return bool(succs(e, e.start, {x.xn}) & ends(e))


def before(e, x, y):
    if x is y:
        return None
    if x.xn is y.xn and x.xn not in succs_of(e, x.xn):
        return x.xn.events.index(x) < x.xn.events.index(y)
    return y.xn in succs_of(e, x.xn)


def succs_of(e, n):
    out = set()
    for y, _ in n.succ:
        out |= succs(e, y)
    return out


def sources(e, rs):
    """where the values that can be returned come together"""
    out, seen = [x.xn for _, x in rs], set()
    todo = [x.args[0] for x in e.events if x.kind == "ret" and x.ctx.depth == 0 and isinstance(x.args[0], Term)]
    while todo:
        for t in subterms(todo.pop()):
            if t.op == "phi" and t not in seen:
                seen.add(t)
                ins = q.phi_ins(e, t)
                if len({v for _, v in ins}) > 1:
                    out += [m for m, _ in ins]
                todo += [v for _, v in ins if isinstance(v, Term)]
    return out


def conditions(e, nodes):
    """branch conditions that decide which of the nodes are reached, failing assertions aside"""
    en = ends(e)
    out = {}
    for x in e.nodes:
        ls = [(y, l) for y, l in x.succ if l is not None and isinstance(l[0], Term)]
        if len(ls) < 2:
            continue
        rs = []
        for y, l in ls:
            s = succs(e, y)
            if s & en:
                rs.append(frozenset(id(m) for m in nodes if m in s))
        if len(set(rs)) > 1:
            out.setdefault(ls[0][1][0], x)
    return list(out.items())


# ------------------------------------------------------------------ panics of the debug build
def debug_panics(ck, D, b, r, e1, e2, f, key, n, par):
    """assertions that the release build does not have"""
    m = panics.Must(e1, c09.known(D, b, e1, reds.FACT))
    rel = [y for y in e2.events if y.kind == "panic"]
    for x in e1.events:
        if x.kind != "panic":
            continue
        st = m.before(x)
        if st is None:
            continue
        if any(y.name == x.name and all(f.eq(s, t) for s, t in zip(x.args, y.args) if isinstance(s, Term)) for y in rel):
            continue
        n["assertion"] += 1
        why = panics.discharged(m, x) or invariant(e1, m, x, D) or by_callers(D, b, x, par)
        ck.ob(f"assertion:{crate_file(b)}:{what(e1, x)}", why is not None, f"an assertion that only the debug build checks can fail: {said(x)}", q.loc(x))


def crate_file(b):
    return re.sub(r"\.rs.*", "", (b.span or "?").split("/")[-1])


def callers(D, mine):
    par = collections.defaultdict(set)
    for b in mine.values():
        for f, sp, t in q.callees(D, b):
            y = q.body_of(D, f) if f else None
            if y is not None and y.id in mine:
                par[y.id].add(b.root if b.kind == "closure" else b.id)
    return par


def by_callers(D, b, x, par):
    """no caller in the workspace gets there (functions private to the crate only)"""
    ps = [D.bodies[i] for i in sorted(par.get(b.id, ())) if D.bodies[i].id != b.id]
    if not ps or b.trait or len(ps) > 4:
        return None
    for c in ps:
        e = Engine(D, c)
        m = panics.Must(e, c09.known(D, c, e, reds.FACT))
        ys = [y for y in e.events if y.kind == "panic" and y.ctx.body.id == b.id and y.span == x.span and m.before(y) is not None]
        if any(panics.discharged(m, y) is None for y in ys) or not any(y.ctx.body.id == b.id for y in e.nodes):
            return None
    return "callers"


def said(x):
    for a in x.args:
        for t in subterms(a) if isinstance(a, Term) else ():
            if t.op == "k" and isinstance(t.a[0], str) and "assert" in t.a[0]:
                return t.a[0]
    return x.name


def what(e, x):
    """names the assertion by what it looks at: the fields in its condition"""
    fs, todo, seen = set(), [x.xn], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for y, l in e.preds.get(n, ()):
            if l is None or not isinstance(l[0], Term):
                todo.append(y)
            else:
                fs |= {str(f) for f in c09.fieldnames(l[0])}
    if fs:
        return "+".join(sorted(fs))
    return re.sub(r"[^\w.<>=!&|-]+", "_", said(x).replace("assertion failed: ", "").replace("\\n", " "))[:80]


def invariant(e, m, x, p):
    """invariants that other checks decide"""
    for n, c in c09.guards(e, x):
        cs = [t for t in subterms(c)]
        for t in cs:
            # the features handed back are the features received (C02)
            if t.op == "call" and re.search(r"::(eq|ne|abs_diff_eq|abs_diff_ne|relative_eq|relative_ne)$", t.a[0]) and len(t.a[1]) >= 2 and restored(*t.a[1][-2:]):
                return "features are restored (C02)"
            # an index of the weights below the declared size (C11, C20)
            if t.op in ("bin",) and t.a[0] in ("Lt", "Le") and t.a[2].op in ("f", "par") or t.op == "call" and re.search(r"::(lt|partial_cmp|cmp)$", t.a[0]):
                l, h = (t.a[1], t.a[2]) if t.op == "bin" else t.a[1][:2]
                fs = c09.fieldnames(h)
                pa = {str(s.a[0]) for s in subterms(l) if s.op == "par"}
                if (any("feature_index_size" in z for z in fs) and of_type(e, pa, "FeatureIndex") or any("model_index_size" in z for z in fs) and of_type(e, pa, "ModelIndex")) and not has_arith(l) and not has_arith(h):
                    return "indices are below the declared sizes (C11, C20)"
    return None


def of_type(e, names, ty):
    b = e.entry
    return any((b.lname(i) in names or str(i) in names) and (b.lty(i).strip().s or "").endswith(ty) for i in range(1, b.argc + 1))


def has_arith(t):
    return any(s.op == "bin" and s.a[0] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") for s in subterms(t))


def restored(a, b):
    """what a parameter points to afterwards and a copy made before"""
    for x, y in ((a, b), (b, a)):
        y = panics.deref(y)
        if y.op == "call" and y.a[0].endswith("clone") and panics.deref(y.a[1][0]).op == "par":
            z = strip(x)
            if z.op == "call":  # what the call left in the memory it was given
                return any(s is panics.deref(y.a[1][0]) for s in z.a[1])
            return z is panics.deref(y.a[1][0])
    return False


def strip(t):
    while t.op in ("ref", "cref", "post", "deref") and t.a and isinstance(t.a[-1] if t.op != "post" else t.a[0], Term):
        t = t.a[-1] if t.op != "post" else t.a[0]
    return t


# ------------------------------------------------------------------ arithmetic
def facts_of(D, B, b, e):
    base = c09.known(D, b, e, reds.FACT)
    ps = B.base(b)
    for x in e.events:
        for a in x.args:
            if isinstance(a, Term):
                for t in subterms(a):
                    if t.op == "par" and str(t.a[0]) in ps:
                        base[t] = (0, bits.HI)
    return base


def owns(b):
    return [bb for bb in b.bb if bb["t"]["t"] == "assert" and bb["t"].get("kind") == "overflow"]


def arithmetic(ck, D, mine, n, par):
    roots = {}
    for b in mine.values():
        if owns(b) and not b.derived:
            r = mine.get(b.root, b) if b.kind == "closure" else b
            if r.kind in ("fn", "method"):
                roots.setdefault(r.id, []).append(b)
    memo, memo_nodes = {}, {}
    B = bits.Bits(D)
    for b, sp, ok in B.fields():
        n["bits"] += 1
        ck.ob(f"bits:{c09.key_of(b)}", ok, "a number of bits is stored that nothing has compared with the 31 that a feature index has: shifting by it panics in the debug build and wraps in the release build", sp)

    def open_sites(entry):
        """(body, span, op) of operations that can overflow, seen from entry"""
        if entry.id not in memo:
            e = Engine(D, entry)
            m = panics.Must(e, facts_of(D, B, entry, e))
            v = c09.Validated(e, m)
            bad, all_ = {}, set()
            for x in e.events:
                if x.kind != "assert" or x.path not in OVERFLOW:
                    continue
                k = (x.ctx.body.id, x.span, x.path)
                all_.add(k)
                w = panics.width(x)
                why = panics.discharged(m, x, w) or trusted(e, m, x, w) or v.covers(x)
                if why is None and m.before(x) is not None:
                    bad[k] = x
            memo[entry.id] = (bad, all_)
            memo_nodes[entry.id] = list(e.nodes)
        return memo[entry.id]

    for rid, bs in sorted(roots.items(), key=lambda z: mine[z[0]].path):
        r = mine[rid]
        bad, all_ = open_sites(r)
        ids = {b.id for b in bs}
        key = c09.key_of(r)
        res = {}
        entered = {y.ctx.body.id for y in memo_nodes[rid]}
        for z in bs:
            if z.id not in entered and z.id != rid:
                # a closure that is handed to code outside: explored on its own
                b2, a2 = open_sites(z)
                bad, all_ = {**bad, **b2}, all_ | a2
        for k in sorted(all_):
            if k[0] in ids:
                n["op"] += 1
                x = bad.get(k)
                ok = x is None or climbs(r, k, par, mine, open_sites, 0, set())
                kk = f"overflow:{key}:{k[2]}"
                if not ok and res.get(kk, (True,))[0]:
                    res[kk] = (False, f"{k[2]} can overflow: the debug build panics and the release build goes on with a wrapped value ({', '.join(pp(a)[-90:] for a in x.args[1:3])})", q.loc(x))
                else:
                    res.setdefault(kk, (True, "", r.span))
        for kk, v in res.items():
            ck.ob(kk, *v)


def climbs(b, k, par, mine, open_sites, d, seen):
    """every caller excludes it"""
    if d > 5 or b.id in seen:
        return False
    ps = [mine[i] for i in par.get(b.id, ()) if i in mine and mine[i].kind in ("fn", "method")]
    # what nothing calls is for the users of the library; it adds nothing if others call
    ps = [c for c in ps if par.get(c.id) or c.trait or c.path.split("::")[0] != "reductionml_core"] or ps
    if not ps:
        return False
    for c in ps:
        bad, all_ = open_sites(c)
        if k not in all_:
            return False
        if k in bad and not climbs(c, k, par, mine, open_sites, d + 1, seen | {b.id}):
            return False
    return True


def trusted(e, m, x, w):
    """counters that would need more steps than a run has; what other checks decide about offsets, tables and restored features"""
    a = [t for t in x.args[1:3] if isinstance(t, Term)]
    step = any(panics.const(t) is not None and 0 <= panics.const(t) <= 16 for t in a)
    if x.path == "Add" and w in WIDE and any(counter(t) for t in a) and step:
        return "counts examples or rounds (fewer than 2^31)"
    if x.path == "Sub" and w in ("i32", "i64", "isize", "i128") and counter(a[0]) and step:
        return "counts examples or rounds (fewer than 2^31)"
    if x.path == "Add" and w in ("u64", "usize") and all(counter(t) or small(m.e, t) for t in a):
        return "sums lengths (fewer than 2^63)"
    b = x.ctx.body
    me = b.self_ty.s if b.self_ty is not None else ""
    if me.endswith("::DepthInfo") and w == "u8":
        return "offsets stay within the declared number of models (C20, C23)"
    st = m.before(x)
    if me.endswith("DenseWeights"):
        shift = lambda t: panics.uncast(t).op == "f" and str(panics.uncast(t).a[1]).endswith("_shift") or t.op == "bin" and t.a[0] == "Add" and all(shift(s) for s in t.a[1:])
        if x.path == "Add" and w == "u8" and all(shift(t) for t in a):
            return "shifts of a table add up to less than 64 (C09, C20)"
        if x.path == "Shl" and w in ("usize", "u64", "i32", None) and shift(a[1]):
            return "addresses of a table lie inside it (C20)"
        if x.path == "Add" and w in ("usize", "u64") and all(any(s.op == "bin" and s.a[0] == "Shl" and shift(s.a[2]) for s in subterms(t)) or "feature_state_size" in c09.fieldnames(t) for t in a):
            return "addresses of a table lie inside it (C20)"
    if x.path == "Sub" and w == "usize" and me.endswith("SparseFeatures") and all(t.op == "len" or panics.is_call(t, "size", "len") for t in a):
        fs = [c09.fieldnames(t) for t in a]
        if b.m == "remove" or b.path.endswith("::remove"):
            return "what is removed was appended before (C02)"
    if x.path == "Add" and w == "u32" and st is not None and counter(a[0]) and panics.uncast(a[0]).op == "f":
        for c, v in st.lab:
            o = c09.order((c, v))
            if o is not None and o[1] is a[0] and o[0].op == "f" and str(o[0].a[1]).startswith("next"):
                return "the next report is at most twice as far as the last (fewer than 2^31 examples)"
    return None


def counter(t, d=0):
    t = panics.uncast(t)
    while t.op == "cast" or t.op == "call" and re.search(r"(into|from)$", t.a[0]) and len(t.a[1]) == 1:
        t = panics.uncast(t.a[1][0] if t.op == "call" else next(s for s in t.a if isinstance(s, Term)))
    if t.op == "phi":
        return True
    if t.op == "bin" and t.a[0] == "Add" and d < 4:
        return all(counter(s, d + 1) or panics.const(s) is not None or panics.lengthlike(None, s) for s in t.a[1:])
    return t.op == "f" or t.op in ("par", "param")


def small(e, t):
    t = panics.uncast(t)
    return panics.lengthlike(e, t) or panics.is_call(t, "size", "len", "sum", "count") or t.op == "call" and re.search(r"(sum|fold|len|count|size)$", t.a[0]) is not None
