"""Every method of every loss function is explored and its result read as a formula over prediction, label, limits and step sizes
(value-numbered terms; float arithmetic read as real arithmetic; exp and ln kept as atoms).  Branches are decided for every order
type of prediction, label and label limits (a finite case split); conditions on step sizes are split both ways.  In every case, by
exact normal form of rational functions with exponentials: the first derivative is the formal derivative of the loss with respect
to the prediction, the second derivative that of the first, the squared gradient the square of the unclamped first derivative; the
plain update is minus step times the unclamped derivative; the importance-aware update is the same in its small-step branch (which
is guarded by an upper bound on the step) and otherwise satisfies the defining equation of the invariant update, whose approximated
inverse function is kept as a symbol.  The dispatching enum forwards each method to the method of the same name with the same
arguments.  Users of a loss pass the label limits, prediction and label in their own positions."""
import re
import q, alg, tab, panics
from alg import R, const, sym, NotAlgebraic
from engine import Engine, Term, pp, subterms
import engine

METHODS = ("get_loss", "first_derivative", "second_derivative", "get_square_grad", "get_unsafe_update", "get_update")
# order types: limits 0 < 10; label on or between them, prediction below, between or above
CASES = [({"min_label": 0, "max_label": 10, "label": l, "prediction": x}) for l in (0, 5, 10) for x in (-3, 3, 7, 13)]


def trait(p):
    return next((t for t in p.traits if t.endswith("LossFunctionImpl")), None)


def run(ck):
    p = ck.prog()
    tr = trait(p)
    if not ck.anchor("loss function trait", tr):
        return
    own, disp = {}, {}
    for b in p.bodies.values():
        if b.trait == tr and b.kind not in ("mono", "closure") and b.self_ty is not None:
            a = p.adts.get(b.self_ty.adt)
            enum = a and len(a["vs"]) > 1
            (disp if enum else own).setdefault(b.self_ty.adt, {})[b.m] = b
    for adt, ms in sorted(own.items()):
        name = adt.split("::")[-1]
        if ck.ob(f"{name}:methods", all(m in ms for m in METHODS), f"{name} lacks {[m for m in METHODS if m not in ms]}") is False:
            continue
        try:
            loss(ck, p, name, ms)
        except NotAlgebraic as ex:
            ck.bad(f"{name}:formula", f"not a formula the analysis can read: {ex}", adt)
    for adt, ms in sorted(disp.items()):
        for m, b in sorted(ms.items()):
            dispatch(ck, p, tr, adt, m, b)
    users(ck, p, tr, set(own) | set(disp))
    ck.floor("loss functions", len(own), 2)


# ---------------------------------------------------------------- branches
def branch_term(t, env):
    """truth of a comparison of named values under an order type, or None"""
    if t.op == "un" and t.a[0] == "Not":
        r = branch_term(t.a[1], env)
        return None if r is None else not r
    if panics.is_call(t, "contains") and len(t.a[1]) == 2:
        r = panics.deref(t.a[1][0])
        d = None
        if r.op == "agg" and r.a[0].split("::")[-1] == "Range":
            d = [r.a[3][r.a[2].index(x)] for x in ("start", "end")]
        elif panics.is_call(r, "new") and len(r.a[1]) == 2:
            d = r.a[1]
        if d:
            a, b, c = order(panics.deref(t.a[1][1]), env), order(d[0], env), order(d[1], env)
            if a is None or b is None or c is None:
                return None
            return b <= a < c if r.op == "agg" else b <= a <= c
    if t.op == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        a, b = order(t.a[1], env), order(t.a[2], env)
        if a is None or b is None:
            return None
        return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[t.a[0]]
    return None


def order(t, env):
    """place of a named value, or of the smaller or larger of such, in the order type"""
    if t in env:
        return env[t]
    r = pick(t, env)
    return None if r is None else order(r, env)


def pick(t, env):
    if t.op == "call" and re.search(r"(^|::)(min|max|clamp)$", str(t.a[0])) and 2 <= len(t.a[1]) <= 3:
        v = [order(x, env) for x in t.a[1]]
        if None in v:
            return None
        m = str(t.a[0]).split("::")[-1]
        if m == "clamp":
            return t.a[1][1] if v[0] < v[1] else t.a[1][2] if v[0] > v[2] else t.a[1][0]
        return t.a[1][v.index(min(v) if m == "min" else max(v))]
    return None


def paths(e, env, limit=4000):
    """(result term with joins resolved, [(condition, outcome)]) of every path that agrees with the order type"""
    rets = {x.xn: x for x in e.events if x.kind == "ret"}
    start = e.nodes[0]
    out = []
    n = [0]

    def go(node, prev, res, conds, seen):
        n[0] += 1
        if n[0] > limit or (node, 0) in seen:
            raise NotAlgebraic("the function loops or branches too much")
        res = dict(res)
        for t in node.phis.values() if isinstance(node.phis, dict) else node.phis or ():
            pass
        seen = seen | {(node, 0)}
        trail = res.setdefault("", ())
        res[""] = trail + ((prev, node),)
        for x in node.events:
            if x.kind == "ret":
                out.append((resolve(e, x.args[0], res[""]), conds))
                return
        known = dict(conds)
        for y, lab in node.succ:
            c2 = conds
            if lab is not None and isinstance(lab[0], Term):
                v = branch_term(lab[0], env)
                if v is None:
                    v = known.get(lab[0])
                if v is not None and isinstance(lab[1], bool) and v != lab[1]:
                    continue
                if v is None:
                    c2 = conds + ((lab[0], lab[1]),)
            go(y, node, res, c2, seen)

    go(start, None, {}, (), frozenset())
    return out


def resolve(e, t, trail, d=0):
    """replace joins by the value that comes in along this path"""
    if d > 60:
        raise NotAlgebraic("joins too deep")
    if not isinstance(t, Term):
        return t
    if t.op == "phi":
        n = q.node_of(e, t.a[0])
        pr = next((a for a, b in trail if b is n), None)
        for m, v in q.phi_ins(e, t):
            if m is pr:
                return resolve(e, v, trail, d + 1)
        raise NotAlgebraic("a join that is not on the path: " + pp(t)[:80])
    if not any(x.op == "phi" for x in subterms(t)):
        return t
    a = tuple(resolve(e, x, trail, d) if isinstance(x, Term) else tuple(resolve(e, y, trail, d) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in t.a)
    return engine.mk(t.op, *a)


# ---------------------------------------------------------------- formulas
POS = {"get_loss": ("min_label", "max_label", "prediction", "label"), "first_derivative": ("min_label", "max_label", "prediction", "label"),
       "second_derivative": ("min_label", "max_label", "prediction", "label"), "get_square_grad": ("prediction", "label"),
       "get_unsafe_update": ("prediction", "label", "update_scale"), "get_update": ("prediction", "label", "update_scale", "pred_per_update")}


def helpers(p, ms):
    """approximations: local functions of one float that are not built from ring operations, exp and ln of one branch"""
    out = set()
    seen = set()
    st = [ms["get_update"]]
    while st:
        b = st.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        for f, sp, t in q.callees(p, b):
            c = q.body_of(p, f) if f else None
            if c is not None and c.crate in p.crates and c.trait is None:
                st.append(c)
                if c.argc == 1 and str(c.lty(1).k if hasattr(c.lty(1), "k") else "").startswith(("f", "prim", "float")) and len(c.d["blocks"] if "blocks" in getattr(c, "d", {}) else ()) != 1:
                    out.add(c.path)
    return out


class M:
    def __init__(self, p, b, m, opaque=()):
        self.e = Engine(p, b, opaque=set(opaque))
        self.names = {}
        for i, nm in enumerate(POS[m]):
            if i + 1 < len(self.e.params):
                self.names[self.e.params[i + 1]] = nm
        self.self_ = self.e.params[0]
        self.opaque = opaque

    def leaf(self, eqs, env={}):
        def f(t):
            c = pick(t, env)
            if c is not None:
                return alg.of(c, f)
            n = self.names.get(t)
            if n is not None:
                return sym(eqs.get(n, n))
            if t.op in ("fld", "proj", "vf") or (t.op not in ("bin", "un", "k", "cast", "call", "phi") and any(x is self.self_ for x in subterms(t))):
                return sym(("self", pp(t).split(".")[-1].strip("()*& ")))
            if t.op == "call" and any(str(t.a[0]).endswith(o.split("::")[-1]) for o in self.opaque) and len(t.a[1]) == 1:
                return sym(("w", alg.of(t.a[1][0], f)))
            return None

        return f

    def cases(self, case):
        """[(formula, conditions)] under an order type; equal values are one symbol"""
        env = {t: case[n] for t, n in self.names.items() if n in case}
        eqs = {}
        if case["label"] == case["min_label"]:
            eqs["label"] = "min_label"
        if case["label"] == case["max_label"]:
            eqs["label"] = "max_label"
        return [(alg.of(t, self.leaf(eqs, env)), c) for t, c in paths(self.e, env)], eqs


def loss(ck, p, name, ms):
    ops = helpers(p, ms)
    X = {m: M(p, ms[m], m, ops if m == "get_update" else ()) for m in METHODS}
    P = "prediction"
    seen = set()

    def ob(key, ok, msg):
        if (key, bool(ok)) not in seen:
            seen.add((key, bool(ok)))
            ck.ob(f"{name}:{key}", ok, msg, ms[key].path if key in ms else name)
        else:
            ck.count("repeated cases")

    for case in CASES:
        where = f"label {'= min' if case['label'] == 0 else '= max' if case['label'] == 10 else 'inside'}, prediction {'below' if case[P] < 0 else 'above' if case[P] > 10 else 'inside'} the limits"
        F = {}
        for m in METHODS[:3]:
            cs, eqs = X[m].cases(case)
            F[m] = cs
        L, D1, D2 = (one(F[m], m) for m in METHODS[:3])
        d = alg.diff(L, P)
        ob("first_derivative", d == D1, f"{where}: the derivative of the loss {L.show()[:120]} is {d.show()[:120]}, not {D1.show()[:120]}")
        d = alg.diff(D1, P)
        ob("second_derivative", d == D2, f"{where}: the derivative of {D1.show()[:120]} is {d.show()[:120]}, not {D2.show()[:120]}")
        ck.count("cases of loss and derivatives")
        if not 0 <= case[P] <= 10:
            continue
        # without limits: the derivative inside them
        (g, _), = X["get_square_grad"].cases(case)[0][:1]
        ob("get_square_grad", g == D1 * D1, f"{where}: the square of the derivative {D1.show()[:120]} is not {g.show()[:160]}")
        u = one(X["get_unsafe_update"].cases(case)[0], "get_unsafe_update")
        s = sym("update_scale")
        ob("get_unsafe_update", (u + D1 * s).zero(), f"{where}: the step {u.show()[:160]} is not minus scale times the derivative {D1.show()[:120]}")
        for u, conds in X["get_update"].cases(case)[0]:
            k = sym("pred_per_update")
            first = (u + D1 * s).zero()
            if first:
                ok = any(small(c, v) for c, v in conds)
                ob("get_update", ok, f"{where}: the first-order step is taken without a bound on the size of the step")
                ck.count("first-order branches")
                continue
            if any(small(c, v) for c, v in conds):
                ob("get_update", False, f"{where}: for a small step {u.show()[:160]} is not minus scale times the derivative {D1.show()[:120]}")
                continue
            if any(isinstance(a, tuple) and a[0] == "w" for a in u.atoms()):
                ob("get_update", inverse(L, u, s, k), f"{where}: the step {u.show()[:200]} does not solve the equation of the invariant update")
                ck.count("inverse-function branches")
                continue
            if any(isinstance(a, tuple) and a[0] in ("ln", "Er") for a in u.atoms()):
                ck.count("approximated branches, not decided")
                continue
            moved = alg.subst(D1, P, sym(P) + k * u)
            zero = alg.subst(u, "update_scale", const(0)).zero()
            ob("get_update", zero and (alg.diff(u, "update_scale") + moved).zero(), f"{where}: the step {u.show()[:200]} does not solve the equation of the invariant update")
            ck.count("exact branches")


def one(cs, m):
    fs = [f for f, _ in cs]
    if not fs or any(not (f == fs[0]) for f in fs[1:]):
        raise NotAlgebraic(f"{m} has {len(fs)} different results in one case")
    return fs[0]


def small(c, v):
    """the condition bounds a product of the step sizes from above by a small constant"""
    if c.op == "un" and c.a[0] == "Not":
        return small(c.a[1], not v)
    if c.op != "bin" or c.a[0] not in ("Lt", "Le", "Gt", "Ge"):
        return False
    a, b, o = c.a[1], c.a[2], c.a[0]
    if o in ("Gt", "Ge"):
        a, b, o = b, a, {"Gt": "Lt", "Ge": "Le"}[o]
    # a < b
    if not v:
        a, b = b, a
    k = alg.fconst(b)
    return k is not None and 0 < k <= alg.Fraction(1, 1000) and alg.fconst(a) is None


def inverse(L, u, s, k):
    """logistic form: the loss is sum of c_l * ln(1 + exp(-l p)); with w = W(exp(x)) - x and x = l p + exp(l p) + s k the new
    prediction in direction l is -l w"""
    p = sym("prediction")
    total = u * k + p
    for l in (1, -1):
        a = ("ln", const(1) + alg.exp(p * const(-l)))
        c = next((alg.coefficient(L, x) for x in L.atoms() if isinstance(x, tuple) and x[0] == "ln" and x[1] == a[1]), None)
        if c is None:
            return False
        x = p * const(l) + alg.exp(p * const(l)) + s * k
        w = next((y for y in u.atoms() if isinstance(y, tuple) and y[0] == "w" and y[1] == x), None)
        if w is None:
            if c[0].zero():
                continue
            return False
        total = total - c[0] * const(-l) * sym(w)
    return total.zero()


# ---------------------------------------------------------------- dispatch and users
def dispatch(ck, p, tr, adt, m, b):
    name = adt.split("::")[-1]
    for v, e in tab.by_variant(p, b, 0, adt, opaque=lambda body, f: body is not None and body.trait == tr and body is not b):
        cs = [x for x in e.events if x.kind == "call" and re.search(r"(::|^)" + "|".join(METHODS) + "$", x.name)]
        key = f"{name}.{v['n']}:{m}"
        if not cs:
            # inlined by hand: nothing to compare with by name
            ck.bad(key, f"{m} of {v['n']} reaches no implementation", b.path)
            continue
        ok = [x for x in cs if x.name.split("::")[-1] == m]
        ck.ob(key, len(cs) == len(ok) == 1, f"{m} of {v['n']} calls {[x.name for x in cs]}", b.path)
        for x in ok:
            ck.ob(key + ":args", all(y is z for y, z in zip(x.args[1:], e.params[1:])) and len(x.args) == len(e.params), f"{m} of {v['n']} passes {[pp(a)[:40] for a in x.args[1:]]}", q.loc(x))
            rs = [r.args[0] for r in e.events if r.kind == "ret"]
            ck.ob(key + ":result", all(r is x.ret for r in rs), f"{m} of {v['n']} returns {[pp(r)[:60] for r in rs]}", q.loc(x))


def users(ck, p, tr, adts):
    n = 0
    for b in list(p.bodies.values()):
        if b.kind not in ("fn", "method", "closure") or b.crate not in p.crates or b.trait == tr or "::tests" in b.path:
            continue
        fs = [f for f, sp, t in q.callees(p, b) if f and f["path"].split("::")[-1] in POS and (f.get("trait") == tr or "loss_function" in f["path"])]
        if not fs:
            continue
        e = Engine(p, b, opaque=lambda body, f: body is not None and (body.trait == tr or "loss_function" in (f or {}).get("path", "")))
        for x in e.events:
            m = x.name.split("::")[-1]
            if x.kind != "call" or m not in POS or not (x.callee or {}).get("trait") == tr and "loss_function" not in x.path:
                continue
            n += 1
            names = POS[m]
            for a, want in zip(x.args[1:], names):
                wrong = [o for o in names if o != want and carries(a, o)]
                if want in ("min_label", "max_label"):
                    ck.ob(f"user:{b.path.split('::')[-1]}:{m}:{want}", carries(a, want) and not wrong, f"{m} is given {pp(a)[:100]} as {want}", q.loc(x))
                elif want == "label":
                    ck.ob(f"user:{b.path.split('::')[-1]}:{m}:{want}", from_label(e, a), f"{m} is given {pp(a)[:100]} as the label", q.loc(x))
                elif want == "prediction":
                    ck.ob(f"user:{b.path.split('::')[-1]}:{m}:{want}", not from_label(e, a) and not wrong, f"{m} is given {pp(a)[:100]} as the prediction", q.loc(x))
    ck.floor("uses of a loss", n, 1)


def carries(t, nm):
    return any(nm in x.a or re.search(r"\." + nm + r"$", pp(x)) for x in subterms(t) if x.op not in ("phi",) and x.depth < 6)


def from_label(e, t):
    """the value itself is the label's value: read from something of a label type or named so"""
    return bool(re.search(r"(label\b|Simple\)\.0\.value|\.label$|SimpleLabel)", pp(t)) and not re.search(r"min_label|max_label", pp(t)))
