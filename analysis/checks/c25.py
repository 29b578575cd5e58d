"""Guards: every function that takes features (and perhaps a label) and returns a Result is explored for every kind of features and
label.  It is a guard if on every path to success the declared type of features of the entry reduction was found equal to the kind
given; for features with actions, their number found not to be zero; for a label, the declared label type found equal to its kind; for
a label that names an action, that action found less than the number of actions of these features.  An example that fits is not
refused.  Entries: in every function outside the core library that hands an example to a workspace (or in every caller of such a
function), each prediction or update is dominated by success of a guard that was given the same features, and for updates the same
label; no update lies before it.
Formats: every function that makes a parser for given types of features and labels is explored for every pair of them: no panic is
reachable, so a format that cannot describe them has to be refused."""
import re
import q, tab, reds, panics, engine
from engine import Engine, Event, Call, Term, pp, subterms, strip_generics
import checks.c03 as c03
import checks.c06 as c06
import checks.c24 as c24

FIT = {"SparseSimple": ("Simple", "Binary"), "SparseCBAdf": ("CB",)}


def run(ck):
    p = ck.prog()
    ent = c24.c03_entries(p)
    if not ck.anchor("workspace entries", len(ent) == 3):
        return
    ws = {b.self_ty.adt for m, path in ent.items() for b in [p.by_path[path]]}
    F, L = c24.vtypes(p, "Features"), c24.vtypes(p, "Label")
    guards = {}
    for b in p.bodies.values():
        if b.kind not in ("fn", "method") or b.gen or b.crate not in p.crates or "::tests" in b.path or not c06_result(b):
            continue
        fi = [i for i in range(1, b.argc + 1) if c24.tyname(b.lty(i)) == F]
        wi = [i for i in range(1, b.argc + 1) if c24.tyname(b.lty(i)) in ws]
        li = [i for i in range(1, b.argc + 1) if L in b.lty(i).s.replace(" ", "") or c24.tyname(b.lty(i)) == L]
        if len(fi) == 1 and len(wi) == 1 and b.lty(fi[0]).k == "ref" and not mutable(b.lty(fi[0])):
            guards[b.path] = guard(ck, p, b, fi[0], li[0] if li else None, F, L)
    real = {k: v for k, v in guards.items() if not v["f"]}
    if not ck.ob("guard", real, "nothing checks that an example fits the model" + "".join(f"; {k}: {v['f'][0][0]}" for k, v in guards.items() if v["f"]),
                 next((v["f"][0][1] for v in guards.values() if v["f"]), None)) and not real:
        return
    for k, v in real.items():
        for m, w in v["l"]:
            ck.bad("guard:label", m, w)
        for m, w in v["r"]:
            ck.bad("guard:refuses", m, w)
    entries(ck, p, ent, real)
    formats(ck, p)


def formats(ck, p):
    """choosing a data format for a model: no combination of types panics"""
    tr = next((t for t in p.traits if t.endswith("TextModeParser")), None)
    if not ck.anchor("parser trait", tr):
        return
    FT, LT = c24.vtypes(p, "FeaturesType"), c24.vtypes(p, "LabelType")
    n = 0
    for b in sorted(p.bodies.values(), key=lambda x: x.path):
        if b.kind not in ("fn", "method") or b.gen or b.crate not in p.crates or "::tests" in b.path or "dyn " + tr not in b.lty(0).s:
            continue
        fi = [i for i in range(1, b.argc + 1) if c24.tyname(b.lty(i)) == FT]
        li = [i for i in range(1, b.argc + 1) if c24.tyname(b.lty(i)) == LT]
        if len(fi) != 1 or len(li) != 1:
            continue
        for fv in p.adts[FT]["vs"]:
            for lv in p.adts[LT]["vs"]:
                args, init = [None] * b.argc, {}
                for i, t, v in ((fi[0], FT, fv), (li[0], LT, lv)):
                    nm = b.lname(i) or f"p{i}"
                    if b.lty(i).k == "ref":
                        init[nm] = lambda x, t=t, v=v: tab.agg_of(x, t, v)
                    else:
                        args[i - 1] = tab.agg_of(engine.mk("par", nm), t, v)
                e = Engine(p, b, args=args, init=init)
                live = q.walk(e, None, None, lambda lab: nofold(p, lab))[0]
                bad = [x for x in live if x.kind == "panic" and x.ctx.body.crate in p.crates]
                n += 1
                ck.ob(f"format:{b.path.split('::')[-1]}@{b.crate}:{fv['n']}:{lv['n']}", not bad, f"choosing a data format for a model that takes {fv['n']} features and {lv['n']} labels can panic", q.loc(bad[0]) if bad else None)
                ck.ob(f"format:{b.path.split('::')[-1]}@{b.crate}:{fv['n']}:{lv['n']}:some", bool([x for x in live if x.kind == "ret"]), f"no data format can be chosen for a model that takes {fv['n']} features and {lv['n']} labels", b.path)
    ck.floor("choices of a data format", n, 12)


def c06_result(b):
    t = b.lty(0).strip()
    return t.k == "adt" and t.adt.endswith("result::Result")


def mutable(t):
    return t.s.replace("&'_ ", "&").startswith("&mut") or getattr(t, "mut", False)


# ---------------------------------------------------------------- guards
def consteq(p, e, lab, suffix):
    """(variant, equal?) if the edge compares the declared type `suffix` with a constant"""
    c, v = lab
    if c.op == "discr" and declared(c.a[0], suffix):
        if isinstance(v, str):
            return v, True
        if isinstance(v, tuple) and v[0] == "ne" and len(v[1]) == 1:
            return list(v[1])[0], False
        return None
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    if c.op == "bin" and c.a[0] in ("Eq", "Ne") and isinstance(v, bool):
        a, b = panics.deref(c.a[1]), panics.deref(c.a[2])
        a, b = [panics.deref(x.a[0]) if x.op == "discr" else x for x in (a, b)]
        if declared(a, suffix):
            a, b = b, a
        if declared(b, suffix) and a.op == "agg":
            return a.a[1], (v == (c.a[0] == "Eq")) != neg
    return None


def declared(t, suffix):
    return re.search(r"entry_reduction\.type_description\." + suffix + r"$", pp(panics.deref(t)).strip("()*& ")) is not None


def lencond(lab):
    """for a comparison of a number of actions with a constant or an action: ('nonempty', bool) / ('inrange', bool)"""
    c, v = lab
    neg = False
    while c.op == "un" and c.a[0] == "Not":
        c, neg = c.a[1], not neg
    if c.op == "len" and isactions(c):  # matched on
        if isinstance(v, int) and not isinstance(v, bool):
            return "nonempty", v != 0
        return ("nonempty", True) if isinstance(v, tuple) and 0 in v[1] else None
    if c.op != "bin" or not isinstance(v, bool):
        return None
    op, a, b = c.a[0], panics.deref(c.a[1]), panics.deref(c.a[2])
    v = v != neg
    if isactions(a) and not isactions(b):
        a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
    if not isactions(b):
        return None
    if a.op == "k" and isinstance(a.a[0], int):  # k op len
        n = a.a[0]
        true = {("Eq", 0): False, ("Ne", 0): True, ("Lt", 0): True, ("Ge", 0): False, ("Le", 1): True, ("Gt", 1): False}.get((op, n))
        return None if true is None else ("nonempty", v == true)
    if pp(a).endswith(".action") and "label" in pp(a).lower() or pp(a).endswith(".0.action"):
        if op == "Lt":
            return "inrange", v
        if op == "Ge":
            return "inrange", not v
        if op == "Le" and not v:
            return "wrong", v
    return None


def isactions(t):
    return t.op == "len" and re.search(r"\.actions\W*$", pp(t)) is not None or t.op == "call" and re.search(r"len$", str(t.a[0])) and ".actions" in pp(t)


def guard(ck, p, b, fi, li, F, L):
    """{'f': failings for features, 'l': for labels, 'r': refusals of what fits}"""
    out = {"f": [], "l": [], "r": [], "li": li}
    fn = b.lname(fi) or f"p{fi}"
    lopt = li is not None and c24.tyname(b.lty(li)) != L
    for fv in p.adts[F]["vs"]:
        kind = fv["n"].replace("Ref", "")
        labels = [None] if li is None else ([None] if lopt else []) + p.adts[L]["vs"]
        for lv in labels:
            init = {fn: lambda x: tab.agg_of(x, F, fv)}
            args = [None] * b.argc
            if li is not None:
                ln = b.lname(li) or f"p{li}"
                if lopt:
                    o = b.lty(li).strip().adt
                    if lv is None:
                        args[li - 1] = engine.Agg(o, "None", [], [])
                    else:
                        args[li - 1] = engine.Agg(o, "Some", ["0"], [engine.mk("par", ln)])
                else:
                    init[ln] = lambda x: tab.agg_of(x, L, lv)
            e = Engine(p, b, init=init, args=args)
            isok = {id(r) for r in c03.okrets(e)}
            ok = lambda x: id(x) in isok

            def lv_is(lab, lv=lv, ln=(b.lname(li) or f"p{li}") if li is not None else None):
                # the label behind the reference is of another kind
                c, v = lab
                if lv is None or c.op != "discr" or not (pp(panics.deref(c.a[0])).strip("*&() ") == ln):
                    return False
                return other(p, L, lv["n"], v)

            def feats(lab):
                r = consteq(p, e, lab, "input_features_type")
                return r == (kind, True)

            def labs(lab):
                r = consteq(p, e, lab, "input_label_type")
                return lv is not None and r == (lv["n"], True)

            what = f"features of kind {fv['n']}" + (f" with a label of kind {lv['n']}" if lv is not None else "")
            here = b.path
            n = "guard obligations"
            imp = lambda lab: lv_is(lab) or nofold(p, lab)
            if q.not_preceded(e, ok, None, lambda lab: imp(lab) or feats(lab)):
                out["f"].append((f"{what} are accepted whatever the model takes", here))
            ck.count(n)
            if kind == "SparseCBAdf":
                if q.not_preceded(e, ok, None, lambda lab: imp(lab) or lencond(lab) in (("nonempty", True), ("inrange", True))):
                    out["f"].append((f"{what} are accepted without any action", here))
                ck.count(n)
            if lv is not None:
                if q.not_preceded(e, ok, None, lambda lab: imp(lab) or labs(lab)):
                    out["l"].append((f"{what} are accepted whatever label the model takes", here))
                ck.count(n)
                if kind == "SparseCBAdf" and lv["n"] == "CB":
                    if q.not_preceded(e, ok, None, lambda lab: imp(lab) or lencond(lab) == ("inrange", True)):
                        out["l"].append((f"{what} are accepted although the label's action is not one of them", here))
                    ck.count(n)
            if lv is None or lv["n"] in FIT.get(kind, ()):
                # what fits is accepted: no other reason to refuse, and success is possible
                def unfit(lab):
                    r = consteq(p, e, lab, "input_features_type")
                    if r is not None and r[1] != (r[0] == kind):
                        return True
                    r = consteq(p, e, lab, "input_label_type")
                    if r is not None and lv is not None and r[1] != (r[0] == lv["n"]):
                        return True
                    r = lencond(lab)
                    return r is not None and r[0] in ("nonempty", "inrange") and r[1] is False

                live = q.walk(e, None, None, lambda lab: imp(lab) or unfit(lab))[0]
                bad = [x for x in live if x.kind == "ret" and not ok(x) or x.kind == "panic"]
                if bad or not any(ok(x) for x in live):
                    out["r"].append((f"{what} can be refused although they fit the model", q.loc(bad[0]) if bad else here))
                ck.count(n)
    return out


def other(p, adt, variant, v):
    """the edge value v (name or number, or what it is not) excludes the variant"""
    names = [x["n"] for x in p.adts[adt]["vs"]] if adt in p.adts else []
    nm = lambda i: names[i] if isinstance(i, int) and not isinstance(i, bool) and i < len(names) else i
    if isinstance(v, tuple) and v[0] == "ne":
        return variant in [nm(i) for i in v[1]]
    v = nm(v)
    return isinstance(v, str) and v != variant


def nofold(p, lab):
    """edges whose condition is a constant of the other value"""
    if lab[0].op == "discr":
        x = panics.deref(lab[0].a[0])
        while x.op in ("cref", "ref") and x.a and isinstance(x.a[0], Term):
            x = panics.deref(x.a[0])
        if x.op == "agg" and isinstance(x.a[1], str):
            return other(p, x.a[0], x.a[1], lab[1])
    c = c24.fold(p, lab[0])
    return c is not None and isinstance(lab[1], (bool, int)) and bool(c) != bool(lab[1])


# ---------------------------------------------------------------- entries
def entries(ck, p, ent, guards):
    models = dict(c03.ws_models(p, ent))

    def gm(path):
        def f(ex, t, fn, args):
            snaps = [ex.snap(a) for a in args]
            ct = Call("guard:" + path, snaps, None)
            ex.events.append(Event("call", "guard:" + path, path=fn["path"], args=tuple(snaps), refs=tuple(args), ret=ct, span=ex.span, ctx=ex.ctx, callee=fn))
            return ex.finish(t, ct)

        return f

    for g in guards:
        models[strip_generics(g)] = gm(g)
    core = {p.by_path[x].crate for x in ent.values()}
    us = c03.users(p, ent)
    n = 0
    done = {}

    def judge(b, depth):
        """failures of the calls in b, or () if they are guarded here or in every caller"""
        if b.id in done:
            return done[b.id]
        done[b.id] = ()
        fs = function(ck, p, b, models, guards)
        if fs and depth < 4:
            cs = [c for c in c24.callers(p, b) if "::tests" not in c.path and c.id != b.id]
            if cs:
                fs = [f for c in cs for f in judge(c, depth + 1)]
        done[b.id] = fs
        return fs

    for path in sorted(us):
        b = p.by_path.get(path)
        if b is None or b.crate in core or b.crate not in p.crates or "::tests" in path:
            continue
        if b.kind == "closure":
            b = p.bodies.get(b.root, b)
        n += 1
        fs = judge(b, 0)
        ck.ob(f"entry:{q_name(b)}", not fs, fs[0][0] if fs else "", fs[0][1] if fs else None)
    ck.floor("functions that hand examples to a workspace", n, 4)


def q_name(b):
    return b.path.split("::")[-1] + "@" + b.crate


def function(ck, p, b, models, guards):
    e = Engine(p, b, models=models)
    out = []
    gs = [x for x in e.events if x.kind == "call" and x.name.startswith("guard:")]
    for u in e.events:
        if u.kind != "call" or not u.name.startswith("ws."):
            continue
        m = u.name[3:]
        mine = []
        for g in gs:
            gb = p.by_path[g.name[6:]]
            f = next(i for i in range(gb.argc) if c24.tyname(gb.lty(i + 1)).endswith("types::Features"))
            if not same(e, g.args[f], u.args[1]):
                continue
            if m != "predict":
                li = guards[gb.path]["li"]
                if li is None or not same(e, g.args[li - 1], u.args[2]):
                    continue
            mine.append(g)

        def passed(lab):
            c, v = lab
            return c.op == "discr" and v in ("Ok", "Continue") and any(g.ret in subterms(c.a[0]) for g in mine)

        # from the start, and from any earlier use of the guard for other features, without success in between
        bad = q.not_preceded(e, lambda x: x is u, None, passed)
        ck.count("predictions and updates")
        if bad:
            why = "without any check that the example fits the model" if not gs else "although the check that the example fits the model was not made for these features" + (" and this label" if m != "predict" else "") + ", or its failure ignored"
            out.append((f"{m} is called {why}", q.loc(u)))
    return out


def same(e, a, b):
    """guard's argument a is (a wrapper of) the value b"""
    bs = set(tab.alts(e, b))
    as_ = set()
    for t in tab.alts(e, a):
        as_ |= {t}
        if t.op == "agg" and t.a[1] == "Some":
            as_ |= set(tab.alts(e, t.a[3][0]))
        elif t.op == "agg" and t.a[1] == "None":
            return False
    return bool(bs & as_)
