"""Reductions: a factory's create is explored; every option of its configuration (found as a field of the downcast configuration) is
followed into the state of the reduction it makes or into the configuration of a sub-model.  Every method of that reduction is then
explored, and every option must reach, through the state it was put in, something the method returns, writes, passes on or decides
by.  What predict or learn obey, predict_then_learn obeys.  State named after an option is made from that option; a sub-model gets
the same global configuration; a base learner takes every global option into account; accessors and constructors of configuration
types keep their fields apart.  Where the formula shows what kind of quantity an option is (an exponent, a scale), it is that one.
Options that show something show it exactly when they are on; keepOriginalFeatures decides what the sub-model sees.

Command line: every field of a command's arguments reaches something that command does; training opens the files it was given,
writes the model and each prediction on every successful path when a file was given, and uses the queue size, the number of
threads, the metrics and the output period as given."""
import re
import q, cfg, reds, tab
from engine import Engine, Term, K, mk, pp, subterms, children
import checks.c06 as c06
import checks.c08 as c08
import checks.c14 as c14

FACT = cfg.FACT
SINK = ("call", "panic", "write", "elem", "lwrite", "ret", "assert")


def run(ck):
    p = ck.prog()
    reductions(ck, p)
    accessors(ck, p)
    commands(ck, p)


def accessors(ck, p):
    """what reads or makes a configuration keeps its options apart"""
    n = 0
    for a in cfg.types(p):
        if len(p.adts[a]["vs"]) != 1:
            continue
        fs = [f["n"] for f in p.adts[a]["vs"][0]["f"]]
        for b in p.bodies.values():
            if b.kind != "method" or b.trait or b.derived or b.self_ty is None or not b.self_ty.strip().isadt(a) or b.crate not in p.crates:
                continue
            m = b.path.split("::")[-1]
            ret = b.lty(0).strip()
            if b.argc == 1 and m in fs and b.lty(1).k == "ref":
                n += 1
                e = q.run(p, b)
                ok = all(clean(t) is mk("f", mk("par", "self"), m) for r in e.events if r.kind == "ret" for t in tab.alts(e, r.args[0]))
                ck.ob(f"{a.split('::')[-1]}.{m}()", ok, f"{b.path} does not give the option {m}", b.path)
            elif ret.isadt(a) and not any(b.lty(i).strip().isadt(a) for i in range(1, b.argc + 1)):
                ps = {b.lname(i): i for i in range(1, b.argc + 1)}
                e = q.run(p, b)
                for r in e.events:
                    if r.kind != "ret":
                        continue
                    for t in tab.alts(e, r.args[0]):
                        if t.op != "agg" or t.a[0] != a:
                            continue
                        for f, v in zip(t.a[2], t.a[3]):
                            if f in ps:
                                n += 1
                                got = {s.a[0] for s in c06.deep(e, v) if s.op == "par"}
                                ck.ob(f"{a.split('::')[-1]}.{f}:made", got == {f}, f"{b.path} makes {f} from {sorted(got)}", b.path)
    ck.floor("option accessors", n, 8)


# ------------------------------------------------------------------ reductions
def config_of(p, fa):
    """the configuration type a factory's parse_config builds"""
    for b in p.methods(FACT, "parse_config"):
        if b.self_ty is not None and b.self_ty.adt == fa:
            rc = cfg.trait(p, "ReductionConfig")
            ts = {i["self_ty"].adt for i in p.impls_of(rc) if i["self_ty"].k == "adt"}
            st = [b]
            seen = set()
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                for t in [l for l in range(len(x.locals))]:
                    a = x.lty(t).strip()
                    for z in tys(a):
                        if z in ts:
                            return z
                for f, sp, t in q.callees(p, x):
                    c = q.body_of(p, f) if f else None
                    if c is not None and c.crate in p.crates:
                        st.append(c)
    return None


def tys(t, d=0):
    if t.k == "adt":
        yield t.adt
    if d < 4:
        for a in t.a or ():
            if hasattr(a, "k"):
                yield from tys(a.strip(), d + 1)


def leaf(t, fields):
    """option of the downcast configuration a term reads"""
    if t.op == "f" and t.a[1] in fields:
        s = t.a[0]
        if any(x.op == "call" and x.a[0].endswith("downcast_ref") for x in subterms(s)) and s.op == "vf":
            return t.a[1]
    return None


def whole(t):
    return t.op == "vf" and t.a[0].op == "call" and t.a[0].a[0].endswith("downcast_ref") or t.op == "call" and t.a[0].endswith("clone") and t.a[1] and whole(t.a[1][0])


def reductions(ck, p):
    its = reds.impl_types(p)
    n = 0
    for fa, b in sorted(reds.factories(p).items()):
        ct = config_of(p, fa)
        nm = fa.split("::")[-1]
        if not ck.ob(f"{nm}:config", ct is not None, f"the configuration type of {fa} was not found", b.path):
            continue
        fields = [f["n"] for f in p.adts[ct]["vs"][0]["f"]]
        e = Engine(p, b)
        made = set()
        for x in e.events:
            for a in list(x.args) + ([x.ret] if x.ret is not None else []):
                for s in subterms(a):
                    for s in c06.deep(e, s) if s.op == "phi" else [s]:
                        if s.op == "agg" and s.a[0] in its:
                            made.add(s)
        ck.ob(f"{nm}:state", made and len({s.a[0] for s in made}) == 1, f"{b.path} does not make one kind of reduction", b.path)
        if not made:
            continue
        adt = list(made)[0].a[0]
        # ---- where the options go
        deps = {}  # state field -> options (of this configuration, or global: prefixed)
        for s in made:
            for g, v in zip(s.a[2], s.a[3]):
                d = deps.setdefault(g, set())
                if whole(v):
                    d |= {"*"}
                    continue
                for y in c06.deep(e, v):
                    l = leaf(y, fields)
                    if l:
                        d.add(l)
                    if y.op == "f" and y.a[0].op == "par" and y.a[0].a[0] == gparam(b):
                        d.add("global." + y.a[1])
                if g in fields:
                    ck.ob(f"{nm}.{g}:stored", any(leaf(y, fields) == g for y in c06.deep(e, v)), f"the {g} of {adt} is not made from the option {g}", b.path)
        child = set()
        for x in e.events:
            if x.kind == "call" and x.name.endswith("ReductionFactory::create"):
                opts = {leaf(y, fields) for y in c06.deep(e, x.args[1])} - {None}
                child |= opts
                ck.ob(f"{nm}:child", len(opts) == 1, f"a sub-model is not configured from one option: {sorted(opts)}", q.loc(x))
                ck.ob(f"{nm}:child-global", x.args[2].op == "par" and x.args[2].a[0] == gparam(b), "a sub-model is not given the same global configuration", q.loc(x))
        # ---- what the options do
        infl = {}
        engs = {}
        for m in reds.METHODS:
            mb = its[adt][m]
            if mb is None:
                continue
            engs[m] = me = reds.explore(p, mb, adt)
            infl[m] = influence(p, me, adt, deps, fields)
        allm = set().union(*infl.values()) if infl else set()
        for f in fields:
            n += 1
            ck.ob(f"{ct.split('::')[-1]}.{f}", f in allm or f in child, f"the option {f} of {ct.split('::')[-1]} does not reach prediction, learning or a sub-model", ct)
        nested(ck, p, ct, engs, deps, fields)
        both = infl.get("predict", set()) | infl.get("learn", set())
        for f in sorted(both - infl.get("predict_then_learn", set())):
            ck.bad(f"{nm}.{f}:together", f"the option {f} has an effect in predict or learn but none in predict_then_learn", adt)
        # the global options of whoever reads features itself
        for g in sorted({o for d in deps.values() for o in d if o.startswith("global.")}):
            ck.ob(f"{nm}.{g}", g in allm, f"the reduction takes {g} but does not use it", adt)
        if any(x.kind == "call" and re.search(r"(^|::)(get_namespace|all_features|namespaces)$", x.name) for me in engs.values() for x in me.events) and not child:
            g0 = p.adts.get(gtype(p))
            for f in g0["vs"][0]["f"]:
                ck.ob(f"{nm}.global.{f['n']}:base", "global." + f["n"] in allm, f"a base learner does not take {f['n']} of the global configuration into account", adt)
        roles(ck, nm, ct, engs, deps, fields)
        shown(ck, p, nm, ct, engs, deps, fields)
    ck.floor("reduction options", n, 26)


def nested(ck, p, ct, engs, deps, fields):
    """options inside the value of an option (a loss function's, say)"""
    ts = set(cfg.types(p))
    want = []

    def go(f, adt, pre, d=0):
        for v in p.adts[adt]["vs"]:
            for g in v["f"]:
                t = types_of(p, adt, g).strip()
                if t.k == "adt" and t.adt in ts and d < 3:
                    go(f, t.adt, pre + (g["n"],), d + 1)
                elif not g["n"].isdigit():
                    want.append((f, pre + (g["n"],), adt))

    for g in p.adts[ct]["vs"][0]["f"]:
        t = types_of(p, ct, g).strip()
        if t.k == "adt" and t.adt in ts and not re.search(r"::(JsonReductionConfig|NamespaceDef|PascalCaseString)$", t.adt):
            go(g["n"], t.adt, ())
    if not want:
        return
    have = set()
    for e in engs.values():
        for s in uniq(e):
            path = []
            while s.op in ("f", "vf"):
                path.append(s.a[-1])
                s = s.a[0]
            path = path[::-1]
            if isself(s) and path and path[0] in deps:
                if "*" in deps[path[0]]:
                    path = path[1:]
                    have.add((path[0] if path else None, tuple(path[1:])))
                else:
                    for o in deps[path[0]]:
                        have.add((o, tuple(path[1:])))
    for f, pth, adt in want:
        ck.ob(f"{ct.split('::')[-1]}.{f}.{'.'.join(x for x in pth if not x.isdigit())}", any(o == f and h[: len(pth)] == pth for o, h in have), f"the option {pth[-1]} of {adt.split('::')[-1]} does not reach prediction or learning", adt)


def gtype(p):
    return next(a for a in p.adts if a.endswith("global_config::GlobalConfig"))


def gparam(b):
    for i in range(1, b.argc + 1):
        t = b.lty(i).strip()
        if t.k == "adt" and t.adt.endswith("::GlobalConfig"):
            return b.lname(i) or f"p{i}"


def isself(t):
    if t.op == "par":
        return t.a[0] == "self"
    if t.op == "phi":
        r = t.a[1][0] if t.a[1] else None
        return bool(r) and r[0] == "M" and isinstance(r[1], Term) and isself(r[1]) and len(t.a[1]) == 1
    if t.op in ("deref", "upd", "wupd"):
        return isself(t.a[0])
    return False


def options_of(t, deps, fields):
    """options a term of a reduction's method reads"""
    if t.op == "phi" and len(t.a[1]) > 1:
        r = t.a[1][0]
        if r[0] == "M" and isinstance(r[1], Term) and isself(r[1]):
            return state([s[1] for s in t.a[1][1:] if s[0] == "f"], deps, fields)
    if t.op != "f":
        return ()
    path = []
    while t.op == "f":
        path.append(t.a[1])
        t = t.a[0]
    if not isself(t):
        return ()
    return state(path[::-1], deps, fields)


def state(path, deps, fields):
    if not path or path[0] not in deps:
        return ()
    d = deps[path[0]]
    if "*" in d:
        return (path[1],) if len(path) > 1 and path[1] in fields else ()
    return tuple(d)


def sinks(e):
    for x in e.events:
        if x.kind in SINK:
            yield from x.args
    for n in e.nodes:
        for m, lab in n.succ:
            if lab is not None and isinstance(lab[0], Term):
                yield lab[0]


def influence(p, e, adt, deps, fields):
    out = set()
    seen = set()
    for a in sinks(e):
        for s in c06.deep(e, a, seen):
            out.update(options_of(s, deps, fields))
    return out


def opts(t, deps, fields):
    """options a term is computed from, apart from what a sub-model returned"""
    return {o for s in outside_child(t) for o in options_of(s, deps, fields)}


# what kind of quantity an option is, where the formula shows it
def roles(ck, nm, ct, engs, deps, fields):
    cn = tab.norm(ct)
    if "squarecb" in cn:
        for m, e in engs.items():
            for s in uniq(e):
                if s.op == "call" and s.a[0].endswith("f32::powf") and opts(s, deps, fields):
                    ck.ob(f"{nm}:exponent:{m}", opts(s.a[1][1], deps, fields) == {"gamma_exponent"} and not opts(s.a[1][0], deps, fields), f"the exponent of the learning rate is not gammaExponent: {pp(s)[:120]}", m)
                if s.op == "bin" and s.a[0] == "Mul" and any(y.op == "call" and y.a[0].endswith("f32::powf") for y in s.a[1:]):
                    o = opts(s, deps, fields)
                    ck.ob(f"{nm}:scale:{m}", o == {"gamma_exponent", "gamma_scale"}, f"the scale of the learning rate is not gammaScale: {pp(s)[:120]}", m)
    if "softmax" in cn:
        for m, e in engs.items():
            for s in uniq(e):
                if s.op == "call" and re.search(r"f32::exp2?$", s.a[0]) and opts(s, deps, fields):
                    ck.ob(f"{nm}:exponent:{m}", opts(s, deps, fields) == {"lambda"}, f"the exponent of the softmax is not scaled by lambda: {pp(s)[:120]}", m)


    if "coin" in cn:
        # an initial wealth is added to the wealth a weight has won: that is alpha, wherever it is done
        for m, e in engs.items():
            for s in uniq(e):
                if s.op == "bin" and s.a[0] == "Add":
                    for x, y in ((s.a[1], s.a[2]), (s.a[2], s.a[1])):
                        if x.op in ("idx", "elem") or x.op == "f" and x.a[0].op == "idx" or re.search(r"\[\d\]$", pp(x)):
                            if y.op == "k" or y.op == "f" and options_of(y, deps, fields):
                                ck.ob(f"{nm}:wealth:{m}", opts(y, deps, fields) == {"alpha"}, f"the initial wealth of a weight is not alpha: {pp(y)[:60]}", m)
    if "elementwise" in cn:
        for m, e in engs.items():
            cc = {id(x) for x in reds.child_calls(e)}
            rem = [x for x in e.events if x.kind == "call" and x.name.endswith("remove_namespace") and x.args and any("one" in options_of(s, deps, fields) for s in subterms(x.args[1]))]
            ends = {pp(x.args[1]) for x in rem}
            if not rem or not cc:
                continue
            on = lambda lab, val: options_of(lab[0], deps, fields) == ("keep_original_features",) and lab[1] is val
            evs, _ = q.walk(e, None, stop_ev=lambda x: id(x) in cc, stop_edge=lambda lab: on(lab, False))
            hit = [x for x in evs if any(x is y for y in rem)]
            ck.ob(f"{nm}:keep:{m}", not hit, "the original features are hidden from the sub-model although they are to be kept", q.loc(hit[0]) if hit else "")
            ck.ob(f"{nm}:both:{m}", len(ends) == 2, f"not both of the namespaces are hidden from the sub-model: {sorted(ends)}", q.loc(rem[0]))
            for t in sorted(ends):
                hit = q.not_preceded(e, lambda x: id(x) in cc, lambda x: any(x is y for y in rem) and pp(x.args[1]) == t, lambda lab: on(lab, True))
                ck.ob(f"{nm}:drop:{m}", not hit, "the original features are shown to the sub-model although they are not to be kept", q.loc(hit[0]) if hit else "")


def uniq(e):
    seen = set()
    for a in sinks(e):
        yield from c06.deep(e, a, seen)


# ------------------------------------------------------------------ options that show something
def outside_child(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "call" and x.a[0].startswith("child."):
            continue
        yield x
        st.extend(children(x))


def shown(ck, p, nm, ct, engs, deps, fields):
    """on/off options named after what a reduction sees: that value is written exactly when the option is on"""
    for m, e in engs.items():
        outs = [x for x in e.events if x.kind == "call" and re.search(r"(::_e?print|write_fmt|write_all)$", x.name)]
        if not outs:
            continue
        b = e.start.ctx.body
        what = {}
        for x in outs:
            for a in x.args:
                for s in outside_child(a):
                    if s.op == "call" and re.search(r"Argument\w*::(new_\w+|from_usize)$", s.a[0]) and s.a[1]:
                        v = s.a[1][0]
                        for y in outside_child(v):
                            if y.op == "par" and y.a[0] in fields:
                                what.setdefault(y.a[0], []).append(x)
                        if any(y.op == "call" and y.a[0].startswith("child.") for y in subterms(v)):
                            what.setdefault("prediction", []).append(x)
            o = {z for a in x.args for z in opts(a, deps, fields)}
            for f in ("id", "indent"):
                if f in fields:
                    ck.ob(f"{nm}:{m}:{f}", f in o, f"a message of {m} is written without its {f}", q.loc(x))
        pars = {b.lname(i) for i in range(1, b.argc + 1)}
        cc = reds.child_calls(e)
        for f in fields:
            if f in ("id", "indent") or not (f in pars or f == "prediction" and any(c.name != "child.learn" for c in cc)):
                continue
            xs = what.get(f, [])
            on = lambda lab, val: isinstance(lab[0], Term) and options_of(lab[0], deps, fields) == (f,) and lab[1] is val
            if not ck.ob(f"{nm}:{m}:{f}:shown", xs, f"{m} never shows the {f} although the option asks for it", b.path):
                continue
            ids = {id(x) for x in xs}
            evs, _ = q.walk(e, None, stop_edge=lambda lab: lab is not None and on(lab, True))
            hit = [x for x in evs if id(x) in ids]
            ck.ob(f"{nm}:{m}:{f}:only", not hit, f"{m} shows the {f} although the option is off", q.loc(hit[0]) if hit else "")
            evs, _ = q.walk(e, None, stop_ev=lambda x: id(x) in ids, stop_edge=lambda lab: lab is not None and on(lab, False))
            hit = [x for x in evs if x.kind == "ret"]
            ck.ob(f"{nm}:{m}:{f}:always", not hit, f"{m} can leave out the {f} although the option is on", q.loc(hit[0]) if hit else "")


# ------------------------------------------------------------------ command line
def commands(ck, p):
    tr = cfg.trait(p, "Command")
    n = 0
    for b in sorted(p.bodies.values(), key=lambda b: b.path):
        if b.kind != "method" or b.trait != tr or b.m != "execute" or not b.crate.startswith("reml"):
            continue
        adt = b.lty(1).strip().adt
        nm = adt.split("::")[-1]
        e = Engine(p, b, opaque=lambda bb, f: not bb.crate.startswith("reml"), models=dict(c14.SPAWN))
        if not [r for r in e.events if r.kind == "ret" and not c08.fails(r.args[0])]:
            ck.count("commands that are not implemented and say so")
            continue
        used = set()
        st = list(sinks(e))
        bodies = [(e, x) for x in st]
        seen = set()
        for e0, t in bodies:
            for s in c06.deep(e0, t, seen):
                pth = argpath(s, b.lname(1) or "p1")
                if pth:
                    used.add(pth)
        for pth, ty in argfields(p, adt):
            n += 1
            ck.ob(f"{nm}.{'.'.join(x[1] for x in pth)}", any(u[: len(pth)] == pth for u in used), f"the command line option {'.'.join(x[1] for x in pth)} of {nm} has no effect", adt)
        if any(x.name == "spawn" or x.name == "thread_scope" for x in e.events) or "Train" in nm:
            train(ck, p, b, e)
    ck.floor("command line options", n, 14)
    quiet(ck, p)


def argfields(p, adt, pre=(), d=0):
    for v in p.adts[adt]["vs"]:
        en = len(p.adts[adt]["vs"]) > 1
        for f in v["f"]:
            here = pre + ((v["n"] if en else None, f["n"]),)
            ty = types_of(p, adt, f)
            a = ty.strip() if ty is not None else None
            if a is not None and a.k == "adt" and a.adt in p.adts and d < 3 and re.search(r"(Args?|SubCommand\w*)$", a.adt):
                yield from argfields(p, a.adt, here, d + 1)
            else:
                yield here, ty


def types_of(p, adt, f):
    return p.adts[adt]["types"][f["t"]] if isinstance(f["t"], int) else f["t"]


def argpath(t, par):
    path = []
    while True:
        if t.op == "f":
            path.append((None, t.a[1]))
            t = t.a[0]
        elif t.op == "vf":
            path.append((t.a[1], t.a[2]))
            t = t.a[0]
        elif t.op == "deref":
            t = t.a[0]
        else:
            break
    return tuple(path[::-1]) if t.op == "par" and t.a[0] == par else None


def opt(name, par="args", some=True):
    t = mk("f", mk("par", par), name)
    return mk("vf", t, "Some", "0") if some else t


def clean(t):
    while t.op in ("deref", "ref", "cref") or t.op == "call" and re.search(r"::(clone|as_ref|as_str|as_deref|deref|to_owned|to_string|as_slice|borrow|into|iter|into_iter)$", t.a[0]) and t.a[1]:
        t = t.a[1][0] if t.op == "call" else t.a[0]
        if not isinstance(t, Term):
            return None
    return t


def train(ck, p, b, e0):
    T = c14.Train(ck, p, b, {})
    e = T.engine(b, nested=True)
    par = b.lname(1) or "p1"
    fns = {}
    for x in e.events:
        if x.kind == "call":
            fns.setdefault(x.name.split("::")[-2] + "::" + x.name.split("::")[-1] if "::" in x.name else x.name, []).append(x)
    rets = [x for x in e.events if x.kind == "ret" and not c08.fails(x.args[0])]

    def some(lab, name, v):
        return isinstance(lab[0], Term) and lab[0].op == "discr" and argpath(lab[0].a[0], par) == ((None, name),) and lab[1] == v

    # files
    for what, fn, name, k in (("the data", "File::open", "data", False), ("the predictions file", "File::create", "predictions", True), ("the model file", "fs::write", "output_model", True)):
        xs = fns.get(fn, [])
        if not ck.ob(f"train.{name}:file", xs, f"no file is opened for {what}"):
            continue
        for x in xs:
            ck.ob(f"train.{name}:name", clean(x.args[0]) is opt(name, par, k), f"{what} is not the one given: {pp(x.args[0])[:120]}", q.loc(x))
        if k:
            ids = {id(x) for x in xs}
            evs, _ = q.walk(e, None, stop_ev=lambda x: id(x) in ids, stop_edge=lambda lab: some(lab, name, "None"))
            hit = [x for x in evs if x in rets]
            ck.ob(f"train.{name}:given", not hit, f"{what} that was asked for is not made on every successful run", q.loc(hit[0]) if hit else "")
            ser = name != "output_model" or all(any(y.op == "call" and y.a[0].endswith("serialize_model") for y in c06.deep(e, x.args[1])) for x in xs)
            ck.ob(f"train.{name}:content", ser, "what is written to the model file is not the model", q.loc(xs[0]))
    # every prediction is written
    parts = [("serial", e)]
    for c in fns.get("thread_scope", []):
        caps = [v for v in c.args[0].a[1] if frompred(e, v, par)]
        if caps:
            parts.append(("parallel", Engine(p, p.bodies[c.args[0].a[0]], args=[c.args[0]], opaque=T.op, models=dict(c14.SPAWN))))
    ck.ob("train.predictions:parallel", not fns.get("thread_scope") or len(parts) > 1, "parallel training does not know the predictions file")
    wrote = {}
    for kind, en in parts:
        made = [x for x in en.events if x.kind == "call" and x.name.endswith("Workspace::predict_then_learn")]
        nofile = lambda lab: isinstance(lab[0], Term) and (lab[0].op == "discr" and lab[1] == "None" and frompred(en, lab[0].a[0], par) or lab[1] is False and lab[0].op == "call" and lab[0].a[0].endswith("is_some") and frompred(en, lab[0], par))
        wrote.setdefault(kind, False)
        for x in made:
            ws = {id(y) for y in en.events if y.kind == "call" and re.search(r"write_fmt$|write_all$", y.name) and any(s is x.ret for a in y.args for s in c06.deep(en, a)) and any(argpath(s, par) and argpath(s, par)[0] == (None, "predictions") for s in c06.deep(en, y.args[0]))}
            if not ws:
                continue  # the copy of the loop for a run without a file
            wrote[kind] = True
            evs, _ = q.walk(en, x, stop_ev=lambda y: id(y) in ws, stop_edge=nofile)
            nxt = [y for y in evs if y.kind == "call" and (T.get(y) or c14.RECV.search(y.name))]
            ck.ob(f"train.predictions:every:{kind}", not nxt, "a prediction can be left out of the predictions file", q.loc(nxt[0]) if nxt else "")
        hit = q.not_preceded(en, lambda y: y.kind == "call" and y.name.endswith("Workspace::learn"), None, nofile)
        ck.ob(f"train.predictions:made:{kind}", not hit, "an example can be learned from without a prediction although predictions are to be written", q.loc(hit[0]) if hit else "")
    for kind, w in wrote.items():
        ck.ob(f"train.predictions:written:{kind}", w, f"predictions are not written to the file in {kind} training")
    # queues, threads, progress, metrics
    for x in [x for x in e.events if x.kind == "call" and c14.CHAN.search(x.name)]:
        ck.ob("train.queue_size", x.args and clean(x.args[0]) is opt("queue_size", par, False), f"a queue does not have the size given: {pp(x.args[0])[:100] if x.args else ''}", q.loc(x))
    ends = [a for x in fns.get("thread_scope", []) for v in x.args[0].a[1] for a in [v] if any(argpath(s, par) == ((None, "num_parse_threads"), ("Some", "0")) for s in c06.deep(e, v)) and not any(s.op == "call" and c14.CHAN.search(s.a[0]) for s in subterms(v))]
    ck.ob("train.num_parse_threads", ends, "the number of parse threads given does not reach the threads")
    for v in ends:
        al = [a for a in tab.alts(e, v) if any(argpath(s, par) for s in subterms(a))]
        ck.ob("train.num_parse_threads:exact", all(clean(a) is opt("num_parse_threads", par) for a in al), f"the number of parse threads is not the one given: {[pp(a)[:80] for a in al][:2]}")
    gm = [x for x in e.events if x.kind == "call" and x.name.endswith("get_metric") and any(argpath(s, par) for a in x.args for s in c06.deep(e, a))]
    ck.ob("train.metrics", gm, "the metrics given are not looked up")
    for x in gm:
        its = [s for s in c06.deep(e, x.args[0]) if s.op == "call" and s.a[0].endswith("next")]
        nx = [y for y in e.events if y.kind == "call" and any(y.ret is s for s in its)]
        for y in nx:
            pushes = {id(z) for z in e.events if z.kind == "call" and z.name.endswith("Vec::push") and any(s is x.ret for s in c06.deep(e, z.args[1]))}
            starts = [m for n in e.nodes for m, lab in n.succ if lab is not None and isinstance(lab[0], Term) and lab[0].op == "discr" and lab[0].a[0] is y.ret and lab[1] == "Some"]
            again = c14.walk_from(e, starts, stop_ev=lambda z: id(z) in pushes)
            ck.ob("train.metrics:each", starts and not [z for z in again if z is y or z in rets], "a metric that was given can be left out", q.loc(y))
    ms = {s for x in e.events for a in x.args for s in subterms(a) if s.op == "agg" and "period" in s.a[2]}
    for s in ms:
        v = dict(zip(s.a[2], s.a[3]))["period"]
        if any(argpath(z, par) for z in subterms(v)):
            ck.ob("train.progress", clean(v) is opt("progress", par, False), f"the output period is not the one given: {pp(v)[:80]}")
    ck.ob("train.progress:kept", any(any(argpath(z, par) == ((None, "progress"),) for z in subterms(dict(zip(s.a[2], s.a[3]))["period"])) for s in ms), "the output period given is not used")
    period(ck, p)


def frompred(e, t, par):
    return any(argpath(s, par) and argpath(s, par)[0] == (None, "predictions") for s in c06.deep(e, t)) and not any(s.op == "call" and s.a[0].endswith("predict_then_learn") for s in subterms(t))


def period(ck, p):
    adt = next((a for a in p.adts if a.endswith("::OutputPeriod")), None)
    if adt is None:
        return
    uses = 0
    for b in p.bodies.values():
        if b.kind != "method" or not b.crate.startswith("reml") or b.derived or b.trait or b.self_ty is None or b.self_ty.adt is None or b.lty(0).s != "bool":
            continue
        fs = [f["n"] for f in p.adts[b.self_ty.adt]["vs"][0]["f"] if types_of(p, b.self_ty.adt, f).strip().isadt(adt)] if b.self_ty.adt in p.adts else []
        if not fs:
            continue
        e = Engine(p, b, opaque=lambda bb, f: not bb.crate.startswith("reml"))
        for v in p.adts[adt]["vs"]:
            uses += 1
            hit = [s for x in e.events if x.kind in SINK for a in x.args for s in c06.deep(e, a) if s.op == "vf" and s.a[1] == v["n"] and s.a[0].op == "f" and s.a[0].a[1] == fs[0]]
            ck.ob(f"period:{b.m or b.path.split('::')[-1]}:{v['n']}", hit, f"{b.path} does not look at the period of {v['n']}", b.path)
    ck.floor("periods obeyed", uses, 2)
    for b in p.bodies.values():
        if b.kind == "method" and b.m == "from_str" and b.self_ty is not None and b.self_ty.adt == adt:
            e = Engine(p, b, opaque=lambda bb, f: not bb.crate.startswith("reml"))
            seen = {}
            for x in e.events:
                if x.kind == "ret":
                    for s in c06.deep(e, x.args[0]):
                        if s.op == "agg" and s.a[0] == adt:
                            seen.setdefault(s.a[1], []).append((s, x))
            for v in p.adts[adt]["vs"]:
                for s, x in seen.get(v["n"], []):
                    pre = {z.a[0] if isinstance(z.a[0], str) else z.a[0][1] for y in c06.deep(e, s) for z in ([y] if y.op == "k" else []) if isinstance(z.a[0], str) or isinstance(z.a[0], tuple) and z.a[0][0] in ("char", "str")}
                    pre = {str(z) if not isinstance(z, int) else chr(z) for z in pre} & {"+", "*"}
                    ck.ob(f"period:read:{v['n']}", pre <= ({"*"} if v["n"].startswith("Mul") else {"+"}) and (pre or not v["n"].startswith("Mul")), f"{b.path} reads {v['n']} from a text that starts with {sorted(pre)}", q.loc(x))
                ck.ob(f"period:readable:{v['n']}", v["n"] in seen, f"{b.path} never gives {v['n']}", b.path)


def quiet(ck, p):
    tr = cfg.trait(p, "Command")
    n = 0
    for b in p.bodies.values():
        if b.crate.startswith("reml") and b.kind in ("fn", "method") and any(f and f.get("trait") == tr and f.get("m") == "execute" for f, sp, t in q.callees(p, b)):
            e = Engine(p, b, opaque=lambda bb, f: bb.m == "execute" or not bb.crate.startswith("reml"))
            for x in e.events:
                if x.kind == "call" and x.callee and x.callee.get("m") == "execute" and x.callee.get("trait") == tr:
                    n += 1
                    ck.ob("quiet", x.args[1].op == "f" and x.args[1].a[1] == "quiet", f"a command is not told whether to be quiet: {pp(x.args[1])[:80]}", q.loc(x))
    ck.floor("commands started", n, 8)
