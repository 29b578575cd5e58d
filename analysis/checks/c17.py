"""The Python boundary is compared part by part.  Conversions between mirrored enums are evaluated for every variant and have to give
the variant of the same name with the payload untouched.  Every getter of a Python class is evaluated on what the class's
constructor stores and has to come from the constructor's parameter of that name, unchanged.  Every method has to call the library
function it stands for exactly once on each path that returns a value, with its own parameters in their order, and return what that
call gave.  The parser made for a format is the one of that name, created with the entry's input types and the workspace's seed and
bits.  The classes, methods, attributes, enum members and parameter names registered in the compiled module are compared with the
type stubs and with the names, aliases and forwarding methods of the Python package (syntax tree of the sources)."""
import ast
import os
import re
import facts, flow, q, serde_tab, tab
from engine import Engine, mk, pp, subterms
from flow import peel

CR = "reductionml"
CORE = "reductionml_core"
WORDS = ("wrapped", "sparse", "features", "forreturn", "parser", "prediction", "label", "ref", "text")
# methods that stand for a library function of another name
ALIAS = {"create_from_config": "new", "create_from_json_model": "deserialize_from_json", "serialize": "serialize_model", "parse": "parse_chunk", "get_entry_reduction_types": "types"}
LIB = re.compile(r"(workspace::Workspace::(new|create_from_model|deserialize_from_json|serialize_model|serialize_to_json|predict|learn|predict_then_learn)|TextModeParser(?:>)?::(parse_chunk|get_next_chunk|extract_feature_names)|ReductionWrapper::types)$")

PARSE = (f"{CORE}::parsers::text_parser::TextModeParser::parse_chunk", "TextModeParser::parse_chunk")


def run(ck):
    p = ck.prog()
    us = users(p)
    ck.floor("functions of the Python module", len(us), 40)
    cls = classes(p)
    ck.floor("Python classes", len(cls), 12)
    mem = members(p, cls)
    convs = conversions(ck, p, us)
    ctors(ck, p, cls, mem, convs)
    forwards(ck, p, cls, mem, convs)
    parsed(ck, p, cls, mem)
    made = factories(ck, p, us, cls, convs)
    stub = Stub(facts.REPO)
    names(ck, p, cls, mem, stub, made)
    package(ck, p, cls, mem, stub)


def nrm(s):
    s = re.sub(r"[^a-z0-9]", "", s.split("::")[-1].lower())
    for w in WORDS:
        s = s.replace(w, "")
    return s


def nm(t):
    return str(t.a[0]) if t.op == "call" else ""


def users(p):
    return [b for b in sorted(p.bodies.values(), key=lambda b: b.path) if b.crate == CR and b.kind in ("method", "fn") and not b.derived and "__py" not in b.path and "::_::" not in b.path]


def classes(p):
    """{rust type: Python name}"""
    out = {}
    for b in p.bodies.values():
        m = re.search(r"PyTypeInfo for ([\w:]+)>::NAME$", b.path)
        if b.crate == CR and b.kind == "const" and m:
            ks = [o["k"]["str"] for bb in b.bb for _, r, _ in bb["s"] for o in r.get("o", ()) if "k" in o and "str" in o["k"]]
            if len(ks) == 1:
                out[m.group(1)] = ks[0]
    return out


def members(p, cls):
    """{rust type: {"new"|"get"|"method"|"special": {python name: function}}}"""
    out = {a: {"new": {}, "get": {}, "method": {}, "special": {}} for a in cls}
    for b in p.bodies.values():
        m = re.search(r"impl ([\w:]+)>::__pymethod_(\w+?)__$", b.path)
        if b.crate != CR or not m or m.group(1) not in out:
            continue
        n = m.group(2)
        f = target(p, b)
        if f is None:
            continue
        if n == "__new__":
            out[m.group(1)]["new"]["__init__"] = f
        elif n.startswith("get_") and any(x in b.path for x in ("__pymethod_get_",)) and getter(p, b, f):
            x = n[4:]
            out[m.group(1)]["get"][x[4:] if x.startswith("get_") else x] = f
        elif n.startswith("__"):
            out[m.group(1)]["special"][n] = f
        else:
            out[m.group(1)]["method"][n] = f
    return out


def getter(p, b, f):
    """the wrapper of an attribute is named get_ and the function's own name"""
    return re.search(r"__pymethod_get_" + re.escape(f.path.split("::")[-1]) + "__$", b.path) is not None


def target(p, b):
    """the function of the module a generated wrapper calls, directly, in a closure of its, or handed over by name"""
    bs = [b] + [x for x in p.bodies.values() if x.kind == "closure" and x.root == b.id]
    for x in bs:
        fs = [f for f, _, _ in q.callees(p, x) if f] + list(q.fn_consts(x))
        for f in fs:
            t = q.body_of(p, f)
            if t is not None and t.crate == CR and "__py" not in t.path and t.kind in ("fn", "method") and not t.trait:
                return t
    return None


# ------------------------------------------------------------------ conversions
def is_enum(p, t):
    t = t.strip()
    return t.k == "adt" and t.adt in p.adts and len(p.adts[t.adt]["vs"]) > 1 and t.adt.split("::")[0] in (CR, CORE)


def inner_enum(p, t):
    """the enum of a newtype around one"""
    t = t.strip()
    if t.k == "adt" and t.adt in p.adts and t.adt.startswith(CR + "::") and len(p.adts[t.adt]["vs"]) == 1 and len(p.adts[t.adt]["vs"][0]["f"]) == 1:
        ty = p.adts[t.adt]["types"][p.adts[t.adt]["vs"][0]["f"][0]["t"]]
        return ty if is_enum(p, ty) else None
    return None


def conversions(ck, p, us):
    """every conversion keeps the variant; returns the functions"""
    out = []
    n = 0
    for b in us:
        if b.m not in ("from", "into", "try_into", "try_from", "into_py", "to_features") and not (b.argc == 1 and is_enum(p, b.lty(1)) and is_enum(p, b.lty(0))):
            continue
        if b.argc < 1:
            continue
        src = b.lty(1)
        if is_enum(p, src):
            adt, wrap = src.strip().adt, None
        elif inner_enum(p, src) is not None and b.m == "into_py":
            adt, wrap = inner_enum(p, src).strip().adt, src.strip().adt
        else:
            continue
        out.append(b)
        opq = lambda x, f: f["path"].endswith("Py::<T>::new")
        for v, e in variants(p, b, adt, wrap, opq):
            rs = [t for _, t in tab.rets(e)]
            key = f"{adt.split('::')[-1]}->{target_name(b)}:{v['n']}"
            if not rs:
                # a value this side cannot hold: values that never reach it, and the kind the documentation names as not implemented
                ck.ob(f"unsupported:{key}", v["n"] == "Binary" and "Label" in key or v["n"].endswith("Ref"), f"{b.path} has no counterpart for {v['n']}", b.path)
                continue
            n += 1
            good = True
            why = ""
            for t in rs:
                t = ok_of(p, t)
                if b.m == "into_py":
                    ns = [s for s in subterms(t) if s.op == "call" and nm(s).endswith("Py::new")]
                    if not ns and t.op == "call" and nm(t).endswith("into_py") and v["f"]:
                        # a plain value: the whole payload, as a Python number
                        w = t.a[1][0]
                        if not (untouched(w) and re.search(r"as " + v["n"] + r"\)(\.0)+$", pp(w)) and bare(p, adt, v)):
                            good, why = False, pp(t)[:120]
                        continue
                    if len(ns) != 1:
                        good, why = False, pp(t)[:120]
                        continue
                    w = ns[0].a[1][-1]
                    who = w.a[0] if w.op == "agg" else None
                    if who is None:
                        ty = flow.typeof(p, b, w)
                        who = ty.strip().adt if ty is not None and ty.strip().k == "adt" else None
                    if who is None and w.op == "vf":
                        who = w.a[1]
                    fine = who is not None and (nrm(who) == nrm(v["n"]) or nrm(payload_name(p, v, adt) or "?") == nrm(who))
                    if not fine or not untouched(w) or plain((e,), w) or v['f'] and not any(x.op == 'vf' and x.a[1] == v['n'] for x in deep((e,), w)):
                        good, why = False, pp(w)[:120]
                elif t.op == "agg" and is_variant(p, t):
                    if nrm(t.a[1]) != nrm(v["n"]) or t.a[3] and not all(untouched(x) for x in t.a[3]):
                        good, why = False, pp(t)[:120]
                else:
                    good, why = False, pp(t)[:120]
            ck.ob(f"same:{key}", good, f"{b.path} turns {v['n']} into something else: {why}", b.path)
    ck.floor("variants converted", n, 25)
    return {b.id for b in out}


def bare(p, adt, v):
    """the payload holds one primitive and nothing else"""
    ty = p.adts[adt]["types"][v["f"][0]["t"]].strip()
    for _ in range(3):
        if ty.k != "adt":
            return ty.s in ("bool", "f32", "f64", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")
        a = p.adts.get(ty.adt)
        if a is None or len(a["vs"]) != 1 or len(a["vs"][0]["f"]) != 1:
            return False
        ty = a["types"][a["vs"][0]["f"][0]["t"]].strip()
    return False


def payload_name(p, v, adt):
    if len(v["f"]) == 1:
        ty = p.adts[adt]["types"][v["f"][0]["t"]].strip()
        if ty.k == "adt":
            return ty.adt
    return None


def target_name(b):
    t = b.lty(0).s if b.m != "into_py" else "object"
    m = re.findall(r"[\w:]*::(\w+)", t)
    return m[-1] if m else t


def variants(p, b, adt, wrap, opq):
    if wrap is None:
        yield from tab.by_variant(p, b, 0, adt, opaque=opq)
        return
    v0 = p.adts[wrap]["vs"][0]
    for v in p.adts[adt]["vs"]:
        nmv = b.lname(1) or "p1"
        inner = tab.agg_of(mk("f", mk("par", nmv), v0["f"][0]["n"]), adt, v)
        args = [None] * b.argc
        args[0] = mk("agg", wrap, v0["n"], (v0["f"][0]["n"],), (inner,))
        yield v, Engine(p, b, args=args, opaque=opq)


def ok_of(p, t):
    """under Ok, Some and the module's own newtypes around an enum"""
    while t.op == "agg" and len(t.a[3]) == 1:
        x = t.a[3][0]
        if not (t.a[1] in ("Ok", "Some") or t.a[0].startswith(CR + "::") and len(p.adts[t.a[0]]["vs"]) == 1 and x.op == "agg" and is_variant(p, x)):
            break
        t = x
    return t


def is_variant(p, t):
    return t.a[0] in p.adts and len(p.adts[t.a[0]]["vs"]) > 1 and t.a[0].split("::")[0] in (CR, CORE)


def untouched(t):
    """only wrapped, unwrapped or borrowed: nothing computed"""
    return not any(s.op == "call" and not PLAIN.search("::" + nm(s)) and not nm(s).endswith("Py::new") for s in subterms(t)) and not any(s.op in ("bin", "un") or s.op == "k" and isinstance(s.a[0], (tuple, str)) and s.a[0] not in ("",) for s in subterms(t) if s.op != "phi") and any(s.op in ("par", "vf", "f", "phi") for s in subterms(t))


# ------------------------------------------------------------------ constructors and attributes
def deep(es, t, limit=6000):
    """subterms through the joins of several evaluations"""
    seen, st = set(), [t]
    while st and len(seen) < limit:
        for s in subterms(st.pop()):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "phi":
                for e in es:
                    if s in e.phi_in:
                        v = e.phi_in[s]
                        st += list(v.values() if isinstance(v, dict) else v)
    return seen


def pars(d):
    return {str(s.a[0]) for s in d if s.op == "par"} - {"py", "_py"}


def ctors(ck, p, cls, mem, convs):
    n = 0
    for a, pyn in sorted(cls.items()):
        new = mem[a]["new"].get("__init__")
        if new is None or not mem[a]["get"]:
            continue
        opq = lambda b, f: b is not None and b.id in convs or f["path"].endswith("Clone::clone")
        ce = Engine(p, new, opaque=opq)
        params = [new.lname(i) for i in range(1, new.argc + 1)]
        stored = {t for _, t in tab.rets(ce)}
        if not ck.ob(f"stored:{pyn}", stored, f"{new.path} gives nothing", new.path):
            continue
        for x, g in sorted(mem[a]["get"].items()):
            n += 1
            if not ck.ob(f"attribute:{pyn}.{x}", x in params, f"{pyn} has an attribute {x} but its constructor takes {params}", g.path):
                continue
            for k, s in enumerate(sorted(stored, key=lambda t: t.id)):
                ge = Engine(p, g, init={g.lname(1) or "p1": lambda y, s=s: s}, opaque=opq)
                ts = [t for _, t in tab.rets(ge)]
                d = set()
                for t in ts:
                    d |= deep((ge, ce), t)
                ok = bool(ts) and pars(d) == {x}
                ck.ob(f"returns:{pyn}.{x}", ok, f"{pyn}.{x} returns what the constructor was given as {sorted(pars(d)) or 'nothing'}", g.path)
                ck.ob(f"unchanged:{pyn}.{x}", not any(t.op in ("bin", "un") for t in d), f"{pyn}.{x} is computed from what the constructor stored: {pp(ts[0])[:120] if ts else ''}", g.path)
        text(ck, p, a, pyn, mem, params)
        default(ck, p, a, pyn, new, params)
    ck.floor("attributes of Python classes", n, 14)


def text(ck, p, a, pyn, mem, params):
    """repr(): name=value pairs, each value the attribute of that name"""
    f = mem[a]["special"].get("__repr__")
    if f is None:
        return
    e = Engine(p, f)
    for x in e.events:
        if x.kind == "call" and x.name.endswith("Arguments::new") and len(x.args) == 2 and x.args[0].op == "k":
            labels = re.findall(r"(\w+)=", str(x.args[0].a[0]))
            vals = x.args[1].a[0] if x.args[1].op in ("arr", "tup") else ()
            got = []
            for v in vals:
                v = peel(v.a[1][0]) if v.op == "call" else v
                got.append(v)
            if len(labels) != len(got):
                continue
            for l, v in zip(labels, got):
                g = mem[a]["get"].get(l)
                if g is None:
                    ck.ob(f"repr:{pyn}.{l}", False, f"{pyn}'s text names an attribute {l} it does not have", f.path)
                    continue
                want = {t for _, t in tab.rets(Engine(p, g))}
                ck.ob(f"repr:{pyn}.{l}", any(same_path(v, w) for w in want), f"{pyn}'s text shows {pp(v)[:80]} as {l}", f.path)


def same_path(a, b):
    return a is b or re.sub(r"\bself\b", "", pp(a)) == re.sub(r"\bself\b", "", pp(b)) or pp(peel(a)).endswith(pp(peel(b)).lstrip("self"))


def default(ck, p, a, pyn, new, params):
    """a number a constructor takes when it is not given is the one the library itself takes"""
    core = [f for v in p.adts[a]["vs"] for f in v["f"]]
    if len(core) != 1:
        return
    ty = p.adts[a]["types"][core[0]["t"]].strip()
    if ty.k != "adt" or ty.adt not in p.adts:
        return
    given = set()
    for b in p.bodies.values():
        if b.kind == "closure" and b.crate == CR and f"impl {a}>::__pymethod___new____" in b.path:
            for t in {t for _, t in tab.rets(Engine(p, b))}:
                if t.op == "k" and isinstance(t.a[0], tuple) and t.a[0][0] == "f":
                    given.add(t.a[0])
    if not given:
        return
    own = set()
    for b in p.bodies.values():
        if b.crate == CORE and b.m == "from" and b.lty(0).k == "adt" and b.lty(0).adt == ty.adt and not b.derived:
            for _, t in tab.rets(Engine(p, b)):
                if t.op == "agg":
                    own |= {x.a[0] for x in t.a[3] if x.op == "k" and isinstance(x.a[0], tuple)}
    if own:
        ck.ob(f"default:{pyn}", given == own, f"{pyn} takes {sorted(given)} when a part is not given, the library {sorted(own)}", new.path)


# ------------------------------------------------------------------ methods
def lib(f):
    return LIB.search(f["path"]) is not None


def forwards(ck, p, cls, mem, convs):
    n = 0
    for a, pyn in sorted(cls.items()):
        for m, b in sorted(mem[a]["method"].items()):
            if m == "create_parser":
                continue
            n += 1
            key = f"{pyn}.{m}"
            e = Engine(p, b, opaque=lambda x, f: lib(f) or x is not None and x.id in convs and x.m != "to_features" or x is not None and x.crate == CORE and not x.trait and x.kind == "method")
            calls = [x for x in e.events if x.kind == "call" and LIB.search(x.path or "")]
            want = ALIAS.get(m, m)
            names = {x.path.split("::")[-1] for x in calls}
            if not ck.ob(f"calls:{key}", names == {want}, f"{key} calls {sorted(names) or 'nothing'} of the library instead of {want}", b.path):
                continue
            oks = [x for x in e.events if x.kind == "ret" and any(not failed(t) for t in tab.alts(e, x.args[0]))]
            A = set(calls)
            ck.ob(f"always:{key}", bool(oks) and not q.not_preceded(e, lambda x: x in oks, lambda x: x in A), f"{key} can return a value without calling {want}", b.path)
            twice = [x for x in calls if any(y in A for y in q.after(e, x) if y is not x)]
            ck.ob(f"once:{key}", not twice, f"{key} calls {want} more than once", b.path)
            params = [b.lname(i) for i in range(1, b.argc + 1)]
            for x in calls:
                given = [pars(deep((e,), t)) for t in x.args]
                ck.ob(f"args:{key}", [set([y]) for y in params] == [g for g in given if g], f"{key} hands its parameters {params} to {want} as {[sorted(g) for g in given]}", q.loc(x))
                for t in x.args:
                    ck.ob(f"plain:{key}", not plain((e,), t), f"{key} changes a parameter before handing it to {want} ({sorted(plain((e,), t))}): {pp(t)[:120]}", q.loc(x))
            if b.lty(0).s.replace(" ", "").find("Result<(),") < 0 and b.lty(0).s != "()":
                for r in oks:
                    for t in tab.alts(e, r.args[0]):
                        if not failed(t):
                            d = deep((e,), t)
                            ck.ob(f"result:{key}", any(x.ret in d for x in calls if x.ret is not None) and not plain((e,), t), f"{key} returns something else than what {want} gave: {pp(t)[:120]}", q.loc(r))
    ck.floor("methods of Python classes", n, 10)


PLAIN = re.compile(r"::(from|into|try_from|try_into|into_py|deref(_mut)?|as_ref|as_mut|borrow(_mut)?|clone|to_owned|into_owned|as_str|as_slice|with_gil|depythonize|pythonize|to_string|unwrap\w*|expect|map_err|branch|from_residual|from_output)$|^deref(_mut)?$")


def plain(es, t, conv=None):
    """what a value is computed with, other than conversions of its type and calls of the library"""
    out = set()
    texts = 0
    for s in deep(es, t):
        if s.op in ("bin", "un", "upd", "cat"):
            out.add(s.op)
        elif s.op == "call" and not LIB.search("workspace::" + nm(s)) and not PLAIN.search("::" + nm(s)) and not re.search(r"GlobalConfig::\w+$|ReductionWrapper::types$|::(input|output)_\w+$|Workspace::(get_entry_reduction|global_config)$", nm(s)):
            out.add(nm(s))
        elif s.op == "agg" and s.a[0].split("::")[0] not in (CR, CORE, "core", "alloc", "std"):
            out.add(s.a[0])
        elif s.op == "call" and nm(s).endswith("to_string"):
            texts += 1
            if any(x.op == "call" and nm(x).endswith("to_string") for a in s.a[1] for x in subterms(a)):
                out.add("the text of a text")
    return out


def parsed(ck, p, cls, mem):
    """parse gives the features and the label the library's parser gave"""
    n = 0
    for a, pyn in sorted(cls.items()):
        b = mem[a]["method"].get("parse")
        if b is None:
            continue
        fadt, ladt = f"{CORE}::types::Features", f"{CORE}::types::Label"
        if not ck.anchor("the library's features and labels", fadt in p.adts and ladt in p.adts):
            continue
        feats = [v for v in p.adts[fadt]["vs"] if not v["n"].endswith("Ref")]
        labels = [None] + [v for v in p.adts[ladt]["vs"] if v["n"] != "Binary"]
        for fv in feats:
            for lv in labels:
                F = mk("agg", fadt, fv["n"], tuple(x["n"] for x in fv["f"]), (mk("par", "FEATURES"),) * len(fv["f"]))
                L = mk("agg", "core::option::Option", "None", (), ())
                if lv is not None:
                    L = mk("agg", "core::option::Option", "Some", ("0",), (mk("agg", ladt, lv["n"], tuple(x["n"] for x in lv["f"]), (mk("par", "LABEL"),) * len(lv["f"])),))

                def chunk(ex, t, fn, args):
                    return ex.finish(t, mk("agg", "core::result::Result", "Ok", ("0",), (mk("tup", (F, L)),)))

                e = Engine(p, b, models={k: chunk for k in PARSE})
                oks = [t for _, t in tab.rets(e) if not failed(t)]
                key = f"{pyn}:{fv['n']}:{lv['n'] if lv else 'no label'}"
                n += len(oks)
                if not ck.ob(f"parsed:{key}", oks, f"{pyn}.parse cannot return", b.path):
                    continue
                for t in oks:
                    t = t.a[3][0] if t.op == "agg" and t.a[1] == "Ok" else t
                    parts = t.a[0] if t.op == "tup" else ()
                    good = len(parts) == 2 and all(same_kind(p, e, x, fv["n"], "FEATURES") for x in tab.alts(e, parts[0]))
                    if good:
                        for x in tab.alts(e, parts[1]):
                            if lv is None:
                                good &= x.op == "agg" and x.a[1] == "None"
                            else:
                                good &= x.op == "agg" and x.a[1] == "Some" and all(same_kind(p, e, y, lv["n"], "LABEL") for y in tab.alts(e, x.a[3][0]))
                    ck.ob(f"parsed:{key}", good, f"{pyn}.parse returns {pp(t)[:160]} for {fv['n']} features and {lv['n'] if lv else 'no label'}", b.path)
    ck.floor("results of parse compared", n, 10)


def same_kind(p, e, t, name, payload):
    while t.op == "agg" and len(t.a[3]) == 1 and nrm(t.a[1]) != nrm(name) and nrm(t.a[1]) not in (nrm(name),) and len(p.adts.get(t.a[0], {"vs": ()})["vs"]) == 1:
        t = t.a[3][0]
    return t.op == "agg" and nrm(t.a[1]) == nrm(name) and any(s == mk("par", payload) for s in deep((e,), t)) and not plain((e,), t)


def failed(t):
    return t.op == "agg" and t.a[1] in ("Err", "None") or t.op == "call" and nm(t).endswith("from_residual")


def factories(ck, p, us, cls, convs):
    """parsers: the factory of the format's name, the arguments by name, the class that is given for each format"""
    made = {}
    create = re.compile(r"TextModeParserFactory(>)?::create$")
    n = 0
    for b in us:
        fmt = [i for i in range(1, b.argc + 1) if b.lty(i).strip().k == "adt" and b.lty(i).strip().adt in cls and cls[b.lty(i).strip().adt] == "FormatType"]
        if not fmt:
            continue
        k = fmt[0] - 1
        adt = b.lty(k + 1).strip().adt
        if b.trait or b.m in ("eq", "cmp", "partial_cmp", "clone"):
            continue
        for v, e in tab.by_variant(p, b, k, adt, opaque=lambda x, f: create.search(f["path"]) or x is not None and x.id in convs or x is not None and x.crate == CORE and not x.trait and x.kind == "method"):
            for x in e.events:
                if x.kind == "call" and create.search(x.path or ""):
                    n += 1
                    who = (x.callee.get("r") or {}).get("path") or x.path
                    who = who if "Factory as" in who or "ParserFactory>" in who else x.path
                    ck.ob(f"factory:{b.path.split('::')[-1]}:{v['n']}", nrm2(v["n"]) == nrm2(re.sub(r"ParserFactory", "", re.findall(r"(\w+)ParserFactory\b", who)[0] if re.findall(r"(\w+)ParserFactory\b", who) else who)), f"{b.path} makes a {who} for {v['n']}", q.loc(x))
                    tgt = q.body_of(p, x.callee)
                    nms = [tgt.lname(i) for i in range(1, tgt.argc + 1)] if tgt is not None else []
                    for i, t in enumerate(x.args):
                        if i < len(nms) and nms[i] in ("features_type", "label_type", "hash_seed", "num_bits", "_features_type", "_label_type"):
                            want = nms[i].lstrip("_")
                            got = sources(e, t)
                            ck.ob(f"told:{b.path.split('::')[-1]}:{v['n']}:{want}", len(got) == 1 and fits(want, list(got)[0]) and not plain((e,), t), f"{b.path} creates the {v['n']} parser with {sorted(got)} as its {want}", q.loc(x))
            for _, t in tab.rets(e):
                t = ok_of(p, t)
                if t.op == "agg" and t.a[0].startswith(CR) and t.a[3]:
                    w = t.a[3][0]
                    c = w.a[0] if w.op == "agg" else t.a[0]
                    made.setdefault(v["n"], set()).add(cls.get(c, c))
    ck.floor("parsers created", n, 6)
    return made


def nrm2(s):
    return re.sub(r"[^a-z]", "", s.lower())


def sources(e, t):
    """names of the parameters and accessors a value comes from"""
    d = deep((e,), t)
    acc = {nm(s).split("::")[-1] for s in d if s.op == "call" and re.search(r"::(input|output)_\w+$|GlobalConfig::\w+$", nm(s))}
    fld = {str(s.a[1]) for s in d if s.op == "f" and re.search(r"(features|label)_type|hash_seed|num_bits", str(s.a[1]))}
    return acc or fld or pars(d) - {"self"}


def fits(want, got):
    return got == want or got == "input_" + want or got.split(".")[-1] == want


# ------------------------------------------------------------------ names
class Stub:
    def __init__(self, repo):
        d = os.path.join(repo, "reductionml-python", "python", "reductionml")
        self.pyi = ast.parse(open(os.path.join(d, "_reductionml.pyi")).read())
        self.init = ast.parse(open(os.path.join(d, "__init__.py")).read())
        self.classes = {n.name: n for n in self.pyi.body if isinstance(n, ast.ClassDef)}
        self.funcs = {}
        for n in self.pyi.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs.setdefault(n.name, []).append(n)


def argnames(f):
    return [a.arg for a in f.args.posonlyargs + f.args.args if a.arg not in ("self", "cls")]


def deco(f):
    return {d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "" for d in f.decorator_list}


def names(ck, p, cls, mem, stub, made):
    mod = [b for b in p.bodies.values() if b.crate == CR and b.kind == "fn" and b.path == f"{CR}::_reductionml"]
    ck.anchor("module function", mod)
    added, funcs = set(), {}
    for b in p.bodies.values():
        m = re.search(r"::__pyfunction_(\w+)$", b.path)
        if b.crate == CR and m:
            funcs[m.group(1)] = target(p, b)
    reg = set()
    for b in mod:
        for x in [b] + [y for y in p.bodies.values() if y.crate == CR and y.kind == "fn" and any(q.body_of(p, f) is y for f, _, _ in q.callees(p, b) if f)]:
            for f, _, t in q.callees(p, x):
                if f and f["path"].endswith("PyModule::add_class"):
                    m = re.search(r"\[([\w:]+)\]$", (f.get("r") or {}).get("key", ""))
                    if m:
                        added.add(m.group(1))
            txt = str(x.bb)
            proms = "".join(str(p.bodies[i].bb) for i in set(re.findall(r"'promoted': '([^']+)'", txt)) if i in p.bodies)
            mine = set(re.findall(r"::(\w+)(?:::MakeDef>)?::DEF\b", txt + proms))
            if sum(1 for f, _, _ in q.callees(p, x) if f and f["path"].endswith("PyModule::add_function")) >= len(mine):
                reg |= mine
    for a, n in sorted(cls.items()):
        ck.ob(f"registered:{n}", a in added, f"the class {n} is not part of the compiled module", a)
    for n in sorted(funcs):
        ck.ob(f"registered:{n}", n in reg, f"the function {n} is not part of the compiled module", n)
    have = {cls[a] for a in added if a in cls}
    ck.ob("stub-classes", set(stub.classes) == have, f"the type stubs and the compiled module differ in their classes: {sorted(set(stub.classes) ^ have)}", "_reductionml.pyi")
    ck.ob("stub-functions", set(stub.funcs) == reg & set(funcs), f"the type stubs and the compiled module differ in their functions: {sorted(set(stub.funcs) ^ (reg & set(funcs)))}", "_reductionml.pyi")
    n = 0
    for a, pyn in sorted(cls.items()):
        c = stub.classes.get(pyn)
        if c is None:
            continue
        if len(p.adts[a]["vs"]) > 1 or not p.adts[a]["vs"][0]["f"] and not mem[a]["method"]:
            got = {t.id for s in c.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
            want = {v["n"] for v in p.adts[a]["vs"]}
            n += len(want)
            ck.ob(f"stub-members:{pyn}", got == want, f"{pyn} has the members {sorted(want)}, its stub {sorted(got)}", "_reductionml.pyi")
            vals = [ast.dump(s.value) for s in c.body if isinstance(s, ast.Assign)]
            ck.ob(f"stub-distinct:{pyn}", len(set(vals)) == len(vals), f"two members of {pyn} are the same in its stub", "_reductionml.pyi")
            continue
        fs = [f for f in c.body if isinstance(f, ast.FunctionDef)]
        props = {f.name for f in fs if "property" in deco(f)}
        meths = {}
        for f in fs:
            if "property" not in deco(f) and not f.name.startswith("__"):
                meths.setdefault(f.name, []).append(f)
        n += len(props) + len(meths)
        ck.ob(f"stub-attributes:{pyn}", props == set(mem[a]["get"]), f"{pyn} has the attributes {sorted(mem[a]['get'])}, its stub {sorted(props)}", "_reductionml.pyi")
        ck.ob(f"stub-methods:{pyn}", set(meths) == set(mem[a]["method"]), f"{pyn} has the methods {sorted(mem[a]['method'])}, its stub {sorted(meths)}", "_reductionml.pyi")
        for m, b in mem[a]["method"].items():
            for f in meths.get(m, ()):
                ps = [b.lname(i) for i in range(1, b.argc + 1) if b.lname(i) != "self"]
                ck.ob(f"stub-parameters:{pyn}.{m}", argnames(f) == ps, f"{pyn}.{m} takes {ps}, its stub {argnames(f)}", "_reductionml.pyi")
                static = "staticmethod" in deco(f)
                ck.ob(f"stub-static:{pyn}.{m}", static == (not b.argc or b.lname(1) != "self"), f"{pyn}.{m} and its stub differ in whether an object is needed", "_reductionml.pyi")
        new = mem[a]["new"].get("__init__")
        for f in fs:
            if f.name == "__init__" and new is not None and f.args.vararg is None:
                ps = [new.lname(i) for i in range(1, new.argc + 1)]
                ck.ob(f"stub-constructor:{pyn}", argnames(f) == ps, f"{pyn} is made from {ps}, in its stub from {argnames(f)}", "_reductionml.pyi")
    for fn, b in funcs.items():
        for f in stub.funcs.get(fn, ()):
            if b is not None:
                ps = [b.lname(i) for i in range(1, b.argc + 1)]
                ck.ob(f"stub-parameters:{fn}", argnames(f) == ps, f"{fn} takes {ps}, its stub {argnames(f)}", "_reductionml.pyi")
    # which class a format gives, by the overloads
    said = {}
    for f in stub.funcs.get("create_parser", []) + [f for f in (stub.classes["Workspace"].body if "Workspace" in stub.classes else []) if isinstance(f, ast.FunctionDef) and f.name == "create_parser"]:
        a0 = [a for a in f.args.args if a.arg == "format_type"]
        if a0 and isinstance(f.returns, ast.Name):
            for s in ast.walk(a0[0].annotation):
                if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == "FormatType":
                    said.setdefault(s.attr, set()).add(f.returns.id)
    for k in sorted(said):
        ck.ob(f"format-class:{k}", made.get(k) == said[k], f"{k} gives {sorted(made.get(k, []))}, the stub says {sorted(said[k])}", "_reductionml.pyi")
    ck.floor("names compared with the stubs", n, 30)


# ------------------------------------------------------------------ the package
def package(ck, p, cls, mem, stub):
    have = set(cls.values()) | set(stub.funcs)
    defined = set()
    exported = None
    for s in stub.init.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            t = s.targets[0].id
            defined.add(t)
            if t == "__all__":
                exported = [e.value for e in s.value.elts if isinstance(e, ast.Constant)]
            elif isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name) and s.value.value.id == "_reductionml":
                ck.ob(f"alias:{t}", s.value.attr == t, f"the package's {t} is the module's {s.value.attr}", "__init__.py")
            elif t in cls.values():
                ck.ob(f"alias:{t}", False, f"the package's {t} is not the module's", "__init__.py")
        elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
            defined.add(s.name)
        elif isinstance(s, ast.ImportFrom):
            for x in s.names:
                if (s.module or "").endswith("_reductionml"):
                    ck.ob(f"alias:{x.asname or x.name}", x.asname in (None, x.name), f"the package's {x.asname} is the module's {x.name}", "__init__.py")
                defined.add(x.asname or x.name)
    ck.anchor("__all__", exported)
    for s in ast.walk(stub.init):
        if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == "_reductionml":
            ck.ob(f"exists:{s.attr}", s.attr in have, f"the package uses {s.attr}, which the compiled module does not have", "__init__.py")
    for x in exported or ():
        ck.ob(f"exported:{x}", x in defined, f"the package exports {x}, which it does not define", "__init__.py")
    for c in sorted(set(cls.values())):
        ck.ob(f"public:{c}", c in (exported or ()), f"the package does not export {c}", "__init__.py")
    ck.ob("exported-once", len(set(exported or ())) == len(exported or ()), "a name is exported twice", "__init__.py")
    typed(ck, p, stub)
    for s in stub.init.body:
        if isinstance(s, ast.ClassDef) and s.name == "Workspace":
            wrapper(ck, p, s, {n: b for a, n2 in cls.items() if n2 == s.name for n, b in mem[a]["method"].items()})


def typed(ck, p, stub):
    """keys of the configuration's typed dictionaries are keys the library reads"""
    dicts = {s.name: s for s in stub.init.body if isinstance(s, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == "TypedDict" for b in s.bases)}
    want = {"GlobalConfig": "global_config::GlobalConfig", "EntryReductionConfig": "JsonReductionConfig", "Config": "workspace::Configuration"}
    n = 0
    for d, s in sorted(dicts.items()):
        ks = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        got = None
        for a in p.adts:
            if d in want and a.endswith(want[d]) and a.startswith(CORE):
                t = serde_tab.de_struct(p, a)
                got = set(t.keys) if t is not None else None
                req = {t.keys[k]: k for k in t.keys if (t.missing.get(t.keys[k]) or ("",))[0] in ("missing_field", "error")} if t is not None else {}
        if d == "NameInteraction":
            for a in p.adts:
                if a.endswith("interactions::NamespaceDef"):
                    t = serde_tab.de_enum(p, a)
                    got = {k for k, v in t[0].items()} if t else None
        if got is None:
            continue
        n += 1
        for k in ks:
            ck.ob(f"typed:{d}.{k}", k in got, f"the package's {d} has the key {k}, the library reads {sorted(got)}", "__init__.py")
    ck.count("typed dictionaries compared", n)


def wrapper(ck, p, c, core):
    """every method hands its parameters, in order, to the module's method of the same name and returns what it gave"""
    n = 0
    store = None
    for f in c.body:
        if isinstance(f, ast.FunctionDef) and f.name == "__init__":
            ps = argnames(f)
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id in ps:
                    store = (s.targets[0].attr, ps.index(s.value.id))
    ck.ob("package-holds", store is not None, "the package's Workspace does not keep the module's", "__init__.py")
    if store is None:
        return
    for f in c.body:
        if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") or "overload" in deco(f):
            continue
        n += 1
        ps = argnames(f)
        env = {}
        calls = []
        ret = None
        for s in f.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = value(s.value, env)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                env[s.target.id] = value(s.value, env)
            elif isinstance(s, ast.Return):
                ret = value(s.value, env) if s.value is not None else None
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                env["#" + str(s.lineno)] = value(s.value, env)
        for v in [ret] + list(env.values()):
            calls += native(v, store, c.name)
        calls = list(dict.fromkeys(calls))
        want = "get_" + f.name if "property" in deco(f) else f.name
        if want not in core and f.name in core:
            want = f.name
        ok = len(calls) == 1 and calls[0][0] == want
        ck.ob(f"package:{f.name}", ok, f"Workspace.{f.name} of the package does not call the module's {want} once: {[x[0] for x in calls]}", f"__init__.py:{f.lineno}")
        if not ok:
            continue
        kw = dict(calls[0][2])
        b = core[want]
        order = [b.lname(i) for i in range(1, b.argc + 1) if b.lname(i) != "self"]
        args = list(calls[0][1]) + [kw.get(o) for o in order[len(calls[0][1]):] if o in kw]
        ck.ob(f"package-args:{f.name}", args == [("name", x) for x in ps] and ps == order, f"Workspace.{f.name} of the package hands {args} on, the module takes {order}", f"__init__.py:{f.lineno}")
        void = b.lty(0).s.replace(" ", "").startswith("core::result::Result<(),")
        ck.ob(f"package-result:{f.name}", void or ret is not None and bool(native(ret, store, c.name)), f"Workspace.{f.name} of the package does not return what the module gave", f"__init__.py:{f.lineno}")
    ck.floor("methods of the package's Workspace", n, 9)


def value(e, env):
    """a small value: names, attributes and calls with the local names put in; casts are transparent"""
    if isinstance(e, ast.Name):
        return env.get(e.id, ("name", e.id))
    if isinstance(e, ast.Attribute):
        return ("attr", value(e.value, env), e.attr)
    if isinstance(e, ast.Call):
        f = value(e.func, env)
        args = tuple(value(a, env) for a in e.args)
        if f in (("attr", ("name", "typing"), "cast"), ("name", "cast")) and len(args) == 2:
            return args[1]
        return ("call", f, args, tuple((k.arg, value(k.value, env)) for k in e.keywords))
    return ("other", ast.dump(e))


def native(v, store, cname):
    """[(method, arguments, keywords)] of the calls of the module's Workspace in a value"""
    out = []
    if isinstance(v, tuple) and v:
        if v[0] == "call":
            f = v[1]
            if f[0] == "attr" and (f[1] == ("attr", ("name", "_reductionml"), cname) or f[1] == ("attr", ("name", "self"), store[0])):
                out.append((f[2], v[2], v[3]))
            for x in v[2]:
                out += native(x, store, cname)
            for _, x in v[3]:
                out += native(x, store, cname)
            out += native(f, store, cname) if f[0] == "call" else native(f[1], store, cname) if f[0] == "attr" else []
        elif v[0] == "attr":
            out += native(v[1], store, cname)
    return out
