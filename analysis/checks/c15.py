"""Every call site, in every function and closure of all crates, whose result is a Result (and every Result found inside the success
value of such a call, inside an item taken from an iterator or in a joined thread) is an obligation: the function must not be able to
return success after the call along a path on which that result was not found to be Ok, unless the result itself, or the very input
that failed, is part of what is returned.  Paths follow which variant a merged value holds.  Functions that turn an error into None
become sources themselves and are judged at their callers.  Writers: a buffered writer is flushed, with its result examined as above,
after the last write and before success; partial writes are not used; the requested output files are written, from the model after
training, on every successful path; a thread that can fail is joined; the process exits with a non-zero status after an error."""
import re
import q, cfg, engine
from engine import Engine, Event, K, UNIT, mk, pp, subterms, Term, proj
import checks.c06 as c06
import checks.c08 as c08
import checks.c14 as c14

CHANNEL = re.compile(r"(Sender|Receiver)::\w+$")  # a closed queue is no failure by itself: C14
HANDOVER = re.compile(r"Sender::send$|Vec::push$|VecDeque::push_\w+$|(Once)?Cell::(set|replace)$|OnceLock::set$|Mutex::new$|(Box|Arc|Rc)::new$")
SKIP = re.compile(r"^pyo3|from_residual$|^core::result::|^core::option::|ops::try_trait|anyhow::Context|^alloc::vec::|^core::ops::function")
PASS = re.compile(r"(^|::)(branch|map_err|with_context|context|map|ok_or|ok_or_else|transpose|into_result|and_then|ok|err|as_ref|as_mut|into|from|from_output|flatten|or_else|cloned|copied)$")
UNWRAP = re.compile(r"(Result|Option)::(unwrap|expect|into_ok|unwrap_err|expect_err)$|unwrap_failed$|expect_failed$")
ERRS = ("Err", "None", "Break")


def isres(ty):
    return ty is not None and ty.k == "adt" and ty.adt.endswith("result::Result")


def isopt(ty):
    return ty is not None and ty.k == "adt" and ty.adt.endswith("option::Option")


def generated(b):
    return b.derived or "::_::" in b.path or re.search(r"__py|::_$", b.path)


def run(ck):
    p = ck.prog()
    bodies = [b for b in p.bodies.values() if b.kind in ("fn", "method", "closure") and b.crate in p.crates and not generated(b)]
    optfail = {}
    engs = {}
    op = lambda b, f: b.crate in p.crates and b.kind != "closure" or b.crate in p.crates and isres(b.lty(0))
    for b in bodies:
        if calls_result(b) or takes_results(p, b):
            engs[b.id] = Engine(p, b, opaque=op)
    seen = set()
    bad = {}
    for _ in range(4):
        before = dict(optfail)
        bad = {}
        for b in bodies:
            if b.id in engs:
                judge(ck, p, b, engs[b.id], optfail, seen, bad)
        if optfail == before:
            break
        for b in bodies:
            if b.id not in engs and any(f and f["path"] in optfail for f, sp, t in q.callees(p, b)):
                engs[b.id] = Engine(p, b, opaque=op)
    for k in seen:
        ck.ob("examined:" + k, k not in bad, *bad.get(k, ("",)))
    ck.floor("functions with fallible calls analysed", len(engs), 90)
    ck.floor("results that have to be examined", len(seen), 110)
    closures_none(ck, p, optfail)
    adaptors(ck, p, engs.values())
    threads(ck, p, bodies)
    writers(ck, p, bodies)
    exits(ck, p)
    outputs(ck, p)


def calls_result(b):
    for bb in b.bb:
        t = bb["t"]
        if t.get("t") == "call" and not bb.get("cl"):
            d = t["dest"]
            ty = b.lty(d["l"] if isinstance(d, dict) else d[0])
            if ty is not None and "result::Result" in str(ty.s or "") or isres(ty) or isopt(ty) and isres((ty.a or [None])[0]):
                return True
    return False


def takes_results(p, b):
    return any(isres(b.lty(i)) for i in range(1, b.argc + 1))


def short(p, b):
    return re.sub(r"^reductionml_core::", "", b.path)


def judge(ck, p, b, e, optfail, seen, bad):
    ids = {}
    for x in e.events:
        if x.kind != "call" or x.ret is None or not isinstance(x.ret, Term):
            continue
        path = x.callee["path"] if x.callee else ""
        src = None
        if isres(x.dest_ty) and CHANNEL.search(x.name):
            src = x.dest_ty if isres((x.dest_ty.a or [None])[0]) else None
        elif isres(x.dest_ty) and not (x.callee and SKIP.search(path)):
            src = x.dest_ty
        elif path in optfail and isopt(x.dest_ty):
            src = x.dest_ty
        elif isopt(x.dest_ty) and x.dest_ty.a and isres(x.dest_ty.a[0]) and x.name.endswith("Iterator::next"):
            src = x.dest_ty
        if src is None:
            continue
        inner = x.ctx.body
        if inner is not b and inner.crate in p.crates and inner.kind == "closure" and not (isopt(inner.lty(0)) and inner.path in optfail):
            continue  # judged on its own
        key = f"{short(p, b)}:{x.name}"
        levels(ck, p, b, e, x, src, optfail, seen, bad, key)
    for i in range(1, b.argc + 1):
        ty = b.lty(i)
        if isres(ty):
            t = mk("par", b.lname(i) or f"p{i}")
            x = Event("call", f"parameter {b.lname(i) or i}", args=(), ret=t, callee={"path": ""}, ctx=None, xn=e.start, i=-1, dest_ty=ty)
            levels(ck, p, b, e, x, ty, optfail, seen, bad, f"{short(p, b)}:parameter_{i}")


def levels(ck, p, b, e, x, ty, optfail, seen, bad, key):
    """the result of the call and the results inside it"""
    term = x.ret
    starts = [(x.xn, x)]
    depth = 0
    while ty is not None:
        a = (ty.a or [None])[0]
        if isres(ty) or depth == 0 and isopt(ty) and x.callee["path"] in optfail:
            k = key if not depth else f"{key}:inner{depth}"
            seen.add(k)
            outs = outcomes(e, starts, term)
            outs = [(y, v) for y, v in outs if not keeps(e, x, term, v)]
            if outs:
                if isopt(b.lty(0)) and all(none_like(v) for y, v in outs):
                    optfail[b.path] = True
                else:
                    y, v = outs[0]
                    bad[k] = (f"success can be reported although {x.name} failed" + (" (an error found inside its result)" if depth else ""), q.loc(x))
        elif not isopt(ty):
            return
        if not (isres(a) or isopt(a) and isres((a.a or [None])[0])):
            return
        vs = ("Ok",) if isres(ty) else ("Some",)
        nodes = [y for n in e.nodes for y, lab in n.succ if lab is not None and isinstance(lab[0], Term) and edge(e, {}, lab, term, vs)]
        nxt = mk("vf", term, vs[0], "0")
        starts = [(n, None) for n in nodes]
        term, ty, depth = nxt, a, depth + 1


def none_like(v):
    return v.op == "agg" and v.a[1] == "None" or v.op == "call" and re.search(r"Result::(ok|err)$", v.a[0])


def fails(v):
    if c08.fails(v):
        return True
    if v.op == "call" and v.a[0].endswith("ExitCode::from") and v.a[1] and v.a[1][0].op == "k" and v.a[1][0].a[0] not in (0, False):
        return True
    return v.op in ("const", "cst") and "FAILURE" in pp(v)


def keeps(e, x, term, v):
    """what is returned contains the result itself or the whole input that could not be read"""
    found = []
    ids = set()

    def go(t):
        if t in ids:
            return
        ids.add(t)
        if t is term:
            found.append(t)
            return
        if t.op == "phi":
            for m, z in q.phi_ins(e, t):
                go(z)
        elif t.op in ("agg", "tup", "arr"):
            for z in parts(t):
                go(z)
        elif t.op == "upd":
            go(t.a[0])
            go(t.a[2])
        elif t.op == "call" and t.a[1]:
            if re.search(r"(^|::)(ok|err|unwrap\w*|expect\w*|is_\w+|iter|into_iter)$", t.a[0]):
                return
            for z in t.a[1]:
                if z is term or z.op == "call" and PASS.search(z.a[0]) or z.op in ("agg", "tup"):
                    go(z)

    go(v)
    if found:
        return True
    src = [a for a in x.args if a.op not in ("k", "ref", "fnc", "par")]
    # the input itself, not something computed from the outcome
    return len(x.args) == 1 and bool(src) and whole(e, v, src[0])


def whole(e, v, a, seen=None):
    """`a` itself (or a trimmed or converted view of it) is part of the value"""
    seen = set() if seen is None else seen
    if v in seen:
        return False
    seen.add(v)
    if v is a:
        return True
    if v.op == "phi":
        return any(whole(e, z, a, seen) for m, z in q.phi_ins(e, v))
    if v.op in ("agg", "tup", "arr"):
        return any(whole(e, z, a, seen) for z in parts(v))
    if v.op == "call" and v.a[1] and re.search(r"::(trim\w*|to_string|to_owned|into|from|clone|as_str|deref|to_lowercase)$", v.a[0]):
        return whole(e, v.a[1][0], a, seen)
    return False


# ------------------------------------------------------------------ paths that know the variant of merged values
def relevant(e):
    if hasattr(e, "_rel15"):
        return e._rel15
    rel = set()
    st = []
    for n in e.nodes:
        for m, lab in n.succ:
            if lab is not None and isinstance(lab[0], Term):
                st.append(lab[0])
        for x in n.events:
            if x.kind == "ret":
                st.append(x.args[0])
    while st:
        t = st.pop()
        for s in heads(t):
            if s.op == "phi" and s not in rel:
                rel.add(s)
                for m, v in q.phi_ins(e, s):
                    st.append(v)
    by = {}
    for s in rel:
        by.setdefault(q.node_of(e, s.a[0]), []).append(s)
    for n in by:
        by[n] = [(s, dict(q.phi_ins(e, s))) for s in by[n]]
    e._rel15 = by
    e._live15 = liveness(e, by)
    return by


def liveness(e, by):
    """{node: merged values whose variant still matters from here on}"""
    phis = {s for l in by.values() for s, ins in l}
    use = {}
    preds = {}
    for n in e.nodes:
        u = set()
        for m, lab in n.succ:
            preds.setdefault(m, []).append(n)
            if lab is not None and isinstance(lab[0], Term):
                u |= {s for s in heads(lab[0]) if s in phis}
        for x in n.events:
            if x.kind == "ret" or x.kind == "call" and x.args and (UNWRAP.search(x.name) or x.name.endswith("process::exit")):
                u |= {s for s in heads(x.args[0]) if s in phis}
        use[n] = u
    live = {n: set(use[n]) for n in e.nodes}
    work = list(e.nodes)
    inwork = set(work)
    while work:
        m = work.pop()
        inwork.discard(m)
        defs = by.get(m, ())
        kill = {s for s, ins in defs}
        for n in preds.get(m, ()):
            add = live[m] - kill
            for s, ins in defs:
                if s in live[m] and n in ins:
                    add |= {z for z in heads(ins[n]) if z in phis}
            if not add <= live[n]:
                live[n] |= add
                if n not in inwork:
                    inwork.add(n)
                    work.append(n)
    return live


def parts(t):
    return t.a[3] if t.op == "agg" else t.a[0]


def heads(t):
    """the term and what its variant depends on"""
    out = []
    while True:
        out.append(t)
        if t.op in ("discr", "vf", "f"):
            t = t.a[0]
        elif t.op == "call" and t.a[1] and (PASS.search(t.a[0]) or re.search(r"::(is_ok|is_some|is_err|is_none)$", t.a[0])):
            t = t.a[1][0]
        elif t.op in ("agg", "tup", "arr") and parts(t):
            for z in parts(t):
                out += heads(z)
            return out
        elif t.op == "un":
            t = t.a[-1]
        else:
            return out


def resolve(env, t, d=0):
    if d > 40:
        return t
    if t.op == "phi":
        v = env.get(t)
        return resolve(env, v, d + 1) if v is not None and v is not t else t
    if t.op == "vf":
        b = resolve(env, t.a[0].a[0] if t.a[0].op == "cref" else t.a[0], d + 1)
        if b is not t.a[0]:
            if b.op == "agg":
                r = field(b, t.a[1], t.a[2])
                return resolve(env, r, d + 1) if r is not None else t
            return mk("vf", b, t.a[1], t.a[2])
        return t
    if t.op == "bin" and t.a[0] in ("Eq", "Ne") and UNIT in (resolve(env, t.a[1], d + 1), resolve(env, t.a[2], d + 1)):
        return K(t.a[0] == "Eq")  # there is one value of type ()
    if t.op == "f":
        b = resolve(env, t.a[0], d + 1)
        return proj(b, ("f", t.a[1])) if b is not t.a[0] else t
    return t


def field(agg, variant, name):
    if agg.a[1] == variant and name in agg.a[2]:
        return agg.a[3][agg.a[2].index(name)]
    return None


def variant(env, t):
    """the variant a value is known to have on this path: its name, or None; plus the value its success depends on"""
    t = resolve(env, t)
    while True:
        if t.op == "agg" and t.a[1]:
            return t.a[1], t
        if t.op == "call" and t.a[1] and PASS.search(t.a[0]):
            t = resolve(env, t.a[1][0])
            continue
        return None, t


POS = ("Ok", "Some", "Continue")


def edge(e, env, lab, term, vs):
    """does this edge establish that `term` has one of the variants?"""
    c, v = lab
    if not isinstance(c, Term):
        return False
    if c.op == "un" and c.a[0] == "Not":
        return edge(e, env, (c.a[-1], not v), term, vs) if isinstance(v, bool) else False
    if c.op == "discr":
        if v not in POS + ERRS:
            return False
        k, t = variant(env, c.a[0])
        if t is term or t.op == "vf" and t is term:
            return (v in POS) == (vs[0] in POS)
        return False
    if c.op == "call" and c.a[1] and re.search(r"::(is_ok|is_some|is_err|is_none)$", c.a[0]):
        pos = c.a[0].endswith(("is_ok", "is_some")) == bool(v)
        k, t = variant(env, c.a[1][0])
        return t is term and pos == (vs[0] in POS)
    return False


def feasible(env, lab):
    c, v = lab
    if not isinstance(c, Term):
        return True
    if c.op == "discr":
        k, t = variant(env, c.a[0])
        if k is not None and isinstance(v, str):
            if v in POS + ERRS:
                return (k in POS) == (v in POS)
            return k == v
        r = resolve(env, c.a[0])
        if v in ("Continue", "Break") and r.op == "k" and r.a[0] in (0, 1) and not isinstance(r.a[0], bool):
            return r.a[0] == ("Continue", "Break").index(v)  # a ControlFlow without content is just its tag
        return True
    if c.op == "call" and c.a[1] and re.search(r"::(is_ok|is_some|is_err|is_none)$", c.a[0]):
        k, t = variant(env, c.a[1][0])
        if k in POS + ERRS:
            return (c.a[0].endswith(("is_ok", "is_some")) == (k in POS)) == bool(v)
        return True
    if c.op == "bin" and c.a[0] in ("Eq", "Ne") and isinstance(v, bool) and c.a[1].op == c.a[2].op == "discr":
        ks = [variant(env, x.a[0].a[0] if x.a[0].op == "cref" else x.a[0])[0] for x in c.a[1:]]
        if None not in ks:
            return ((ks[0] == ks[1]) == (c.a[0] == "Eq")) == v
    t = resolve(env, c)
    if t.op == "k" and isinstance(t.a[0], bool) and isinstance(v, bool):
        return t.a[0] == v
    return True


def outcomes(e, starts, term, stop_ev=None, assume=(), limit=60000):
    """[(return event, value)] of successful returns reachable without `term` being found Ok"""
    rel = relevant(e)
    out = []
    seen = set()
    st = []

    def scan(n, env, i0):
        for y in n.events[i0:]:
            if stop_ev is not None and stop_ev(y):
                return
            if y.kind == "panic":
                return
            if y.kind == "call" and y.args and term is not None and UNWRAP.search(y.name):
                k, t = variant(env, y.args[0])
                if t is term:
                    return
                if k in ERRS and not y.name.endswith("_err"):
                    return
            if term is not None and handed_over(env, y, term):
                return
            if y.kind == "call" and y.name.endswith("process::exit"):
                a = resolve(env, y.args[0])
                if not (a.op == "k" and a.a[0] not in (0, False)):
                    out.append((y, a))
                return
            if y.kind == "ret":
                v = resolve(env, y.args[0])
                k, t = variant(env, v)
                if v.op == "k" and str(v.a[0]) not in ("0", "False") and "ExitCode" in str(e.entry.lty(0).s):
                    return
                if not fails(v) and not fails(t) and k not in ("Err", "Break"):
                    out.append((y, v))
                elif k == "None":
                    out.append((y, v))
                return
        for m, lab in n.succ:
            if lab is not None and isinstance(lab[0], Term):
                if term is not None and edge(e, env, lab, term, ("Ok",)):
                    continue
                if not feasible(env, lab):
                    continue
                if any(a(env, lab) for a in assume):
                    continue
            env2 = env
            for s, ins in rel.get(m, ()):
                v = ins.get(n)
                env2 = dict(env2) if env2 is env else env2
                if v is None:
                    env2.pop(s, None)
                    continue
                r = resolve(env, v)
                k, t = variant(env, r)
                if r.op in ("agg", "k", "tup") or fails(r) or r.op == "call" or t is term or (term is not None and term in set(heads(r))):
                    env2[s] = r
                else:
                    env2.pop(s, None)
            env2 = {s: v for s, v in env2.items() if s in e._live15[m]}
            key = (m, tuple(sorted((s.id if hasattr(s, "id") else id(s), id(v)) for s, v in env2.items())))
            if key not in seen:
                if len(seen) > limit:
                    raise RuntimeError(f"too many paths in {e.entry.path if hasattr(e, 'entry') else ''}")
                seen.add(key)
                st.append((m, env2))

    for n, x in starts:
        scan(n, {}, x.i + 1 if x is not None else 0)
    while st:
        n, env = st.pop()
        scan(n, env, 0)
    return out


def handed_over(env, y, term):
    """the result is passed on, as a result, to someone who is judged on his own"""
    if y.kind == "write":
        return any(isinstance(a, Term) and term in set(heads(a)) for a in y.args)
    if y.kind != "call" or not y.args or y.ret is term:
        return False
    path = y.callee["path"] if y.callee else ""
    for i, a in enumerate(y.args):
        if variant(env, a)[1] is term or term in set(heads(a)):
            ty = y.argtys[i] if y.argtys and i < len(y.argtys) else None
            if HANDOVER.search(y.name) or isres(ty) and re.match(r"<?(reml|reductionml)", path):
                return True
    return False


# ------------------------------------------------------------------ errors hidden in adaptors
def closures_none(ck, p, optfail):
    for path in sorted(optfail):
        b = [b for b in p.bodies.values() if b.path == path]
        ck.ob(f"hidden:{path}", not any(x.kind == "closure" and not inlined_combinator(p, x) for x in b), "a closure turns an error into nothing", path)


def inlined_combinator(p, b):
    return False


def adaptors(ck, p, engs):
    """iterator adaptors that throw away the error items of an iterator over results"""
    n = 0
    for e in engs:
        b = e.entry
        for x in e.events:
            if x.kind != "call":
                continue
            m = re.search(r"(?:Iterator|FromIterator|Option|iterator)::(flatten|flat_map|filter_map|map_while|sum|product|find_map|flatten_ok)$", x.name)
            if m:
                n += 1
                ts = [s for a in x.args for s in c06.deep(e, a)]
                res = [s for s in ts if s.op == "clo" and isres(p.bodies[s.a[0]].lty(0))] if m.group(1) in ("flatten", "flat_map") else []
                tys = " ".join(str(getattr(t, "s", t)) for t in list(x.argtys or ()))
                lines = m.group(1) == "flatten" and re.search(r"Lines<|ReadDir|Bytes<", tys)
                ck.ob(f"adaptor:{short(p, b)}:{m.group(1)}", not res and not lines, "items that are errors are dropped", q.loc(x))
            elif re.search(r"Result::(iter|into_iter|iter_mut)$", x.name) or x.name.endswith("into_iter") and x.argtys and isres(x.argtys[0]):
                ck.bad(f"adaptor:{short(p, b)}:result", "a result is iterated over: an error counts as nothing", q.loc(x))
    for b in p.bodies.values():
        if b.crate in p.crates and b.kind in ("fn", "method", "closure") and not generated(b):
            for f in q.fn_consts(b):
                if f and re.search(r"Result::<T, E>::(ok|unwrap_or\w*|into_iter|iter)$", f["path"]) and called_directly(b, f) is False:
                    ck.bad(f"adaptor:{short(p, b)}:{f['path'].split('::')[-1]}", "items that are errors are dropped", b.path)
    ck.count("iterator calls scanned for dropped errors", n)


def called_directly(b, f):
    return False


def threads(ck, p, bodies):
    """a thread that can fail is joined before success (what join returns is judged like any other result)"""
    n = 0
    for b in bodies:
        if not any(f and re.search(r"thread::.*::spawn$|thread::spawn$", f["path"]) for f, sp, t in q.callees(p, b)):
            continue
        e = Engine(p, b, opaque=lambda bb, f: bb.crate in p.crates, models=c14.SPAWN)
        for x in e.events:
            if x.kind == "call" and x.name == "spawn":
                n += 1
                if any(a.op == "clo" and isres(p.bodies[a.a[0]].lty(0)) for a in x.args):
                    join = lambda y: y.kind == "call" and re.search(r"JoinHandle::join$", y.name) and x.ret in set(c06.deep(e, y.args[0]))
                    outs = outcomes(e, [(x.xn, x)], None, stop_ev=join)
                    ck.ob(f"joined:{short(p, b)}", not outs, "success can be reported without asking whether the thread failed", q.loc(x))
    ck.count("threads started", n)


# ------------------------------------------------------------------ writers
def is_writer(x):
    return x.kind == "call" and re.search(r"BufWriter::(new|with_capacity)$|LineWriter::new$", x.name)


def writers(ck, p, bodies):
    n = 0
    for b in bodies:
        for f, sp, t in q.callees(p, b):
            if f and re.search(r"io::(write::)?Write::write$|io::Write::write_vectored$", f["path"]) or f and f.get("m") in ("write", "write_vectored") and (f.get("trait") or "").endswith("io::Write"):
                ck.bad(f"partial:{short(p, b)}", "a single write may write only part of the data", f"{b.path} ({sp})")
    op = lambda b, f: not b.crate.startswith("reml")
    for b in bodies:
        if b.kind == "closure" or not any(f and re.search(r"BufWriter::<.*>::(new|with_capacity)$|BufWriter::(new|with_capacity)$|LineWriter.*::new$", f["path"]) for m in {b, *c06.reach_local(p, b)} for f, sp, t in q.callees(p, m)):
            continue
        if not (b.kind == "method" and b.m == "execute"):
            ck.note(f"buffered writer created in {b.path}")
        e = Engine(p, b, opaque=lambda bb, f: bb.crate in p.crates and not bb.crate.startswith("reml"))
        ws = {}
        for x in e.events:
            if is_writer(x) and not any(y.kind == "ret" and x.ret in heads(y.args[0]) for y in e.events):
                ws.setdefault((x.ctx.body.id, x.span), []).append(x)
        for sites in ws.values():
            w = sites[0]
            n += 1
            if len(ws) > 1:
                mine = lambda y: any(touches(e, y, w.ret) for w in sites)
            else:
                mine = lambda y: "BufWriter" in selfstr(p, e, y) or any(touches(e, y, w.ret) for w in sites)
            flush = lambda y: y.kind == "call" and re.search(r"::(flush|into_inner)$", y.name) and mine(y)
            absent = lambda env, lab: lab[0].op == "discr" and lab[1] == "None" and (lab[0].a[0] is K(0) or any(w.ret in set(c06.deep(e, lab[0])) for w in sites))
            for w in sites:
                outs = outcomes(e, [(w.xn, w)], None, stop_ev=flush, assume=(absent,))
                ck.ob(f"flush:{short(p, b)}", not outs, "success can be reported before the buffered output is flushed: a failing write stays unnoticed", q.loc(w))
            for y in [y for y in e.events if flush(y)]:
                late = [z for z in q.walk(e, y, None)[0] if z.kind == "call" and re.search(r"::write\w*$", z.name) and mine(z)]
                ck.ob(f"flushlast:{short(p, b)}", not late, "output is written after the last flush", q.loc(y))
    ck.floor("buffered writers analysed", n, 1)
    # every example whose prediction is requested is written before the function that handles it returns
    for b in bodies:
        ps = [i for i in range(1, b.argc + 1) if "BufWriter" in str(b.lty(i).s or "") and "Option" in str(b.lty(i).s or "")]
        if not ps or not b.crate.startswith("reml"):
            continue
        e = Engine(p, b, opaque=lambda bb, f: bb.crate in p.crates and not bb.crate.startswith("reml"))
        pt = {mk("par", b.lname(i) or f"p{i}") for i in ps}

        def absent(env, lab):
            c, v = lab
            if c.op == "discr":
                return v == "None" and root(c.a[0]) in pt
            if c.op == "call" and c.a[1] and re.search(r"::is_(some|none)$", c.a[0]):
                return root(c.a[1][0]) in pt and c.a[0].endswith("is_some") != bool(v)
            return False

        wr = lambda y: y.kind == "call" and re.search(r"::write(_all|_fmt)$", y.name)
        for x in [x for x in e.events if x.kind == "call" and re.search(r"Workspace::(learn|predict_then_learn|predict)$", x.name)]:
            before = []

            def see(y):
                before.append(y) if y is x else None
                return y is x

            outcomes(e, [(e.start, None)], None, stop_ev=see, assume=(absent,))
            if before:
                outs = outcomes(e, [(x.xn, x)], None, stop_ev=wr, assume=(absent,))
                ck.ob(f"written:{short(p, b)}:{x.name}", not outs, "an example can be processed without writing its prediction to the requested file", q.loc(x))
                n += 1


def touches(e, y, w):
    for a, r in zip(y.args, list(y.refs or ()) + [None] * len(y.args)):
        if c14.addr_has(e, a, w) or isinstance(r, Term) and c14.addr_has(e, r, w):
            return True
    return False


def root(t):
    """the parameter a value was reached through"""
    while True:
        if t.op in ("f", "vf", "post", "discr", "upd") and isinstance(t.a[0], Term):
            t = t.a[0].a[1][t.a[1]] if t.op == "post" and t.a[0].op == "call" and isinstance(t.a[1], int) else t.a[0]
        elif t.op == "call" and t.a[1] and PASS.search(t.a[0]):
            t = t.a[1][0]
        else:
            return t


def selfstr(p, e, y):
    a = (y.callee or {}).get("a") or []
    out = []
    for t in list(a)[:1]:
        try:
            out.append(str(y.ctx.ty(t).s))
        except Exception:
            out.append(str(getattr(t, "s", t)))
    for t in list(y.argtys or ())[:1]:
        out.append(str(getattr(t, "s", t)))
    return " ".join(out)


# ------------------------------------------------------------------ exit status
def exits(ck, p):
    mains = [b for b in p.bodies.values() if b.kind == "fn" and b.path == "reml::main"]
    if not ck.anchor("main of the command line tool", mains):
        return
    b = mains[0]
    e = Engine(p, b, opaque=lambda bb, f: bb.crate in p.crates and not same(bb, b))
    cs = [x for x in e.events if x.kind == "call" and x.callee and isres(x.dest_ty) and x.callee["path"].startswith("reml::")]
    ck.ob("exit:commands", cs, "main does not run the commands")
    reach = c06.reach(p, b)
    cmds = [m for m in p.bodies.values() if m.kind == "method" and m.m == "execute" and (m.trait or "").endswith("command::Command") and m.crate.startswith("reml")]
    for m in cmds:
        ck.ob(f"exit:{m.self_ty.s if hasattr(m.self_ty, 's') else m.self_ty}", m in reach, "a command is never run", m.path)
    ck.floor("commands", len(cmds), 9)
    # exit(0) anywhere else
    for m in p.bodies.values():
        if m.crate in p.crates and m.kind in ("fn", "method", "closure"):
            for f, sp, t in q.callees(p, m):
                if f and f["path"].endswith("process::exit"):
                    a = t["args"][0]
                    ck.ob(f"exit:status:{short(p, m)}", const_nonzero(a), "the process can end with a successful status before the work is done", f"{m.path} ({sp})")


def same(bb, b):
    return False


def const_nonzero(a):
    s = str(a)
    m = re.search(r"'(?:i|int|v|val|bits)': '?(-?\d+)", s)
    return bool(m) and int(m.group(1)) != 0


# ------------------------------------------------------------------ requested outputs
def outputs(ck, p):
    n = 0
    for b in p.bodies.values():
        if not (b.kind == "method" and b.m == "execute" and (b.trait or "").endswith("command::Command") and b.crate.startswith("reml")):
            continue
        argty = b.lty(1)
        e = Engine(p, b, opaque=lambda bb, f: bb.crate in p.crates and not bb.crate.startswith("reml"))
        a = e_arg(e, b)
        adt = p.adts.get(argty.strip().adt)
        if not adt:
            continue
        wr = lambda x: x.kind == "call" and re.search(r"fs::write$|File::create$", x.name)
        # every output file the arguments can name
        for fl in adt["vs"][0]["f"]:
            t = mk("f", a, fl["n"])
            evs = [x for x in e.events if wr(x) and t in set(c06.deep(e, x.args[0]))]
            outish = re.search(r"output|predictions|to_file", fl["n"])
            if not evs and not outish:
                continue
            absent = lambda env, lab, t=t: lab[0].op == "discr" and lab[1] == "None" and variant(env, lab[0].a[0])[1] is t
            ids = {id(x) for x in evs}
            outs = outcomes(e, [(e.start, None)], None, stop_ev=lambda y: id(y) in ids, assume=(absent,))
            n += 1
            ck.ob(f"output:{short(p, b)}:{fl['n']}", not outs, f"the command can succeed without writing the file named by {fl['n']}", b.path)
            for x in evs:
                if x.name.endswith("fs::write"):
                    ser = [y for y in e.events if y.kind == "call" and y.name.endswith("Workspace::serialize_model") and y.ret in set(c06.deep(e, x.args[1]))]
                    ck.ob(f"output:model:{short(p, b)}", ser, "what is written is not the serialized model", q.loc(x))
                    for s in ser:
                        late = [y for y in q.walk(e, s, None)[0] if y.kind == "call" and re.search(r"Workspace::(learn|predict_then_learn)$", y.name)]
                        ck.ob(f"output:final:{short(p, b)}", not late, "the model is saved before training has ended", q.loc(s))
        # commands that print: success means something was written
        if not [x for x in e.events if wr(x)]:
            pr = lambda y: y.kind == "call" and re.search(r"stdio::_e?print$|io::.*write_all$|write_fmt$|clap_complete|generate$", y.name)
            outs = outcomes(e, [(e.start, None)], None, stop_ev=pr)
            ck.ob(f"output:print:{short(p, b)}", not outs, "the command can succeed without any output", b.path)
    ck.floor("output files of commands", n, 3)


def e_arg(e, b):
    return mk("par", b.lname(1) or "args")
