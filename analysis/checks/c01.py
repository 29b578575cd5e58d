"""Effect analysis.  Every function and closure that predicting, updating or a sensitivity query can reach (all implementations behind
dynamic calls included) is listed with every call, static, cast and unsafe block in it.  Nothing it mentions may be a source of anything
but its arguments: no static or thread-local with mutable content, no atomics, locks, clocks, environment, files, threads, random
sources, uninitialised memory, addresses turned into numbers, and no iteration over a hash table.  Everything reachable from the model
by type (workspace, every reduction, every weight table) holds no interior mutability, so a shared borrow cannot change it; every
predicting method takes the model by shared borrow and reaches no updating method."""
import re
import q, cfg, reds
import checks.c06 as c06
import checks.c13 as c13

MUT = c13.MUTABLE
ENTRY = {"predict", "learn", "predict_then_learn", "sensitivity"}
UPDATE = {"learn", "predict_then_learn"}
CRATES_OK = re.compile(r"^(core|alloc|std|reductionml\w*|approx|smallvec|itertools|serde\w*|typetag|erased_serde|twox_hash|byteorder|num_traits|either|derive_more|fast_float|anyhow|thiserror|pyo3|pythonize|schemars|flexbuffers|owo_colors)::")
STD_OK = re.compile(r"^std::(f32|f64|collections::|ffi|error|io::stdio::_e?print|panicking|rt::|vec|string|ops|iter|slice|str|cmp|fmt|mem|option|result|convert|borrow|boxed|default|clone|num|hash::)")
DENY = re.compile(
    r"core::sync::atomic|sync::atomic::|::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|RandomState|thread|::env::|::time::|::fs::|::net::|process::|::rand"
    r"|num_cpus|available_parallelism|MaybeUninit|::(strong_count|weak_count|ptr_eq|addr|expose_provenance|expose_addr)$|ptr::(write|read|copy|replace|swap)\w*$|Argument::<'_>::new_pointer|fmt::Pointer|::(from_raw|from_raw_parts\w*|as_mut_ptr|get_mut_unchecked)$|intrinsics::(transmute|write|copy)|transmute"
)
HASHITER = re.compile(r"hash::(map|set)::|hash_(map|set)::|HashMap|HashSet")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|into_iter|union|intersection|difference|next)$")


def run(ck):
    p = ck.prog()
    impl = reds.IMPL if hasattr(reds, "IMPL") else "reductionml_core::reduction::ReductionImpl"
    ents = entries(p)
    ck.floor("entry points", len(ents), 26)
    R = {}
    for b in ents:
        for m in closure_of(p, b):
            R[m.id] = m
    mine = [b for b in R.values() if b.crate in p.crates and not generated(b)]
    ck.floor("functions reachable from predicting and updating", len(mine), 140)
    ncalls = 0
    for b in mine:
        n = 0
        hits = []
        for f, sp, t in q.callees(p, b):
            ncalls += 1
            if not f:
                continue
            h = forbidden(p, b, f)
            if h:
                hits.append((h, sp))
        for f in q.fn_consts(b):
            h = f and forbidden(p, b, f)
            if h:
                hits.append((h, ""))
        for s in c13.statics(p, b):
            if any(MUT.search(y) for y in re.findall(r"[\w:]+", s)):
                hits.append((f"uses a static that can change ({s[:80]})", ""))
        for bb in b.bb:
            for pl, r, sp in bb["s"]:
                h = r.get("r") == "cast" and badcast(b, r)
                if h:
                    hits.append((h, sp))
        ck.ob(f"effects:{b.path}", not hits, f"{b.path} {hits[0][0]}: a prediction or update can depend on something else than the model and the example" if hits else "", f"{b.path} ({hits[0][1]})" if hits else "")
    ck.count("calls scanned", ncalls)
    unsafe(ck, p, R)
    state(ck, p)
    readonly(ck, p)


def generated(b):
    return "::_::" in b.path or b.path.endswith("::_")


def entries(p):
    out = []
    for b in p.bodies.values():
        if b.kind in ("fn", "method") and b.crate in p.crates and not generated(b):
            if b.path.split("::")[-1] in ENTRY:
                out.append(b)
    return out


_clo = {}


def closure_of(p, b):
    """reachable bodies; a call through a trait of this library reaches every implementation"""
    k = (id(p), b.id)
    if k in _clo:
        return _clo[k]
    kids = q.parents(p)
    seen = {}
    st = [b]
    impls = impl_index(p)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st += kids.get(x.id, [])
        fs = [f for f, sp, t in q.callees(p, x) if f] + [f for f in q.fn_consts(x) if f]
        for f in fs:
            y = q.body_of(p, f)
            if y is not None:
                st.append(y)
            if f.get("trait") and f["trait"].startswith(("reductionml", "reml")) and f.get("m"):
                st += impls.get((f["trait"], f["m"]), [])
    _clo[k] = list(seen.values())
    return _clo[k]


_idx = {}


def impl_index(p):
    if id(p) not in _idx:
        d = {}
        for b in p.bodies.values():
            if b.kind == "method" and b.trait and b.m:
                d.setdefault((b.trait, b.m), []).append(b)
        _idx[id(p)] = d
    return _idx[id(p)]


def forbidden(p, b, f):
    path = f["path"]
    if path.startswith(tuple(c + "::" for c in p.crates)) or path.startswith("<"):
        return None
    tys = " ".join(b.types[a].s for a in f.get("a") or () if isinstance(a, int) and a < len(b.types))
    if ITER.search(path) and HASHITER.search(path + " " + (tys if not path.startswith("core::option") else "")):
        return f"iterates over a hash table, in an order that is not determined by the example ({path.split('::')[-1]})"
    if DENY.search(path) and not re.search(r"vec::|slice::|string::", path):
        return f"calls {path}"
    if not CRATES_OK.search(path):
        return f"calls {path}"
    if path.startswith("std::") and not STD_OK.search(path):
        return f"calls {path}"
    return None


def badcast(b, r):
    """an address used as a number, or a shared borrow turned into a mutable one"""
    try:
        o, t = b.types[r["ot"]], b.types[r["t"]]
    except Exception:
        return None
    ck = str(r.get("ck"))
    if "Expose" in ck:
        return "turns an address into a number"
    op, tp = o.k in ("ptr", "ref", "fnptr", "rawptr"), t.k in ("ptr", "ref", "fnptr", "rawptr")
    if op and t.k in ("int", "uint", "prim") and re.match(r"^[ui](8|16|32|64|128|size)$", t.s):
        return "turns an address into a number"
    if "Transmute" in ck and op and tp and t.mut and not o.mut:
        return "turns a shared borrow into a mutable one"
    return None


def unsafe(ck, p, R):
    paths = {b.path for b in R.values() if b.crate in p.crates}
    n = 0
    for u in p.unsafe_blocks:
        if "desugaring" in u["span"] or "!" in u["span"]:
            continue
        n += 1
        ck.ob(f"unsafe:{u['fn']}", not any(u["fn"] == x or u["fn"].startswith(x + "::") for x in paths), "unsafe code on the way of a prediction or update: what it changes cannot be bounded", f"{u['fn']} ({u['span']})")
    ck.count("unsafe blocks located", n)


def state(ck, p):
    """what a model consists of cannot change behind a shared borrow"""
    pool = None
    for a in p.adts:
        if re.search(r"object_pool::Pool$", a):
            pool = a
    ck.anchor("object pool", pool)
    roots = [a for a in p.adts if a.endswith("workspace::Workspace")]
    for i in p.impls_of(cfg.trait(p, "ReductionImpl")):
        if i["self_ty"].k == "adt":
            roots.append(i["self_ty"].adt)
    n = 0
    for a in roots:
        n += 1
        hit = c13.hidden(p, a, pool, set())
        ck.ob(f"state:{a.split('::')[-1]}", not hit, f"part of the model can change while it is only borrowed for a prediction: {a}: {hit}")
    ck.floor("model types", n, 9)
    # statics that can change are not part of predicting (checked per function); thread-locals neither


def readonly(ck, p):
    n = 0
    impls = impl_index(p)
    for b in p.bodies.values():
        if b.kind not in ("fn", "method") or b.crate not in p.crates or generated(b):
            continue
        nm = b.path.split("::")[-1]
        if nm not in ("predict", "sensitivity") or b.argc < 1:
            continue
        t = b.lty(1)
        if b.crate == "reductionml" or "Wrapped" in t.s:
            # the binding: may borrow what it likes, but must not reach an update
            pass
        else:
            ck.ob(f"shared:{b.path}", t.k == "ref" and not t.mut or t.k != "ref", "a predicting method can change the model it predicts with", b.path)
        up = [m for m in closure_of(p, b) if m.crate in p.crates and m.path.split("::")[-1] in UPDATE and m.kind in ("fn", "method")]
        ck.ob(f"noupdate:{b.path}", not up, f"predicting can update the model: {up[0].path if up else ''} is reachable", b.path)
        n += 1
    ck.floor("predicting methods", n, 14)
